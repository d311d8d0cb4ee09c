package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bio = "vimagination.zapto.org/byteio"

// xsize gives how many bytes a method of the big-endian readers and writers
// moves; 0 for those that move a slice.
func xsize(name string) (int64, bool) {
	for _, p := range []string{"Read", "Write"} {
		n := strings.TrimPrefix(name, p)
		if n == name {
			continue
		}
		switch n {
		case "":
			return 0, true
		case "Uint8", "Int8", "Byte", "Bool":
			return 1, true
		case "Uint16", "Int16":
			return 2, true
		case "Uint24", "Int24":
			return 3, true
		case "Uint32", "Int32", "Float32":
			return 4, true
		case "Uint40", "Int40":
			return 5, true
		case "Uint48", "Int48":
			return 6, true
		case "Uint56", "Int56":
			return 7, true
		case "Uint64", "Int64", "Float64":
			return 8, true
		}
	}
	return 0, false
}

// stream makes the calls of the big-endian readers and writers, of Seek and of
// io.ReadFull events: a reader can fail at each of them, and keeps the error.
// With sound, no call fails. It gives the object that counts the bytes.
func (r *Run) stream(e *Exec, sound bool, more func(st *State, f *ssa.Function, args []*T) (*T, bool)) *Obj {
	u := e.u
	pos := e.newObj("ghost", types.Typ[types.Int], u.zero)
	at := u.mk(OAddr, pos.id)
	rd, wr := r.p.named(bio, "StickyBigEndianReader"), r.p.named(bio, "StickyBigEndianWriter")
	if rd == nil || wr == nil {
		panic(tooComplex("the big-endian reader"))
	}
	fails := func(st *State, at *T, t types.Type, n int) *T {
		if sound {
			return u.tNil
		}
		p := e.addrAdd(at, u.Int(int64(fieldIndex(t, "Err"))), t)
		e.store(st, p, e.symbolic("err"+itoa(n), errorT), errorT)
		return e.load(st.mem, p, errorT)
	}
	e.summary = func(st *State, f *ssa.Function, args []*T) (*T, bool) {
		if more != nil {
			if v, ok := more(st, f, args); ok {
				return v, ok
			}
		}
		name := f.String()
		var sticky types.Type
		_, known := xsize(f.Name())
		switch {
		case known && strings.HasPrefix(name, "(*"+bio+".StickyBigEndian"):
			sticky = deref(f.Signature.Recv().Type())
		case name == "(*io.SectionReader).Seek", name == "io.ReadFull", name == "io.CopyN":
		default:
			return nil, false
		}
		ins := e.sites[len(e.sites)-1]
		as := make([]*T, len(args))
		for i, a := range args {
			as[i] = a
			if a.op == OSlice && strings.Contains(name, "Write") {
				as[i] = e.reify(st.mem, a, a.typ)
			}
		}
		ev := e.event(st, "call", name, f, as, nil, ins, e.stack[len(e.stack)-1])
		ev.res = e.result("r"+itoa(ev.n), resultType(f.Signature))
		here := e.load(st.mem, at, types.Typ[types.Int])
		var n *T
		switch {
		case sticky != nil:
			if k, _ := xsize(f.Name()); k > 0 {
				n = u.Int(k)
			} else {
				n = e.length(args[1])
			}
		case f.Name() == "ReadFull":
			n = e.length(args[1])
		case f.Name() == "CopyN":
			n = args[2]
		case args[2] == u.zero: // from the start
			here, n = u.zero, args[1]
		case args[2] == u.one:
			n = args[1]
		default:
			n = u.Unknown("seek", types.Typ[types.Int])
		}
		e.store(st, at, u.addP(here, n), types.Typ[types.Int])
		if sticky != nil {
			er := fails(st, args[0], sticky, ev.n)
			if f.Name() == "Read" {
				e.havoc(st, args[1], "after"+itoa(ev.n))
			}
			if ev.res != nil && ev.res.op == OTuple && len(ev.res.args) == 2 {
				ev.res = u.mkT(OTuple, "", ev.res.typ, ev.res.args[0], er)
			}
		}
		if strings.HasPrefix(name, "io.") {
			to := args[0] // the reader itself stays
			if name == "io.ReadFull" {
				to = args[1]
			}
			e.havoc(st, to, "after"+itoa(ev.n))
			var ids []string
			for id, o := range e.objs {
				if types.Identical(o.typ, rd) {
					ids = append(ids, id)
				}
			}
			sort.Strings(ids)
			for _, id := range ids {
				fails(st, u.mk(OAddr, id), rd, ev.n)
			}
		}
		if sound && ev.res != nil && ev.res.op == OTuple && len(ev.res.args) == 2 {
			ev.res = u.mkT(OTuple, "", ev.res.typ, n, u.tNil)
		}
		return ev.res, true
	}
	return pos
}

// reading makes a reader as an argument.
func (r *Run) reading(e *Exec) (val *T, sticky *Obj) {
	rt := r.p.named("xcf", "reader")
	st := r.p.named(bio, "StickyBigEndianReader")
	if rt == nil || st == nil {
		panic(tooComplex("the reader"))
	}
	v := e.symbolic("sticky", st)
	sticky = e.newObj("sticky", st, e.setField(v, fieldIndex(st, "Err"), e.u.tNil, st))
	val = e.symbolic("reader", rt)
	for i, s := 0, rt.Underlying().(*types.Struct); i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), ptrTo(st)) {
			return e.setField(val, i, e.u.mk(OAddr, sticky.id), rt), sticky
		}
	}
	panic(tooComplex("the reader"))
}
