package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// instr evaluates one instruction; it reports whether the block goes on.
func (e *Exec) instr(act *activation, st *State, in ssa.Instruction) bool {
	u := e.u
	set := func(v ssa.Value, t *T) { st.env[v] = t }
	switch in := in.(type) {
	case *ssa.Alloc:
		el := deref(in.Type())
		kind := "new"
		if !in.Heap {
			kind = "new.l"
		}
		o := e.newObj(kind, el, e.zero(el))
		st.mem.set(o.id, o.init)
		set(in, u.mk(OAddr, o.id))
	case *ssa.BinOp:
		set(in, e.binop(st, in.Op, e.val(st, in.X), e.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos(), act.fn))
	case *ssa.UnOp:
		x := e.val(st, in.X)
		switch in.Op {
		case token.MUL:
			x = u.Restrict(x, st.pc)
			e.nilCheck(st, x, in.Pos(), act.fn)
			if g, ok := in.X.(*ssa.Global); ok && !e.globalMutable(g) {
				set(in, e.load(st.mem, x, in.Type()))
				break
			}
			set(in, e.load(st.mem, x, in.Type()))
		case token.SUB:
			if isFloat(in.Type()) {
				set(in, e.fop("-", in.Type(), u.Float(0), x))
			} else {
				set(in, e.intOp(st, token.SUB, u.zero, x, in.Type(), in.Pos(), act.fn))
			}
		case token.NOT:
			set(in, u.Not(x))
		case token.XOR:
			k := intKind(in.Type())
			if _, hi := kindRange(k); hi != nil && k[0] == 'u' {
				set(in, u.subP(u.BigInt(hi), x))
			} else {
				set(in, u.subP(u.Int(-1), x))
			}
		case token.ARROW:
			ev := e.event(st, "recv", "recv", nil, []*T{x}, nil, in, act.fn)
			ev.res = e.result("recv"+strconv.Itoa(ev.n), in.Type())
			set(in, ev.res)
		}
	case *ssa.ChangeType:
		set(in, e.retag(e.val(st, in.X), in.Type()))
	case *ssa.Convert:
		set(in, e.convert(st, e.val(st, in.X), in.X.Type(), in.Type(), in.Pos(), act.fn))
	case *ssa.MultiConvert:
		set(in, u.Unknown("multiconvert", in.Type()))
	case *ssa.ChangeInterface:
		set(in, e.val(st, in.X))
	case *ssa.SliceToArrayPointer:
		set(in, u.Unknown("slice to array", in.Type()))
	case *ssa.MakeInterface:
		x := u.Restrict(e.val(st, in.X), st.pc)
		set(in, u.mkT(OIface, e.tkey(in.X.Type()), in.Type(), x))
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		set(in, u.lift1(func(t *T) *T {
			if t.op == OTuple && in.Index < len(t.args) {
				return t.args[in.Index]
			}
			return e.opq(u.mkT(OExtract, strconv.Itoa(in.Index), in.Type(), t), in.Type())
		}, t))
	case *ssa.Field:
		set(in, e.field(u.Restrict(e.val(st, in.X), st.pc), in.Field, in.X.Type()))
	case *ssa.FieldAddr:
		x := u.Restrict(e.val(st, in.X), st.pc)
		e.nilCheck(st, x, in.Pos(), act.fn)
		set(in, e.addrAdd(x, u.Int(int64(in.Field)), deref(in.X.Type())))
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			e.bounds(st, i, u.Int(t.Len()), in.Pos(), act.fn)
			set(in, e.elem(x, u.Restrict(i, st.pc), t.Elem()))
		default:
			e.bounds(st, i, e.length(x), in.Pos(), act.fn)
			set(in, e.elem(x, u.Restrict(i, st.pc), in.Type()))
		}
	case *ssa.IndexAddr:
		x, i := u.Restrict(e.val(st, in.X), st.pc), e.val(st, in.Index)
		if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			e.bounds(st, i, u.Int(a.Len()), in.Pos(), act.fn)
			set(in, e.addrAdd(x, u.Restrict(i, st.pc), deref(in.X.Type())))
		} else {
			e.bounds(st, i, e.length(x), in.Pos(), act.fn)
			set(in, e.elemAddr(x, u.Restrict(i, st.pc), in.X.Type()))
		}
	case *ssa.Slice:
		set(in, e.sliceOp(st, in, act.fn))
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		if !e.nonneg(n, st.pc) {
			e.oblige("makeslice", u.And(st.pc, u.Lt(n, u.zero)), in.Pos(), act.fn, n, e.val(st, in.Cap))
		}
		if n == u.zero {
			set(in, u.mkT(OSeq, "", in.Type()))
			break
		}
		o := e.newObj("new.s", in.Type(), u.mkT(OZeroArr, e.tkey(in.Type()), in.Type()))
		st.mem.set(o.id, o.init)
		set(in, u.mkT(OSlice, "", in.Type(), u.mk(OAddr, o.id), u.zero, n))
	case *ssa.MakeMap:
		o := e.newObj("new.m", in.Type(), u.mkT(OMap, e.tkey(in.Type()), in.Type()))
		st.mem.set(o.id, o.init)
		set(in, u.mk(OAddr, o.id))
	case *ssa.MakeChan:
		o := e.newObj("new.c", in.Type(), u.tNil)
		set(in, u.mk(OAddr, o.id))
	case *ssa.MapUpdate:
		m := e.val(st, in.Map)
		k, v := e.val(st, in.Key), e.val(st, in.Value)
		if m.op == OAddr {
			c := e.content(st.mem, m.aux)
			if c.op == OMap {
				as := append([]*T{}, c.args...)
				found := false
				for n := 0; n+1 < len(as); n += 2 {
					if as[n] == k {
						as[n+1] = v
						found = true
					}
				}
				if !found {
					as = append(as, k, v)
				}
				st.mem.set(m.aux, u.mkT(OMap, c.aux, c.typ, as...))
			} else {
				st.mem.set(m.aux, u.Unknown("map", c.typ))
			}
		}
		e.event(st, "mapupdate", "mapupdate", nil, []*T{m, k, v}, nil, in, act.fn)
	case *ssa.Lookup:
		set(in, e.lookup(st, in, act.fn))
	case *ssa.Range:
		x := u.Restrict(e.val(st, in.X), st.pc)
		if x.op == OAddr && len(x.args) == 0 {
			if c := e.content(st.mem, x.aux); c.op == OMap && constKeys(c) {
				o := e.newObj("iter", types.Typ[types.Int], u.zero)
				st.mem.set(o.id, o.init)
				set(in, u.mkT(OBox, "maprange", in.Type(), c, u.mk(OAddr, o.id), x))
				break
			}
		}
		set(in, u.mkT(OBox, "range", in.Type(), x))
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		if it := e.val(st, in.Iter); it.op == OBox && it.aux == "maprange" && e.content(st.mem, it.args[2].aux) == it.args[0] {
			id := it.args[1].aux
			if n, ok := e.content(st.mem, id).intVal(); ok {
				as := it.args[0].args
				if int(n) >= len(as)/2 {
					set(in, u.mk(OTuple, "", u.tFalse, e.zero(tt.At(1).Type()), e.zero(tt.At(2).Type())))
					break
				}
				st.mem.set(id, u.Int(n+1))
				if e.backward {
					n = int64(len(as)/2) - 1 - n
				}
				set(in, u.mk(OTuple, "", u.tTrue, as[2*n], as[2*n+1]))
				break
			}
		}
		e.nevt++
		r := u.mk(ORes, "next"+strconv.Itoa(e.nevt), e.val(st, in.Iter))
		as := make([]*T, tt.Len())
		for n := range as {
			as[n] = e.opq(u.mkT(OExtract, strconv.Itoa(n), tt.At(n).Type(), r), tt.At(n).Type())
		}
		set(in, u.mk(OTuple, "", as...))
	case *ssa.TypeAssert:
		set(in, e.typeAssert(st, in, act.fn))
	case *ssa.MakeClosure:
		bs := make([]*T, len(in.Bindings))
		for n, b := range in.Bindings {
			bs[n] = e.val(st, b)
		}
		set(in, e.fnTerm(in.Fn.(*ssa.Function), bs...))
	case *ssa.Store:
		a := u.Restrict(e.val(st, in.Addr), st.pc)
		e.nilCheck(st, a, in.Pos(), act.fn)
		e.noteStore(st, a, e.val(st, in.Val), in, act.fn)
		e.store(st, a, u.Restrict(e.val(st, in.Val), st.pc), deref(in.Addr.Type()))
	case *ssa.Call:
		r, out := e.callCommon(st, in.Common(), in, act.fn)
		if out == nil {
			return false
		}
		*st = *out
		if r != nil {
			set(in, r)
		}
	case *ssa.Go:
		fn, args := e.callArgs(st, in.Common())
		if e.goNow != nil {
			after := e.goNow(st)
			_, out := e.doCall(st, in.Common(), fn, args, in, act.fn)
			if out == nil {
				return false
			}
			*st = *out
			after(st)
			break
		}
		e.event(st, "go", "go", in.Common().StaticCallee(), append([]*T{fn}, args...), nil, in, act.fn)
		for _, a := range args {
			e.havoc(st, a, "go"+strconv.Itoa(e.nevt))
		}
		if fn != nil {
			for i, a := range fn.args {
				if f := e.funcs[fn.aux]; f != nil && a.op == OAddr && onlyLoaded(f, i) {
					a = e.load(st.mem, a, deref(f.FreeVars[i].Type()))
				}
				e.havoc(st, a, "go"+strconv.Itoa(e.nevt))
			}
		}
	case *ssa.Defer:
		fn, args := e.callArgs(st, in.Common())
		st.def = append(st.def[:len(st.def):len(st.def)], &deferred{st.pc, in.Common(), fn, args, in})
	case *ssa.RunDefers:
		ds := st.def
		st.def = nil
		for n := len(ds) - 1; n >= 0; n-- {
			d := ds[n]
			on := u.And(st.pc, d.pc)
			if on == u.tFalse {
				continue
			}
			off := u.And(st.pc, u.Not(d.pc))
			a := st.clone()
			a.pc = on
			_, out := e.doCall(a, d.call, d.fn, d.args, d.ins, act.fn)
			if out == nil {
				if off == u.tFalse {
					return false
				}
				st.pc = off
				continue
			}
			if off != u.tFalse {
				b := st.clone()
				b.pc = off
				out = e.mergeStates([]*State{out, b})
			}
			*st = *out
		}
	case *ssa.Send:
		e.event(st, "send", "send", nil, []*T{e.val(st, in.Chan), e.val(st, in.X)}, nil, in, act.fn)
	case *ssa.Select:
		e.event(st, "select", "select", nil, nil, nil, in, act.fn)
		set(in, e.result("select"+strconv.Itoa(e.nevt), in.Type()))
	default:
		panic(tooComplex("instruction " + in.String()))
	}
	return true
}

// result makes the opaque value (or tuple of values) of an event or a pure call.
func (e *Exec) result(name string, t types.Type) *T {
	return e.components(e.u.mkT(ORes, name, t), t)
}

func (e *Exec) components(r *T, t types.Type) *T {
	if tt, ok := t.(*types.Tuple); ok {
		as := make([]*T, tt.Len())
		for n := range as {
			as[n] = e.opq(e.u.mkT(OExtract, strconv.Itoa(n), tt.At(n).Type(), r), tt.At(n).Type())
		}
		return e.u.mk(OTuple, "", as...)
	}
	return e.opq(r, t)
}

func (e *Exec) nilCheck(st *State, p *T, pos token.Pos, in *ssa.Function) {
	for _, l := range leaves(p) {
		if l.t.op == ONil {
			c := st.pc
			for _, x := range l.lits {
				c = e.u.And(c, e.lit(x))
			}
			e.oblige("nil", c, pos, in, p)
		}
	}
}

func (e *Exec) lit(l Lit) *T {
	if l.val {
		return e.u.atom(l.atom)
	}
	return e.u.Not(e.u.atom(l.atom))
}

func (e *Exec) bounds(st *State, i, n *T, pos token.Pos, in *ssa.Function) {
	u := e.u
	bad := u.Or(u.Lt(i, u.zero), u.Le(n, i))
	bad = u.Restrict(bad, st.pc)
	if bad == u.tFalse {
		return
	}
	e.oblige("index", u.And(st.pc, bad), pos, in, i, n)
	if bad == u.tTrue {
		st.pc = u.tFalse // nothing comes after it
	}
}

// noteStore records stores through pointers that were not made here.
func (e *Exec) noteStore(st *State, a, v *T, in ssa.Instruction, fn *ssa.Function) {
	for _, l := range leaves(a) {
		if l.t.op == OAddr && strings.HasPrefix(l.t.aux, "new") {
			continue
		}
		e.event(st, "store", "store", nil, []*T{l.t, v}, nil, in, fn)
	}
}

func (e *Exec) retag(t *T, typ types.Type) *T {
	return e.u.lift1(func(t *T) *T {
		switch t.op {
		case OStruct, OArray, OZeroArr:
			return e.u.mkT(t.op, e.tkey(typ), typ, t.args...)
		}
		return t
	}, t)
}

func (e *Exec) convert(st *State, x *T, from, to types.Type, pos token.Pos, in *ssa.Function) *T {
	u := e.u
	fk, tk := intKind(from), intKind(to)
	switch {
	case fk != "" && tk != "":
		return e.norm(st, e.peel(x, tk), tk, pos, in)
	case fk != "" && isFloat(to):
		return u.lift1(func(x *T) *T {
			if x.op == OInt {
				f, _ := new(big.Rat).SetInt(x.i).Float64()
				return u.Float(f)
			}
			return u.mkT(OFop, "i2f", to, x)
		}, x)
	case isFloat(from) && tk != "":
		return u.lift1(func(x *T) *T {
			if x.op == OFloat {
				if n, acc := big.NewFloat(x.f).Int(nil); acc == big.Exact || true {
					return e.norm(st, u.BigInt(n), tk, pos, in)
				}
			}
			return u.mkT(OFop, "f2i", to, x)
		}, x)
	case isFloat(from) && isFloat(to):
		return x
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok && intKind(s.Elem()) == "u8" {
			x = e.reify(st.mem, x, from)
			return u.lift1(func(x *T) *T {
				x = e.wholeText(st, x)
				if x.op == OBox && x.aux == "bytes" {
					return x.args[0]
				}
				if x.op == OSeq {
					bs := make([]byte, 0, len(x.args))
					for _, a := range x.args {
						n, ok := a.intVal()
						if !ok {
							return u.mkT(OBox, "string", to, x)
						}
						bs = append(bs, byte(n))
					}
					return u.Str(string(bs))
				}
				return u.mkT(OBox, "string", to, x)
			}, x)
		}
		if isString(from) {
			return x
		}
		return u.lift1(func(x *T) *T {
			if x = flat(u, x); x.op == OSeq {
				rs := make([]rune, 0, len(x.args))
				for _, a := range x.args {
					n, ok := a.intVal()
					if !ok || n != int64(rune(n)) {
						return u.mkT(OBox, "runestr", to, x)
					}
					rs = append(rs, rune(n))
				}
				return u.Str(string(rs))
			}
			return u.mkT(OBox, "runestr", to, x)
		}, e.reify(st.mem, x, from))
	case isString(from):
		kind := "runes"
		if s, ok := to.Underlying().(*types.Slice); ok && intKind(s.Elem()) == "u8" {
			kind = "bytes"
		}
		return u.lift1(func(x *T) *T { return u.mkT(OBox, kind, to, x) }, x)
	}
	return e.retag(x, to)
}

func (e *Exec) sliceOp(st *State, in *ssa.Slice, fn *ssa.Function) *T {
	u := e.u
	x := u.Restrict(e.val(st, in.X), st.pc)
	lo := u.zero
	if in.Low != nil {
		lo = e.val(st, in.Low)
	}
	var hi *T
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
		n := u.Int(a.Len())
		if hi == nil {
			hi = n
		}
		e.sliceBounds(st, lo, hi, n, in.Pos(), fn)
		ln := u.subP(hi, lo)
		if ln == u.zero {
			return u.mkT(OSeq, "", in.Type())
		}
		return u.lift1(func(x *T) *T {
			if x.op == ONil {
				return x
			}
			id, path := e.addrOf(x, deref(in.X.Type()))
			return u.mkT(OSlice, "", in.Type(), u.mk(OAddr, id, path...), lo, ln)
		}, x)
	}
	full := hi == nil
	n := e.length(x)
	if full {
		hi = n
	}
	if in.Low != nil || !full {
		capn := n
		if !full && !isString(in.X.Type()) { // up to the capacity, which is not modelled
			capn = u.lift1(func(x *T) *T { return u.mkT(OBox, "cap", types.Typ[types.Int], x) }, x)
			e.sliceBounds(st, lo, hi, n, in.Pos(), fn)
			_ = capn
		} else {
			e.sliceBounds(st, lo, hi, n, in.Pos(), fn)
		}
	}
	if isString(in.X.Type()) {
		return u.lift1(func(x *T) *T {
			if a, ok := lo.intVal(); ok && x.op == OStr {
				if b, ok := hi.intVal(); ok && a >= 0 && b >= a && int(b) <= len(x.aux) {
					return u.Str(x.aux[a:b])
				}
			}
			if lo == u.zero && hi == e.length(x) {
				return x
			}
			return u.mkT(OBox, "substr", in.Type(), x, lo, hi)
		}, x)
	}
	return u.lift1(func(x *T) *T {
		h := hi
		if full {
			h = e.length(x)
		}
		switch x.op {
		case ONil:
			return x
		case OSlice:
			return e.slice(x.args[0], u.addP(x.args[1], lo), u.subP(h, lo), in.Type())
		case OSeq:
			a, ok1 := lo.intVal()
			b, ok2 := h.intVal()
			if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(x.args) {
				return u.mkT(OSeq, "", in.Type(), x.args[a:b]...)
			}
		}
		if lo == u.zero && full {
			return x
		}
		if ln := u.subP(h, lo); ln == u.zero {
			return u.mkT(OSeq, "", in.Type())
		}
		return e.slice(e.backing(x, in.X.Type()), lo, u.subP(h, lo), in.Type())
	}, x)
}

func (e *Exec) sliceBounds(st *State, lo, hi, n *T, pos token.Pos, fn *ssa.Function) {
	u := e.u
	bad := u.Or(u.Lt(lo, u.zero), u.Or(u.Lt(hi, lo), u.Lt(n, hi)))
	bad = u.Restrict(bad, st.pc)
	if bad != u.tFalse {
		e.oblige("slice", u.And(st.pc, bad), pos, fn, lo, hi, n)
	}
}

func (e *Exec) lookup(st *State, in *ssa.Lookup, fn *ssa.Function) *T {
	u := e.u
	x, k := e.val(st, in.X), u.Restrict(e.val(st, in.Index), st.pc)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // a string
		e.bounds(st, k, e.length(x), in.Pos(), fn)
		return e.elem(x, k, in.Type())
	}
	var v, has *T
	c := x
	if x.op == OAddr {
		c = e.content(st.mem, x.aux)
	}
	if c.op == OMap {
		v, has = e.zero(mt.Elem()), u.tFalse
		for n := len(c.args) - 2; n >= 0; n -= 2 {
			q := e.equal(k, c.args[n], mt.Key())
			v = e.mergeVal(q, c.args[n+1], v)
			has = u.Or(q, has)
		}
	} else {
		r := u.mkT(OElem, "map", mt.Elem(), c, k)
		has = u.atom(u.mk(OPred, "", u.mk(OBox, "has", c, k)))
		v = e.mergeVal(has, e.opq(r, mt.Elem()), e.zero(mt.Elem()))
	}
	if in.CommaOk {
		return u.mk(OTuple, "", v, has)
	}
	return v
}

func (e *Exec) typeAssert(st *State, in *ssa.TypeAssert, fn *ssa.Function) *T {
	u := e.u
	x := u.Restrict(e.val(st, in.X), st.pc)
	at := in.AssertedType
	ai, isI := at.Underlying().(*types.Interface)
	is := func(x *T) *T {
		switch x.op {
		case ONil:
			return u.tFalse
		case OIface:
			dt := e.typs[x.aux]
			if isI {
				return u.Bool(types.Implements(dt, ai))
			}
			return u.Bool(types.Identical(dt, at))
		}
		if isI {
			if x.typ != nil && types.Implements(x.typ, ai) {
				return u.Not(e.equal(x, u.tNil, in.X.Type()))
			}
			return u.atom(u.mk(OIs, "I:"+e.tkey(at), x))
		}
		return u.atom(u.mk(OIs, e.tkey(at), x))
	}
	ok := u.lift1(is, x)
	get := func(x *T) *T {
		if isI {
			return x
		}
		switch x.op {
		case OIface:
			if types.Identical(e.typs[x.aux], at) {
				return x.args[0]
			}
			return e.zero(at)
		case ONil:
			return e.zero(at)
		}
		return e.opq(u.mkT(OPayload, e.tkey(at), at, x), at)
	}
	v := u.lift1(get, x)
	ok = u.Restrict(ok, st.pc)
	if in.CommaOk {
		return u.mk(OTuple, "", e.mergeVal(ok, v, e.zero(at)), ok)
	}
	if ok != u.tTrue {
		e.oblige("assert", u.And(st.pc, u.Not(ok)), in.Pos(), fn, x)
		st.pc = u.And(st.pc, ok)
		v = u.Restrict(v, ok)
	}
	return v
}

// ---- calls

func (e *Exec) callArgs(st *State, c *ssa.CallCommon) (*T, []*T) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, e.u.Restrict(e.val(st, a), st.pc))
	}
	if c.IsInvoke() {
		return e.u.Restrict(e.val(st, c.Value), st.pc), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return e.u.Restrict(e.val(st, c.Value), st.pc), args
}

func (e *Exec) callCommon(st *State, c *ssa.CallCommon, ins ssa.Instruction, in *ssa.Function) (*T, *State) {
	fn, args := e.callArgs(st, c)
	return e.doCall(st, c, fn, args, ins, in)
}

// doCall evaluates a call; a callee that is a decision is called on each side.
func (e *Exec) doCall(st *State, c *ssa.CallCommon, fn *T, args []*T, ins ssa.Instruction, in *ssa.Function) (*T, *State) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, c, args, ins, in), st
	}
	ls := leaves(fn)
	if len(ls) == 1 {
		return e.callLeaf(st, c, ls[0].t, args, ins, in)
	}
	// group the leaves by callee
	var order []*T
	conds := map[*T]*T{}
	for _, l := range ls {
		cc := e.u.tTrue
		for _, x := range l.lits {
			cc = e.u.And(cc, e.lit(x))
		}
		if _, ok := conds[l.t]; !ok {
			order = append(order, l.t)
			conds[l.t] = e.u.tFalse
		}
		conds[l.t] = e.u.Or(conds[l.t], cc)
	}
	var outs []*State
	var ress []*T
	for _, t := range order {
		pc := e.u.And(st.pc, conds[t])
		if pc == e.u.tFalse {
			continue
		}
		s := st.clone()
		s.pc = pc
		as := make([]*T, len(args))
		for n, a := range args {
			as[n] = e.u.Restrict(a, pc)
		}
		r, out := e.callLeaf(s, c, t, as, ins, in)
		if out == nil {
			continue
		}
		outs = append(outs, out)
		ress = append(ress, r)
	}
	if len(outs) == 0 {
		return nil, nil
	}
	for n := range outs {
		if ress[n] != nil {
			o := outs[n].clone()
			o.env[retKey] = ress[n]
			outs[n] = o
		}
	}
	m := e.mergeStates(outs)
	return m.env[retKey], m
}

func (e *Exec) callLeaf(st *State, c *ssa.CallCommon, fn *T, args []*T, ins ssa.Instruction, in *ssa.Function) (*T, *State) {
	rt := resultType(c.Signature())
	if c.IsInvoke() {
		switch fn.op {
		case ONil:
			e.oblige("nil", st.pc, ins.Pos(), in, fn)
			return nil, nil
		case OIface:
			m := e.p.method(e.typs[fn.aux], c.Method.Name())
			if m == nil {
				panic(tooComplex("no method " + c.Method.Name() + " of " + fn.aux))
			}
			return e.static(st, m, append([]*T{fn.args[0]}, args...), nil, ins, in)
		}
		if e.invoke != nil {
			if r, ok := e.invoke(st, c.Method, fn, args); ok {
				return r, st
			}
		}
		name := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		as := append([]*T{fn}, args...)
		if pureMethod(c.Method, c.Value.Type()) {
			e.nilCheck(st, fn, ins.Pos(), in)
			return e.pureCall("invoke."+c.Method.Name(), as, rt), st
		}
		return e.effect(st, name, nil, as, rt, ins, in), st
	}
	if fn.op == OFunc {
		return e.static(st, e.funcs[fn.aux], args, fn.args, ins, in)
	}
	if fn.op == ONil {
		e.oblige("nil", st.pc, ins.Pos(), in, fn)
		return nil, nil
	}
	return e.effect(st, "dynamic:"+fn.String(), nil, append([]*T{fn}, args...), rt, ins, in), st
}

func resultType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (e *Exec) pureCall(name string, args []*T, rt types.Type) *T {
	u := e.u
	if strings.HasPrefix(name, "strconv.") && len(args) > 0 {
		if v := e.inverse(name, args, rt); v != nil {
			return v
		}
	}
	if v := foldMath(u, name, args); v != nil {
		return v
	}
	if v := e.format(name, args); v != nil {
		return v
	}
	r := u.mkT(OCall, name, rt, args...)
	v := e.components(r, rt)
	if strings.HasSuffix(name, ".RGBA") {
		if v.op == OTuple {
			for _, x := range v.args {
				x.lo, x.hi, x.rngd = new(big.Int), big.NewInt(0xffff), true
			}
			for _, x := range v.args[:3] { // premultiplied
				u.extraUB[x] = []*Poly{u.polyOf(v.args[3])}
			}
		}
	}
	return v
}

// static calls a known function: expanded in place, by its model, or as an
// event whose result is unknown.
func (e *Exec) static(st *State, f *ssa.Function, args, binds []*T, ins ssa.Instruction, in *ssa.Function) (*T, *State) {
	rt := resultType(f.Signature)
	name := f.String()
	if r, ok := e.model(st, f, name, args, ins, in); ok {
		return r, st
	}
	e.sites = append(e.sites, ins)
	defer func() { e.sites = e.sites[:len(e.sites)-1] }()
	if e.summary != nil {
		if r, ok := e.summary(st, f, args); ok {
			return r, st
		}
	}
	inline := f.Blocks != nil && e.inlinable(f)
	if inline && len(e.stack) < e.maxDepth {
		n := 0
		for _, g := range e.stack {
			if g == f {
				n++
			}
		}
		// a model may convert with another model
		inline = n <= e.recur || n < 4 && pkgPathOf(f) == "image/color"
	} else {
		inline = false
	}
	if inline {
		return e.call(st, f, args, binds)
	}
	if pureFunc(name) {
		as := make([]*T, len(args))
		for n, a := range args {
			var pt types.Type
			if n < len(f.Params) {
				pt = f.Params[n].Type()
			}
			as[n] = e.reify(st.mem, a, pt)
		}
		r := e.pureCall(name, as, rt)
		if tt, ok := rt.(*types.Tuple); ok && tt.Len() > 0 && types.Identical(tt.At(tt.Len()-1).Type(), errorT) && ins != nil {
			e.pures = append(e.pures, &Event{kind: "pure", pc: st.pc, fn: name, sf: f, args: as, res: r, ins: ins, in: in, pos: ins.Pos(), loops: append([]*Loop{}, e.curLp...)})
		}
		return r, st
	}
	if noReturn(name) {
		e.event(st, "panic", name, f, args, nil, ins, in)
		return nil, nil
	}
	return e.effect(st, name, f, append(append([]*T{}, args...), binds...), rt, ins, in), st
}

func (e *Exec) inlinable(f *ssa.Function) bool {
	if e.opaque != nil && e.opaque(f) {
		return false
	}
	p := pkgPathOf(f)
	if isRepoPath(p) || e.also[p] || e.also[f.String()] {
		return true
	}
	if r := f.Signature.Recv(); strings.HasPrefix(f.Synthetic, "wrapper") && r != nil && isRepoPath(pkgOf(deref(r.Type()))) {
		return true // what is embedded
	}
	switch p {
	case "encoding/xml":
		return f.String() == "(encoding/xml.StartElement).End"
	case "image":
		return f.Name() != "Decode" && f.Name() != "DecodeConfig" && f.Name() != "RegisterFormat"
	case "image/color":
		if r := f.Signature.Recv(); r != nil {
			if n, ok := types.Unalias(r.Type()).(*types.Named); ok && n.Obj().Name() == "Palette" {
				return false
			}
		}
		return true
	}
	// wrappers and thunks of inlinable methods
	return false
}

// effect records a call whose result and effects are unknown.
func (e *Exec) effect(st *State, name string, f *ssa.Function, args []*T, rt types.Type, ins ssa.Instruction, in *ssa.Function) *T {
	as := make([]*T, len(args))
	for n, a := range args {
		as[n] = a
		if f != nil && n < len(f.Params) {
			as[n] = e.reify(st.mem, a, f.Params[n].Type())
		} else if a.op == OSlice {
			as[n] = e.reify(st.mem, a, a.typ)
		}
	}
	ev := e.event(st, "call", name, f, as, nil, ins, in)
	ev.res = e.result("r"+strconv.Itoa(ev.n), rt)
	if !readsOnly(name) {
		for _, a := range args {
			e.havoc(st, a, "after"+strconv.Itoa(ev.n))
		}
	}
	return ev.res
}

// havoc forgets what a callee may have written.
func (e *Exec) havoc(st *State, t *T, why string) {
	for _, l := range leaves(t) {
		x := l.t
		switch x.op {
		case OIface:
			e.havoc(st, x.args[0], why)
		case OAddr:
			if strings.HasPrefix(x.aux, "g:") {
				continue
			}
			e.havocAt(st, x, why)
		case OSlice:
			e.havocAt(st, x.args[0], why)
		case OFunc:
			for _, a := range x.args {
				e.havoc(st, a, why)
			}
		}
	}
}

func (e *Exec) havocAt(st *State, a *T, why string) {
	for _, l := range leaves(a) {
		if l.t.op != OAddr {
			continue
		}
		id, path := l.t.aux, l.t.args
		typ := e.objType(id)
		c := e.content(st.mem, id)
		pt := typ
		np := 0
		for _, i := range path {
			switch x := pt.Underlying().(type) {
			case *types.Struct:
				n, _ := i.intVal()
				pt = x.Field(int(n)).Type()
				np++
				continue
			}
			break
		}
		v := e.symbolic(why+":"+id+"."+strconv.Itoa(np), pt)
		st.mem.set(id, e.setPath(c, typ, path[:np], v))
	}
}

func (e *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*T, ins ssa.Instruction, in *ssa.Function) *T {
	u := e.u
	switch b.Name() {
	case "len":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			_ = m
			return u.mk(OLen, "", args[0])
		}
		if a, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
			return u.Int(a.Len())
		}
		return e.length(args[0])
	case "cap":
		t := u.mkT(OBox, "cap", types.Typ[types.Int], args[0])
		return t
	case "append":
		typ := c.Args[0].Type()
		return e.appendOp(st, args[0], args[1], typ, c.Args[1].Type())
	case "copy":
		e.copyOp(st, args[0], args[1], c.Args[0].Type(), ins, in)
		if n, ok := e.length(args[0]).intVal(); ok {
			if m, ok := e.length(args[1]).intVal(); ok {
				return u.Int(min(n, m))
			}
		}
		return u.mkT(OBox, "copied", types.Typ[types.Int], args[0], args[1])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if intKind(c.Args[0].Type()) == "" {
				r = u.mkT(OFop, b.Name(), c.Args[0].Type(), r, a)
				continue
			}
			le := u.Le(r, a)
			if b.Name() == "min" {
				r = u.Ite(le, r, a)
			} else {
				r = u.Ite(le, a, r)
			}
		}
		return r
	case "delete", "clear", "close", "print", "println":
		e.event(st, b.Name(), b.Name(), nil, args, nil, ins, in)
		if b.Name() == "delete" || b.Name() == "clear" {
			e.havoc(st, args[0], "cleared")
		}
		return u.tNil
	case "recover":
		return u.tNil
	}
	if c.Signature().Results().Len() == 0 {
		return u.tNil
	}
	return u.Unknown("builtin "+b.Name(), resultType(c.Signature()))
}

func (e *Exec) appendOp(st *State, s, more *T, typ, mt types.Type) *T {
	u := e.u
	if isString(mt) {
		return u.lift2(func(a, b *T) *T { return u.mkT(OConcat, "", typ, seqOf(u, a, typ), b) }, s, more)
	}
	more = e.reify(st.mem, more, mt)
	return u.lift2(func(s, m *T) *T {
		s = seqOf(u, s, typ)
		if s.op == OSlice && s.args[2].op == OInt {
			s = e.reify(st.mem, s, typ)
		}
		switch m.op {
		case ONil:
			return s
		case OSeq:
			if len(m.args) == 0 {
				return s
			}
			if s.op == OSeq {
				return u.mkT(OAppend, "", typ, append([]*T{u.mkT(OSeq, "", typ)}, guarded(u, append(append([]*T{}, s.args...), m.args...))...)...)
			}
			if s.op == OAppend {
				return u.mkT(OAppend, "", typ, append(append([]*T{}, s.args...), guarded(u, m.args)...)...)
			}
			return u.mkT(OAppend, "", typ, append([]*T{s}, guarded(u, m.args)...)...)
		case OAppend:
			if m.args[0].op == OSeq && len(m.args[0].args) == 0 {
				if s.op == OAppend {
					return u.mkT(OAppend, "", typ, append(append([]*T{}, s.args...), m.args[1:]...)...)
				}
				return u.mkT(OAppend, "", typ, append([]*T{s}, m.args[1:]...)...)
			}
		}
		return u.mkT(OConcat, "", typ, s, m)
	}, s, more)
}

func guarded(u *U, as []*T) []*T {
	var out []*T
	for _, a := range as {
		out = append(out, u.tTrue, a)
	}
	return out
}

func seqOf(u *U, t *T, typ types.Type) *T {
	if t.op == ONil {
		return u.mkT(OSeq, "", typ)
	}
	return t
}

// copyElements copies a known number of elements, one by one.
func (e *Exec) copyElements(st *State, d, s *T, typ types.Type, most int) bool {
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok || d.op != OSlice || d.args[0].op != OAddr || s.op != OSlice && s.op != OSeq {
		return false
	}
	n, ok := e.length(d).intVal()
	m, ok2 := e.length(s).intVal()
	if !ok || !ok2 || min(n, m) > int64(most) {
		return false
	}
	var vs []*T
	for i := int64(0); i < n && i < m; i++ {
		vs = append(vs, e.load(st.mem, e.elemAddr(s, e.u.Int(i), typ), sl.Elem()))
	}
	for i, v := range vs {
		e.store(st, e.elemAddr(d, e.u.Int(int64(i)), typ), v, sl.Elem())
	}
	return true
}

func (e *Exec) copyOp(st *State, d, s *T, typ types.Type, ins ssa.Instruction, in *ssa.Function) {
	u := e.u
	e.event(st, "copy", "copy", nil, []*T{d, s}, nil, ins, in)
	if e.copyElements(st, d, s, typ, 64) {
		return
	}
	for _, l := range leaves(d) {
		x := l.t
		if x.op != OSlice || x.args[0].op != OAddr {
			if x.op != ONil && x.op != OSeq {
				b := e.backing(x, typ)
				st.mem.set(b.aux, u.mkT(OBox, "copied", typ, e.content(st.mem, b.aux), s))
			}
			continue
		}
		id := x.args[0].aux
		// a whole fresh slice that takes a copy of one of the same length
		if len(x.args[0].args) == 0 && x.args[1] == u.zero && x.args[2] == e.length(s) && len(leaves(d)) == 1 && s.op != OIte {
			if _, ok := e.objType(id).Underlying().(*types.Slice); ok {
				switch s.op {
				case OSlice:
					if s.args[0].op == OAddr && s.args[1] == u.zero && len(s.args[0].args) == 0 {
						st.mem.set(id, e.content(st.mem, s.args[0].aux))
						continue
					}
				default:
					st.mem.set(id, e.content(st.mem, e.backing(s, typ).aux))
					continue
				}
			}
		}
		if e.also != nil && len(leaves(d)) == 1 && e.copyElements(st, d, s, typ, 1<<15) {
			continue
		}
		e.havocAt(st, x.args[0], "copy"+strconv.Itoa(e.nevt))
	}
}

// inverse: parsing what was formatted gives back the number.
func (e *Exec) inverse(name string, args []*T, rt types.Type) *T {
	u := e.u
	if !strings.HasPrefix(name, "strconv.Atoi") && !strings.HasPrefix(name, "strconv.Parse") {
		return nil
	}
	found := false
	for _, l := range leaves(args[0]) {
		if l.t.op == OCall && strings.HasPrefix(l.t.aux, "strconv.") {
			found = true
		}
	}
	if !found {
		return nil
	}
	is := func(t *T, n int64) bool { v, ok := t.intVal(); return ok && v == n }
	return u.lift1(func(a *T) *T {
		back := func(v *T) *T { return u.mkT(OTuple, "", rt, v, u.tNil) }
		if a.op == OCall {
			switch {
			case name == "strconv.Atoi" && a.aux == "strconv.Itoa":
				return back(a.args[0])
			case name == "strconv.Atoi" && a.aux == "strconv.FormatInt" && is(a.args[1], 10):
				return back(a.args[0])
			case name == "strconv.ParseInt" && (a.aux == "strconv.Itoa" || a.aux == "strconv.FormatInt" && is(a.args[1], 10)) && (is(args[1], 10) || is(args[1], 0)) && (is(args[2], 64) || is(args[2], 0)):
				return back(a.args[0])
			case name == "strconv.ParseBool" && a.aux == "strconv.FormatBool":
				return back(a.args[0])
			case name == "strconv.ParseFloat" && a.aux == "strconv.FormatFloat" && is(a.args[2], -1) && is(a.args[3], 64) && is(args[1], 64):
				if f, ok := a.args[1].intVal(); ok && (f == 'f' || f == 'g' || f == 'e' || f == 'G' || f == 'E') {
					return back(a.args[0])
				}
			}
		}
		return e.components(u.mkT(OCall, name, rt, append([]*T{a}, args[1:]...)...), rt)
	}, args[0])
}

// format gives the ways to write a number or a text one form.
func (e *Exec) format(name string, args []*T) *T {
	u := e.u
	str := types.Typ[types.String]
	itoa := func(x *T) *T {
		return u.lift1(func(x *T) *T {
			if x.op == OInt {
				return u.Str(x.i.String())
			}
			return u.mkT(OCall, "strconv.Itoa", str, x)
		}, x)
	}
	plain := func(a *T) *T { // what %v makes of it
		if a.op != OIface {
			return nil
		}
		b, ok := e.typs[a.aux].(*types.Basic)
		switch {
		case !ok:
			return nil
		case b.Info()&types.IsString != 0:
			return a.args[0]
		case b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint64 && b.Kind() != types.Uint && b.Kind() != types.Uintptr:
			return itoa(a.args[0])
		}
		return nil
	}
	switch name {
	case "strconv.Itoa":
		if args[0].op == OInt || args[0].op == OIte {
			return itoa(args[0])
		}
	case "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			return itoa(args[0])
		}
	case "fmt.Sprint", "fmt.Sprintf":
		vs := args[len(args)-1]
		if vs.op != OSeq {
			return nil
		}
		if name == "fmt.Sprint" {
			if len(vs.args) != 1 {
				return nil
			}
			return plain(vs.args[0])
		}
		if args[0].op != OStr {
			return nil
		}
		f := args[0].aux
		out := u.Str("")
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out = e.concat(out, u.Str(f[i:i+1]))
				continue
			}
			i++
			if i >= len(f) {
				return nil
			}
			if f[i] == '%' {
				out = e.concat(out, u.Str("%"))
				continue
			}
			if n >= len(vs.args) {
				return nil
			}
			v := plain(vs.args[n])
			if v == nil || vs.args[n].op != OIface {
				return nil
			}
			b := e.typs[vs.args[n].aux].(*types.Basic)
			switch isStr := b.Info()&types.IsString != 0; {
			case f[i] == 'v', f[i] == 'd' && !isStr, f[i] == 's' && isStr:
			default:
				return nil
			}
			out = e.concat(out, v)
			n++
		}
		if n == len(vs.args) {
			return out
		}
	}
	return nil
}

// onlyLoaded: the function does nothing to the variable but look at it.
func onlyLoaded(f *ssa.Function, i int) bool {
	if i >= len(f.FreeVars) || f.FreeVars[i].Referrers() == nil {
		return false
	}
	for _, x := range *f.FreeVars[i].Referrers() {
		if l, ok := x.(*ssa.UnOp); !ok || l.Op != token.MUL {
			return false
		}
	}
	return true
}

// constKeys: the keys of a map are known.
func constKeys(c *T) bool {
	for n := 0; n+1 < len(c.args); n += 2 {
		if k := c.args[n].op; k != OStr && k != OInt {
			return false
		}
	}
	return true
}

// wholeText: a slice may be all of a text that was copied.
func (e *Exec) wholeText(st *State, x *T) *T {
	if x.op != OSlice || x.args[0].op != OAddr || len(x.args[0].args) > 0 || x.args[1] != e.u.zero {
		return x
	}
	n := x.args[2]
	c := e.content(st.mem, x.args[0].aux)
	for c.op == OUpd && e.nonneg(e.u.subP(c.args[1], n), st.pc) {
		c = c.args[0]
	}
	if c.op == OBox && c.aux == "bytes" && e.length(c) == n {
		return c
	}
	return x
}

// flat makes a list of what was appended to one.
func flat(u *U, x *T) *T {
	if x.op != OAppend || x.args[0].op != OSeq && x.args[0].op != ONil {
		return x
	}
	as := append([]*T{}, x.args[0].args...)
	for n := 1; n+1 < len(x.args); n += 2 {
		if x.args[n] != u.tTrue {
			return x
		}
		as = append(as, x.args[n+1])
	}
	return u.mkT(OSeq, "", x.typ, as...)
}
