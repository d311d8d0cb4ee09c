package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "", "Typestate over the events of the value graph of ReadAt on every path: locked before the reader is touched and unlocked after, positioned at the offset when it is read, position unknown after a failure. Field by field comparison of bufioReader with bufio.Reader. Value graph of GetReaderAt.", ruleC14)
}

func ruleC14(r *Run) {
	pk := r.p.pkg("internal")
	if pk == nil {
		r.missing("package internal")
		return
	}
	// the types with ReadAt that wrap a seeker
	sc := pk.Pkg.Scope()
	n := 0
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		f := r.p.method(types.NewPointer(tn.Type()), "ReadAt")
		if f == nil || f.Blocks == nil {
			continue
		}
		n++
		r.guard("reader", nm+".ReadAt", func() { r.readAt(tn.Type(), s, f) })
	}
	if n == 0 {
		r.missing("a type with ReadAt in package internal")
	}
	// the private copy of bufio.Reader
	r.guard("layout", "bufioReader", func() { r.layout(pk.Pkg.Scope()) })
	r.guard("choice", "GetReaderAt", func() { r.choice() })
}

func (r *Run) readAt(t types.Type, s *types.Struct, f *ssa.Function) {
	e := r.exec()
	u := e.u
	name := t.(*types.Named).Obj().Name() + ".ReadAt"
	pos := r.pos(f.Pos())
	recv := e.newObj("reader", t, e.symbolic("r", t))
	ptr := u.mk(OAddr, recv.id)
	pf := fieldIndex(t, "pos")
	p := e.symbolic("p", f.Signature.Params().At(0).Type())
	off := e.symbolic("offset", f.Signature.Params().At(1).Type())
	st := e.start()
	before := e.load(st.mem, ptr, t)
	var at0 *T
	if pf >= 0 {
		at0 = e.field(before, pf, t)
	}
	res, out := e.call(st, f, []*T{ptr, p, off}, nil)
	r.analysed(f)
	r.noteFuncs(e)
	if res == nil {
		panic(tooComplex("ReadAt does not return"))
	}
	locked, unlocked := u.tFalse, u.tFalse
	seeked, known := u.tFalse, u.tFalse // positioned at the offset; tried to
	failed := u.tFalse
	reads := 0
	var read *Event
	for _, ev := range e.events {
		if ev.kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.fn, "Mutex).Lock"):
			bad := u.And(ev.pc, u.And(locked, u.Not(unlocked)))
			r.check(bad == u.tFalse || e.infeasible(bad), "one lock at a time", name, r.pos(ev.pos), "locked twice on one path")
			locked = u.Or(locked, ev.pc)
		case strings.HasSuffix(ev.fn, "Mutex).Unlock"):
			bad := u.And(ev.pc, u.Not(locked))
			r.check(bad == u.tFalse || e.infeasible(bad), "one lock at a time", name+" unlock", r.pos(ev.pos), "unlocked without having been locked")
			bad = u.And(ev.pc, unlocked)
			r.check(bad == u.tFalse || e.infeasible(bad), "one lock at a time", name+" unlock twice", r.pos(ev.pos), "unlocked twice on one path")
			unlocked = u.Or(unlocked, ev.pc)
		case strings.HasSuffix(ev.fn, ").Seek"), ev.fn == "io.ReadFull", strings.HasSuffix(ev.fn, ").Read"), ev.fn == "io.ReadAtLeast":
			bad := u.And(ev.pc, u.Or(u.Not(locked), unlocked))
			r.check(bad == u.tFalse || e.infeasible(bad), "reader is touched under the lock", name+" "+ev.fn, r.pos(ev.pos), "the reader is used without the lock: "+clip(bad.String(), 200))
			if strings.HasSuffix(ev.fn, ").Seek") {
				args := ev.args[len(ev.args)-2:]
				d := e.differ(args[0], off, ev.pc, 0)
				r.check(d == "", "seeks to the offset", name, r.pos(ev.pos), "the reader is not positioned at the offset: "+d)
				d = e.differ(args[1], u.zero, ev.pc, 0)
				r.check(d == "", "seeks to the offset", name+" whence", r.pos(ev.pos), "the offset is not counted from the start: "+d)
				ok := e.equal(ev.res.args[1], u.tNil, types.Universe.Lookup("error").Type())
				seeked = u.Or(seeked, u.And(ev.pc, ok))
				failed = u.Or(failed, u.And(ev.pc, u.Not(ok)))
				known = u.Or(known, ev.pc)
				continue
			}
			reads++
			read = ev
			here := u.tFalse
			if at0 != nil {
				here = u.EQ0(u.subP(off, at0))
			}
			bad = u.And(ev.pc, u.Not(u.Or(seeked, u.And(here, u.Not(known)))))
			r.check(bad == u.tFalse || e.infeasible(bad), "reads at the offset", name, r.pos(ev.pos), "the reader is read without being at the offset: "+clip(bad.String(), 200))
			// into the whole of the caller's buffer
			d := e.differ(e.length(ev.args[1]), e.length(p), ev.pc, 0)
			r.check(d == "", "reads what is asked for", name, r.pos(ev.pos), "another number of bytes is read: "+d)
			r.check(ev.fn != "io.ReadAtLeast" && !strings.HasSuffix(ev.fn, ").Read"), "reads all of it", name, r.pos(ev.pos), "one read may give less than was asked for, without an error")
		}
	}
	if reads != 1 {
		r.viol("reads what is asked for", name+" reads", pos, fmt.Sprint(reads, " reads"))
		return
	}
	bad := u.And(out.pc, u.And(locked, u.Not(unlocked)))
	r.check(bad == u.tFalse || e.infeasible(bad), "unlocked in the end", name, pos, "a path ends with the lock held: "+clip(bad.String(), 200))
	bad = u.And(out.pc, u.Not(locked))
	r.check(bad == u.tFalse || e.infeasible(bad), "reader is touched under the lock", name+" locks", pos, "a path does not lock: "+clip(bad.String(), 200))
	// the results
	errT := types.Universe.Lookup("error").Type()
	n, err := read.res.args[0], read.res.args[1]
	pc := u.And(out.pc, read.pc)
	d := e.differ(res.args[0], n, pc, 0)
	r.check(d == "", "bytes read", name, pos, "another number of bytes is returned than was read: "+d)
	isNil := e.equal(err, u.tNil, errT)
	bad = u.And(pc, u.And(u.Not(isNil), e.equal(res.args[1], u.tNil, errT)))
	r.check(bad == u.tFalse || e.infeasible(bad), "errors are returned", name, pos, "a failure to read is not returned: "+clip(bad.String(), 200))
	bad = u.And(pc, u.And(isNil, u.Not(e.equal(res.args[1], u.tNil, errT))))
	r.check(bad == u.tFalse || e.infeasible(bad), "errors are returned", name+" success", pos, "an error is returned though all was read: "+clip(bad.String(), 200))
	bad = u.And(u.And(out.pc, failed), e.equal(res.args[1], u.tNil, errT))
	r.check(bad == u.tFalse || e.infeasible(bad), "errors are returned", name+" seek", pos, "a failure to seek is not returned: "+clip(bad.String(), 200))
	d = e.differ(res.args[0], u.zero, u.And(out.pc, failed), 0)
	r.check(d == "", "errors are returned", name+" count", pos, "bytes are counted that were not read: "+d)
	// no path returns ErrUnexpectedEOF: the end of the data is io.EOF
	if pk := r.p.prog.ImportedPackage("io"); pk != nil {
		if g, ok := pk.Members["ErrUnexpectedEOF"].(*ssa.Global); ok {
			ue := e.load(out.mem, e.globalAddr(g), g.Type().Underlying().(*types.Pointer).Elem())
			same := u.And(pc, u.And(e.equal(err, ue, errT), e.equal(res.args[1], err, errT)))
			same = u.Restrict(same, out.pc)
			ok := true
			for _, l := range leaves(u.Restrict(res.args[1], u.And(pc, e.equal(err, ue, errT)))) {
				ok = ok && l.t != err
			}
			r.check(ok, "end of the data is io.EOF", name, pos, "the end of the data is not reported as io.EOF")
		}
	}
	// the position that is kept
	if pf >= 0 {
		after := e.field(e.load(out.mem, ptr, t), pf, t)
		var base *T = off
		// a position after a good seek is the offset
		want := u.addP(base, n)
		sub := func(x *T) *T { // the result of a good seek from the start is the offset
			return u.Map(u.Uncut(x), func(y *T) *T {
				for _, ev := range e.events {
					if ev.kind == "call" && strings.HasSuffix(ev.fn, ").Seek") && y == ev.res.args[0] {
						return off
					}
				}
				return nil
			})
		}
		d := e.differ(sub(after), want, sub(pc), 0)
		r.check(d == "", "position kept", name, pos, "the position kept after a read is not where the reader is: "+d)
		fp := u.And(out.pc, failed)
		if fp != u.tFalse {
			v := u.Restrict(after, fp)
			neg := true
			for _, l := range leaves(v) {
				x, isc := l.t.intVal()
				neg = neg && isc && x < 0
			}
			r.check(neg, "position kept", name+" after a failure", pos, "after a failed seek a position is kept that the reader may not be at: "+clip(v.String(), 200))
		}
	}
	for _, ob := range e.live() {
		if ob.kind != "nil" {
			r.viol(ob.kind, name+" in "+fnName(ob.in), r.pos(ob.pos), "this can fail: "+clip(fmt.Sprint(ob.t), 200))
		}
	}
}

// layout compares structs that stand in for others behind unsafe.Pointer.
func (r *Run) layout(sc *types.Scope) {
	found := 0
	for f := range r.p.all {
		if !r.p.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				if bt, ok := c.X.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.UnsafePointer {
					continue
				}
				from, ok := c.X.(*ssa.Convert)
				if !ok {
					r.viol("layout behind unsafe.Pointer", fnName(f), r.pos(c.Pos()), "what the pointer points to is not known")
					continue
				}
				found++
				a, b := deref(from.X.Type()), deref(c.Type())
				r.analysed(f)
				d := sameLayout(a, b, 0)
				r.check(d == "", "layout behind unsafe.Pointer", fnName(f), r.pos(c.Pos()), types.TypeString(a, nil)+" is read as "+types.TypeString(b, nil)+": "+d)
			}
		}
	}
	if found == 0 {
		r.ok("layout behind unsafe.Pointer", "unsafe.Pointer is not used")
	}
}

func sameLayout(a, b types.Type, depth int) string {
	if types.Identical(a, b) || depth > 8 {
		return ""
	}
	switch x := a.Underlying().(type) {
	case *types.Struct:
		y, ok := b.Underlying().(*types.Struct)
		if !ok {
			return "not a struct"
		}
		if y.NumFields() > x.NumFields() {
			return "has more fields"
		}
		for i := 0; i < y.NumFields(); i++ {
			if x.Field(i).Name() != y.Field(i).Name() {
				return fmt.Sprint("field ", i, " is ", x.Field(i).Name(), ", not ", y.Field(i).Name())
			}
			if d := sameLayout(x.Field(i).Type(), y.Field(i).Type(), depth+1); d != "" {
				return "field " + x.Field(i).Name() + ": " + d
			}
		}
		return ""
	}
	if types.Identical(a.Underlying(), b.Underlying()) {
		return ""
	}
	return types.TypeString(a, nil) + " is not " + types.TypeString(b, nil)
}

// choice: what GetReaderAt gives for each kind of reader.
func (r *Run) choice() {
	f := r.p.fn("internal", "GetReaderAt")
	if f == nil {
		r.missing("internal.GetReaderAt")
		return
	}
	e := r.exec()
	u := e.u
	pos := r.pos(f.Pos())
	rd := e.symbolic("reader", f.Signature.Params().At(0).Type())
	res, out := e.call(e.start(), f, []*T{rd}, nil)
	r.analysed(f)
	r.noteFuncs(e)
	rat := r.stdType("io", "ReaderAt")
	for _, l := range leaves(u.Restrict(u.Uncut(res), out.pc)) {
		pc := out.pc
		for _, q := range l.lits {
			pc = u.And(pc, e.lit(q))
		}
		if pc == u.tFalse || e.infeasible(pc) {
			continue
		}
		switch {
		case l.t.op == ONil:
			r.ok("choice of reader", "none")
		case l.t.op == OIface: // a reader of our own: starts at an unknown position
			t := deref(e.typs[l.t.aux])
			nt, ok := t.(*types.Named)
			if !ok {
				r.viol("choice of reader", "type", pos, "gives "+clip(l.t.String(), 100))
				continue
			}
			m := r.p.method(types.NewPointer(nt), "ReadAt")
			r.check(m != nil && r.p.inRepo(m), "choice of reader", nt.Obj().Name(), pos, "gives "+clip(l.t.String(), 100))
			if pf := fieldIndex(t, "pos"); pf >= 0 {
				v := e.field(e.load(out.mem, l.t.args[0], t), pf, t)
				n, isc := v.intVal()
				r.check(isc && n < 0, "position kept", nt.Obj().Name()+" at first", pos, "a new reader assumes a position: "+clip(v.String(), 100))
			}
		default:
			// what implements io.ReaderAt itself: asserted on this path
			ok := false
			for _, q := range l.lits {
				if q.val && q.atom.op == OIs && (strings.Contains(q.atom.aux, "ReaderAt") || q.atom.aux == e.tkey(rat)) {
					ok = true
				}
			}
			r.check(ok, "choice of reader", "io.ReaderAt", pos, "gives "+clip(l.t.String(), 100)+" without it being an io.ReaderAt")
		}
	}
	for _, ob := range e.live() {
		if ob.kind != "nil" {
			r.viol(ob.kind, "GetReaderAt in "+fnName(ob.in), r.pos(ob.pos), "this can fail: "+clip(fmt.Sprint(ob.t), 200))
		}
	}
}
