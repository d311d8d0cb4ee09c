package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "", "Value graphs of every function that reads a list of XCF properties, the position in the file counted along: every round of a loop that reads a list of properties takes, for each identifier of the format and any other, as many bytes as the property has: those its length says, the fixed size of its kind, or the size its own counts add up to (colours, parasites, paths, vectors, units)", ruleC22)
}

// readArgs are arguments with a fresh reader in the place of the reader, alone
// or in a decoder.
func (r *Run) readArgs(e *Exec, f *ssa.Function) []*T {
	given := map[int]*T{}
	rt := r.p.named("xcf", "reader")
	var build func(t types.Type, name string) *T
	build = func(t types.Type, name string) *T {
		if types.Identical(t, rt) {
			v, _ := r.reading(e)
			return v
		}
		if p, ok := t.(*types.Pointer); ok {
			if v := build(p.Elem(), name); v != nil {
				return e.u.mk(OAddr, e.newObj(name, p.Elem(), v).id)
			}
			return nil
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok || pkgOf(t) != modPath+"/xcf" {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if v := build(s.Field(i).Type(), name); v != nil {
					return e.setField(e.symbolic(name, t), i, v, t)
				}
			}
		}
		return nil
	}
	for i, p := range f.Params {
		if v := build(p.Type(), p.Name()); v != nil {
			given[i] = v
		}
	}
	if len(given) == 0 {
		return nil
	}
	return e.args(f, given)
}

// eventsIn gives the events right in a loop.
func (e *Exec) eventsIn(lp *Loop) []*Event {
	var evs []*Event
	for _, ev := range e.events {
		if n := len(ev.loops); n > 0 && ev.loops[n-1] == lp && ev.kind == "call" {
			evs = append(evs, ev)
		}
	}
	return evs
}

// isRead: the event reads a number of so many bytes.
func isRead(ev *Event, n int64) bool {
	if ev.sf == nil || ev.sf.Signature.Recv() == nil {
		return false
	}
	k, ok := xsize(ev.sf.Name())
	return ok && k == n && pkgPathOf(ev.sf) == bio
}

// propLoop: a loop that reads a list of properties; it gives the identifier
// and the length.
func (e *Exec) propLoop(lp *Loop) (id, n *T) {
	evs := e.eventsIn(lp)
	if len(evs) < 3 || !isRead(evs[0], 4) || !isRead(evs[1], 4) || !e.always(lp.headPC, e.u.And(evs[0].pc, evs[1].pc)) {
		return nil, nil
	}
	end := e.u.And(lp.backPC, e.u.EQ0(evs[0].res))
	if e.can(end) || !e.can(lp.backPC) {
		return nil, nil
	}
	return evs[0].res, evs[1].res
}

// unwrapped: numbers as they are when nothing overflows.
func (u *U) unwrapped(t *T) *T {
	return u.Map(t, func(x *T) *T {
		if x.op == OWrap {
			return u.unwrapped(x.args[0])
		}
		return nil
	})
}

// xcfProps are the properties of the format and the bytes they take; -1 for
// those whose length is given, -2 for those that have to be looked into.
var xcfProps = map[int64]int64{
	1: -3, 2: 0, 3: 0, 4: 0, 5: 4, 6: 4, 7: 4, 8: 4, 9: 4, 10: 4, 11: 4, 12: 4, 13: 4, 14: 4, 15: 8, 16: 3, 17: 1, 18: -1, 19: 8, 20: 4,
	21: -1, 22: 4, 23: -2, 24: -2, 25: -2, 26: 4, 27: -1, 28: 4, 29: 0, 30: -1, 31: 4, 32: 4, 33: 4, 34: 4, 35: 4, 36: 4, 37: 4, 38: 12, 39: -1, 1000: -1,
}

func ruleC22(r *Run) {
	p := r.p.pkg("xcf")
	if p == nil {
		r.missing("package xcf")
		return
	}
	lists := map[*ssa.Function]bool{}
	for _, f := range r.p.src {
		f := f
		if pkgPathOf(f) != modPath+"/xcf" || f.Parent() != nil || !r.readsWords(f) {
			continue
		}
		r.guard("each property is read whole", fnName(f), func() {
			e := r.exec()
			ghost := r.stream(e, true, nil)
			args := r.readArgs(e, f)
			if args == nil {
				return
			}
			e.opaque = func(g *ssa.Function) bool { return lists[g] }
			e.call(e.start(), f, args, nil)
			for _, lp := range e.loops {
				if len(lp.outer) > 0 {
					continue
				}
				id, n := e.propLoop(lp)
				if id == nil {
					continue
				}
				lists[f] = true
				r.noteFuncs(e)
				r.listInStep(e, lp, ghost, id, n)
			}
		})
	}
	r.check(len(lists) >= 3, "each property is read whole", "lists", "?", "the lists of the image, of a layer and of a channel are not all read")
}

// readsWords: there is a loop in the function in which numbers of four bytes
// are read, by itself or by what it calls.
func (r *Run) readsWords(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(work) > 0 && !seen[b] {
			c := work[len(work)-1]
			work = work[:len(work)-1]
			if !seen[c] {
				seen[c] = true
				work = append(work, c.Succs...)
			}
		}
		if !seen[b] {
			continue
		}
		for _, x := range b.Instrs {
			c, ok := x.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				continue
			}
			if _, ok := c.(*ssa.Go); ok {
				continue
			}
			order, _ := r.reach(c.Common().StaticCallee())
			for _, g := range append(order, c.Common().StaticCallee()) {
				for _, h := range append(callees(g), g) {
					if k, ok := xsize(h.Name()); ok && k == 4 && pkgPathOf(h) == bio {
						return true
					}
				}
			}
		}
	}
	return false
}

func callees(f *ssa.Function) (fs []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if c, ok := x.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
				fs = append(fs, c.Common().StaticCallee())
			}
		}
	}
	return
}

// kind of a number that a loop changes.
func (v *LoopVar) kind(e *Exec) string {
	if v.phi != nil {
		return intKind(v.phi.Type())
	}
	if v.cur.typ != nil {
		return intKind(v.cur.typ)
	}
	return ""
}

// same: two numbers are equal where something holds.
func (e *Exec) same(pc, a, b *T) bool {
	d := e.u.subP(a, b)
	return e.always(pc, e.u.EQ0(d)) || e.always(pc, e.u.GE0(d)) && e.always(pc, e.u.GE0(e.u.mulP(d, e.u.Int(-1))))
}

// sound: no error was found in a round.
func (e *Exec) sound(lp *Loop) *T {
	c := e.u.tTrue
	for _, x := range lp.vars {
		if x.obj != "" && x.back != nil && x.cur.typ != nil && types.Identical(x.cur.typ, errorT) {
			c = e.u.And(c, e.u.And(e.equal(x.cur, e.u.tNil, errorT), e.equal(x.back, e.u.tNil, errorT)))
		}
	}
	return c
}

// cellOf gives what a loop does to an object.
func (lp *Loop) cellOf(id string) *LoopVar {
	for _, x := range lp.vars {
		if x.obj == id {
			return x
		}
	}
	return nil
}

// seg is a part of what is read: some bytes, and then perhaps a loop.
type seg struct {
	d  *T
	lp *Loop
}

// segments takes what is read from one position to another apart, at the loops
// right within a loop.
func (e *Exec) segments(to, from *T, in *Loop, ghost *Obj, pc *T, is func(*T) *T) []seg {
	u := e.u
	var inner []*Loop
	for _, l := range e.loops {
		if n := len(l.outer); n > 0 && l.outer[n-1] == in && l.cellOf(ghost.id) != nil {
			inner = append(inner, l)
		}
	}
	last := seg{}
	var out []seg
	x := to
	for {
		var l *Loop
		mine := map[*T]bool{}
		u.deepVarsT(x, mine)
		for i := len(inner) - 1; i >= 0 && l == nil; i-- {
			c := u.unwrapped(is(inner[i].cellOf(ghost.id).cur))
			vs := map[*T]bool{}
			u.deepVarsT(c, vs)
			for v := range vs {
				own := v == inner[i].kappa || v == c
				if own && mine[v] {
					l, inner = inner[i], inner[:i]
					last.d = u.subP(x, c)
					break
				}
			}
		}
		if l == nil {
			last.d = u.subP(x, from)
			out = append([]seg{last}, out...)
			return out
		}
		out = append([]seg{last}, out...)
		last = seg{lp: l}
		x = u.unwrapped(u.Restrict(is(l.cellOf(ghost.id).init), u.And(pc, is(l.entryPC))))
	}
}

// words gives what the reads of four bytes right in a loop give.
func (e *Exec) words(lp *Loop, pc *T, is func(*T) *T) []*T {
	var ws []*T
	for _, ev := range e.eventsIn(lp) {
		if isRead(ev, 4) && e.can(e.u.And(pc, is(ev.pc))) {
			ws = append(ws, ev.res)
		}
	}
	return ws
}

func (r *Run) listInStep(e *Exec, lp *Loop, ghost *Obj, id, n *T) {
	u := e.u
	v := lp.cellOf(ghost.id)
	if v == nil {
		panic(tooComplex("the position"))
	}
	var ks []int64
	for k := range xcfProps {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	const rule = "each property is read whole"
	for _, k := range ks {
		is := func(t *T) *T {
			return u.Map(u.Uncut(t), func(x *T) *T {
				if x == id {
					return u.Int(k)
				}
				return nil
			})
		}
		pc := is(u.And(lp.backPC, e.sound(lp)))
		name := fmt.Sprint("property ", k, " in ", fnName(lp.fn))
		if k == 1000 {
			name = "unknown property in " + fnName(lp.fn)
		}
		pos := r.pos(lp.pos)
		if !r.check(e.can(pc), rule, name, pos, "no file can have it") {
			continue
		}
		head := u.addP(v.cur, u.Int(8))
		to := u.unwrapped(u.Restrict(is(v.back), pc))
		bad := ""
		for _, l := range leaves(to) {
			c := pc
			for _, x := range l.lits {
				c = u.And(c, e.lit(x))
			}
			if e.can(c) && !r.wholeRead(e, lp, ghost, k, id, n, l.t, head, c, is) {
				bad = "what is read is " + clip(u.subP(l.t, head).String(), 200) + " bytes"
			}
		}
		if s := xcfProps[k]; bad != "" && s >= 0 {
			bad = fmt.Sprint("it has ", s, " bytes; ", bad)
		}
		r.check(bad == "", rule, name, pos, bad)
	}
}

// wholeRead: on one way through a round as many bytes are read as there are.
func (r *Run) wholeRead(e *Exec, lp *Loop, ghost *Obj, k int64, id, n, to, head, pc *T, is func(*T) *T) bool {
	u := e.u
	took := u.subP(to, head)
	size := xcfProps[k]
	if e.same(pc, took, n) { // what it says it has
		return true
	}
	if size >= 0 {
		w := u.Map(took, func(x *T) *T {
			if x == n {
				return u.Int(size)
			}
			return nil
		})
		return e.differ(w, u.Int(size), pc, 0) == ""
	}
	switch k {
	case 1: // a count, and three bytes for each colour
		for _, w := range e.words(lp, pc, is) {
			if e.same(pc, took, u.addP(u.Int(4), u.mulP(w, u.Int(3)))) {
				return true
			}
		}
	case 24: // a number, a number, and five strings
		ws := e.words(lp, pc, is)
		sum := u.Int(28)
		for _, w := range ws {
			if w != id && w != n {
				sum = u.addP(sum, w)
			}
		}
		return len(ws) == 7 && took == sum
	case 21:
		return r.parasites(e, lp, ghost, n, took, pc, is)
	case 23:
		return e.paths(lp, ghost, to, head, pc, is)
	case 25:
		return e.vectors(lp, ghost, to, head, pc, is)
	}
	return false
}

// parasites: what remains gets less by what is read.
func (r *Run) parasites(e *Exec, lp *Loop, ghost *Obj, n, took, pc *T, is func(*T) *T) bool {
	u := e.u
	facts := pc
	for _, l := range e.loops {
		g := l.cellOf(ghost.id)
		if len(l.outer) == 0 || l.outer[len(l.outer)-1] != lp || g == nil || !e.can(u.And(pc, is(l.entryPC))) {
			continue
		}
		back := u.And(is(l.backPC), e.sound(l))
		ws := e.words(l, back, is)
		if len(ws) == 0 {
			continue
		}
		back = u.And(back, u.GE0(u.addP(ws[0], u.Int(-1)))) // it has a name
		for _, x := range l.vars {
			if x == g || x.back == nil || x.kind(e) == "" {
				continue
			}
			before := u.addP(g.cur, x.cur)
			after := u.addP(is(g.back), is(x.back))
			if e.always(back, u.EQ0(u.unwrapped(u.Restrict(u.subP(after, before), back)))) {
				facts = u.And(facts, u.EQ0(u.unwrapped(u.subP(before, u.addP(is(g.init), is(x.init))))))
			}
		}
	}
	return e.same(facts, took, n)
}

// rounds: the loop is over after so many rounds as one of the words says.
func (e *Exec) rounds(l *Loop, after *T, ws []*T, is func(*T) *T) bool {
	for _, w := range ws {
		if w != nil && e.always(after, e.u.EQ0(e.u.subP(l.kappa, w))) {
			return true
		}
	}
	return false
}

// wordAt gives the word of four bytes that lies, in a round, so far behind the
// start of the round.
func (e *Exec) wordAt(l *Loop, ghost *Obj, back, off *T, is func(*T) *T) *T {
	u := e.u
	for _, ev := range e.eventsIn(l) {
		if !isRead(ev, 4) || !e.can(u.And(back, is(ev.pc))) {
			continue
		}
		at := u.unwrapped(u.Restrict(is(u.subP(ev.mem.at(ghost.id), l.cellOf(ghost.id).cur)), back))
		if at == u.unwrapped(off) {
			return ev.res
		}
	}
	return nil
}

// paths: an index and a count, and for each path a name, two numbers, a byte,
// the number of points and a version, that of numbers more as the version
// says, and twelve bytes for each point.
func (e *Exec) paths(lp *Loop, ghost *Obj, to, head, pc *T, is func(*T) *T) bool {
	u := e.u
	ss := e.segments(to, head, lp, ghost, pc, is)
	if len(ss) != 2 || ss[0].d != u.Int(8) || ss[1].d != u.zero || !e.rounds(ss[0].lp, pc, []*T{e.wordAt(lp, ghost, pc, u.Int(12), is)}, is) {
		return false
	}
	l := ss[0].lp
	g := l.cellOf(ghost.id)
	back := is(l.backPC)
	d := u.unwrapped(u.Restrict(u.subP(is(g.back), is(g.cur)), back))
	at := func(n int64, more ...*T) *T {
		off := u.Int(n)
		for _, m := range more {
			off = u.addP(off, m)
		}
		return e.wordAt(l, ghost, back, off, is)
	}
	name := at(0)
	if name == nil {
		return false
	}
	points, version := at(13, name), at(17, name)
	if points == nil || version == nil {
		return false
	}
	want := u.addP(u.addP(u.Int(21), name), u.addP(u.mulP(u.Int(12), points), u.mulP(u.Int(4), u.addP(version, u.Int(-1)))))
	return e.always(back, u.And(u.GE0(u.addP(version, u.Int(-1))), u.GE0(u.subP(u.Int(3), version)))) && e.always(back, u.EQ0(u.subP(d, want)))
}

// vectors: a version, an index and a count, and for each path a name, five
// numbers, parasites and strokes.
func (e *Exec) vectors(lp *Loop, ghost *Obj, to, head, pc *T, is func(*T) *T) bool {
	u := e.u
	ss := e.segments(to, head, lp, ghost, pc, is)
	if len(ss) != 2 || ss[0].d != u.Int(12) || ss[1].d != u.zero || !e.rounds(ss[0].lp, pc, []*T{e.wordAt(lp, ghost, pc, u.Int(16), is)}, is) {
		return false
	}
	l := ss[0].lp
	g := l.cellOf(ghost.id)
	back := is(l.backPC)
	ps := e.segments(u.unwrapped(u.Restrict(is(g.back), back)), is(g.cur), l, ghost, back, is)
	word := func(l *Loop, back *T, n int64, more ...*T) []*T {
		off := u.Int(n)
		for _, m := range more {
			off = u.addP(off, m)
		}
		if w := e.wordAt(l, ghost, back, off, is); w != nil {
			return []*T{w}
		}
		return nil
	}
	name := word(l, back, 0)
	if len(ps) != 3 || ps[1].d != u.zero || ps[2].d != u.zero || name == nil || ps[0].d != u.addP(u.Int(24), name[0]) ||
		!e.rounds(ps[0].lp, back, word(l, back, 16, name[0]), is) || !e.rounds(ps[1].lp, back, word(l, back, 20, name[0]), is) {
		return false
	}
	one := func(l *Loop, want func(l *Loop, back *T) *T) bool {
		g := l.cellOf(ghost.id)
		back := is(l.backPC)
		d := u.unwrapped(u.Restrict(u.subP(is(g.back), is(g.cur)), back))
		w := want(l, back)
		return w != nil && e.always(back, u.EQ0(u.subP(d, w)))
	}
	return one(ps[0].lp, func(l *Loop, back *T) *T { // a parasite
		name := word(l, back, 0)
		if name == nil {
			return nil
		}
		size := word(l, back, 8, name[0])
		if size == nil {
			return nil
		}
		return u.addP(u.Int(12), u.addP(name[0], size[0]))
	}) && one(ps[1].lp, func(l *Loop, back *T) *T { // a stroke
		floats, points := word(l, back, 8), word(l, back, 12)
		if floats == nil || points == nil {
			return nil
		}
		return u.addP(u.Int(16), u.mulP(u.Int(4), u.mulP(points[0], u.addP(floats[0], u.one))))
	})
}
