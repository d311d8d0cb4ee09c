package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "", "Obligations of the value graphs of everything that reads an OpenRaster file (indices, nil, conversions, type assertions, lengths) discharged for every file; every loop either bounded by the length of a list or reading a token in each round; a counter with a constant bound around the recursion.", ruleC20)
}

func ruleC20(r *Run) {
	o := r.ora()
	if o == nil {
		return
	}
	own := map[*ssa.Function]bool{o.read: true, o.stack: true}
	exs := map[*ssa.Function]*Exec{}
	outs := map[*ssa.Function]*State{}
	for _, f := range []*ssa.Function{o.decode, o.config, o.stack, o.read} {
		f := f
		r.guard("reading ends", fnName(f), func() {
			e := r.exec()
			e.opaque = func(g *ssa.Function) bool { return own[g] && g != f }
			_, out := e.call(e.start(), f, e.args(f, nil), nil)
			if out == nil {
				panic(tooComplex("it does not return"))
			}
			r.noteFuncs(e)
			exs[f], outs[f] = e, out
			n := 0
			for _, ob := range e.live() {
				n++
				r.viol("no panic", ob.kind+" in "+fnName(ob.in), r.pos(ob.pos), "this can fail for some file: "+clip(fmt.Sprint(ob.t), 200))
			}
			for _, ev := range e.events {
				if ev.kind == "panic" && e.can(ev.pc) {
					n++
					r.viol("no panic", fnName(ev.in), r.pos(ev.pos), "it can panic for some file")
				}
			}
			if n == 0 {
				r.ok("no panic", fmt.Sprint(fnName(f), ": ", len(e.obl), " obligations"))
			}
			for i, lp := range e.loops {
				key := fmt.Sprint(fnName(lp.fn), " in ", fnName(f), " ", i)
				r.check(e.loopEnds(lp), "every loop ends", key, r.pos(lp.pos), "a round need not read anything, and the number of rounds is not bounded")
			}
		})
	}
	r.guard("depth", "groups", func() { r.boundedDepth(exs, o.stack, o.read) })
}

// loopEnds: the rounds are bounded by a number known before, or each reads
// from what comes to an end.
func (e *Exec) loopEnds(lp *Loop) bool {
	u := e.u
	if _, n := loopRange(e, lp); n != nil && !changesIn(n, lp) {
		return true
	}
	read := u.tFalse
	for _, ev := range e.events {
		in := false
		for _, l := range ev.loops {
			in = in || l == lp
		}
		if !in || ev.kind != "call" {
			continue
		}
		if ev.fn == tokenFn || strings.HasSuffix(ev.fn, "Decoder).RawToken") {
			read = u.Or(read, u.And(ev.pc, e.equal(e.errOf(ev), u.tNil, errorT)))
		}
	}
	return e.always(lp.backPC, read)
}

// changesIn: a term that is another in each round.
func changesIn(t *T, lp *Loop) bool {
	bad := false
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if seen[x] || bad {
			return
		}
		seen[x] = true
		if x == lp.kappa {
			bad = true
			return
		}
		for _, v := range lp.vars {
			if v.cur == x && v.back != v.cur && x.op == OSym {
				bad = true
				return
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	return bad
}

// numbers gives the integers that go into a function, by where they are.
func (e *Exec) numbers(f *ssa.Function, args []*T, mem *Mem) map[string]*T {
	out := map[string]*T{}
	var walk func(k string, t types.Type, v *T)
	walk = func(k string, t types.Type, v *T) {
		if intKind(t) != "" {
			out[k] = v
			return
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && isRepoPath(pkgOf(p.Elem())) {
			walk(k, p.Elem(), e.load(mem, v, p.Elem()))
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok && isRepoPath(pkgOf(t)) {
			for i := 0; i < s.NumFields(); i++ {
				walk(pkgOf(t)+"."+t.(*types.Named).Obj().Name()+"."+s.Field(i).Name(), s.Field(i).Type(), e.field(v, i, t))
			}
		}
	}
	for i, p := range f.Params {
		walk("parameter "+p.Name(), p.Type(), args[i])
	}
	return out
}

// boundedDepth: the two functions call each other at most so often.
func (r *Run) boundedDepth(exs map[*ssa.Function]*Exec, fs ...*ssa.Function) {
	type step struct {
		add     int64
		bounded bool
	}
	steps := map[string][]step{}
	n := 0
	for i, f := range fs {
		e := exs[f]
		if e == nil {
			panic(tooComplex("the depth"))
		}
		u := e.u
		g := fs[(i+1)%len(fs)]
		have := e.numbers(f, e.args(f, nil), newMem())
		for _, ev := range e.events {
			if ev.sf != g && ev.sf != f {
				continue
			}
			n++
			if ev.sf == f {
				r.viol("groups are nested only so deep", fnName(f), r.pos(ev.pos), "it calls itself without a bound")
			}
			given := e.numbers(g, ev.args, ev.mem)
			for k, v := range given {
				h := have[k]
				if h == nil {
					continue
				}
				least, okay := int64(1<<40), true
				for _, l := range leaves(u.Restrict(u.Uncut(v), ev.pc)) {
					d, isc := u.subP(l.t, h).intVal()
					okay = okay && isc && d >= 0
					if d < least {
						least = d
					}
				}
				if !okay {
					continue
				}
				bounded := false
				for b := uint(1); b <= 20; b++ {
					if !e.can(u.And(ev.pc, u.GE0(u.addP(h, u.Int(-(1<<b)))))) {
						bounded = true
						break
					}
				}
				steps[k] = append(steps[k], step{least, bounded})
			}
		}
	}
	ok := false
	for _, ss := range steps {
		if len(ss) != n {
			continue
		}
		var sum int64
		b := false
		for _, s := range ss {
			sum += s.add
			b = b || s.bounded
		}
		ok = ok || sum >= 1 && b
	}
	r.check(n >= len(fs) && ok, "groups are nested only so deep", "recursion", r.pos(fs[0].Pos()), "there is no limit to how deep groups are read, so a file can use up the stack")
}
