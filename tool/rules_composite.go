package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers

func (r *Run) exec() *Exec { return NewExec(r.p) }

func (e *Exec) start() *State { return &State{pc: e.u.tTrue, mem: newMem()} }

// modes reads the composite modes off the constants of their type.
func (r *Run) modes() map[string]int64 {
	out := map[string]int64{}
	t := r.p.named("", "Composite")
	if t == nil {
		return out
	}
	sc := r.p.pkg("").Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t) && c.Exported() {
			if v, ok := constant.Int64Val(c.Val()); ok {
				out[strings.TrimPrefix(n, "Composite")] = v
			}
		}
	}
	return out
}

func (r *Run) stdType(pkg, name string) types.Type {
	if sp := r.p.pkgs[pkg]; sp != nil && sp.Type(name) != nil {
		return sp.Type(name).Type()
	}
	panic(tooComplex("no type " + pkg + "." + name))
}

// px is a symbolic straight-alpha pixel.
type px struct{ c [4]*T }

func (e *Exec) pixel(r *Run, n string) (px, *T) {
	var p px
	for i, c := range "RGBA" {
		p.c[i] = e.u.SymR(n+"."+string(c), 0, 65535)
	}
	return p, e.colour(r, p)
}

func (e *Exec) colour(r *Run, p px) *T {
	t := r.stdType("image/color", "NRGBA64")
	return e.u.mkT(OIface, e.tkey(t), nil, e.u.mkT(OStruct, e.tkey(t), t, p.c[:]...))
}

// straight reads a colour as the library does: as straight-alpha channels.
func (e *Exec) straight(r *Run, c *T) px {
	u := e.u
	var out px
	for i := range out.c {
		i := i
		out.c[i] = u.lift1(func(c *T) *T {
			if c.op != OIface {
				panic(tooComplex("a colour of unknown type: " + clip(c.String(), 80)))
			}
			t := e.typs[c.aux]
			switch {
			case types.Identical(t, r.stdType("image/color", "NRGBA64")):
				return e.field(c.args[0], i, t)
			case types.Identical(t, r.stdType("image/color", "NRGBA")):
				return u.scale(e.field(c.args[0], i, t), 257)
			}
			if m := r.p.method(t, "ToNRGBA"); m != nil {
				v, _ := e.call(e.start(), m, []*T{c.args[0]}, nil)
				return e.field(v, i, m.Signature.Results().At(0).Type())
			}
			panic(tooComplex("a colour of type " + c.aux))
		}, c)
	}
	return out
}

// atoms lists the free symbols of a term.
func freeSyms(t *T, out map[*T]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OSym, ORes, OUnknown, OMu, ODeref:
		out[t] = true
	}
	for _, a := range t.args {
		freeSyms(a, out, seen)
	}
}

func symNames(t *T) []string {
	m := map[*T]bool{}
	freeSyms(t, m, map[*T]bool{})
	var s []string
	for x := range m {
		s = append(s, x.aux)
	}
	sort.Strings(s)
	return s
}

func hasOp(t *T, op Op) *T {
	seen := map[*T]bool{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == op {
			return t
		}
		for _, a := range t.args {
			if x := rec(a); x != nil {
				return x
			}
		}
		return nil
	}
	return rec(t)
}

func ratPoly(u *U, t *T) *Poly { return u.polyOf(t) }

// forall proves that a comparison holds on every leaf: f gives, for a leaf
// value, polynomials that have to be non-negative where the path condition holds.
func (e *Exec) forall(t, pc *T, f func(v *Poly, pc *T) []*Poly) (bad *T, cond *T) {
	u := e.u
	ls := leaves(u.Restrict(t, pc))
	if len(ls) > 4000 {
		panic(tooComplex("too many cases"))
	}
	for _, l := range ls {
		c := pc
		for _, x := range l.lits {
			c = u.And(c, e.lit(x))
		}
		if c == u.tFalse {
			continue
		}
		v := l.t
		if hasOp(v, OWrap) != nil {
			v = e.unwrap(v, c)
			if v.op == OIte {
				if bad, cond = e.forall(v, c, f); bad != nil {
					return bad, cond
				}
				continue
			}
		}
		for _, p := range f(u.polyOf(v), c) {
			if !u.ProveGE0(p, c) && !e.infeasible(c) {
				return v, c
			}
		}
	}
	return nil, nil
}

// unwrap drops the reductions that have no effect where pc holds.
func (e *Exec) unwrap(t, pc *T) *T {
	u := e.u
	var f func(y *T) *T
	f = func(y *T) *T {
		if y.op != OWrap {
			return nil
		}
		a := u.Map(y.args[0], f)
		lo, hi := kindRange(y.aux)
		if a.op != OIte {
			p := u.polyOf(a)
			if u.ProveGE0(p.Sub(constPoly(new(big.Rat).SetInt(lo))), pc) && u.ProveGE0(constPoly(new(big.Rat).SetInt(hi)).Sub(p), pc) || e.productBelow(p, hi, pc) {
				return a
			}
			if b := e.coarse(a, pc); b != a {
				p := u.polyOf(b)
				if u.ProveGE0(p.Sub(constPoly(new(big.Rat).SetInt(lo))), pc) && u.ProveGE0(constPoly(new(big.Rat).SetInt(hi)).Sub(p), pc) {
					return a
				}
			}
		}
		if a == y.args[0] {
			return y
		}
		return u.mk(OWrap, y.aux, a)
	}
	return u.Map(t, f)
}

// coarse replaces the quotients that are known to stay between 0 and F by
// names for any number there.
func (e *Exec) coarse(t, pc *T) *T {
	u := e.u
	return u.Map(t, func(y *T) *T {
		if y.op == ODiv && y.args[1].op != OInt {
			if p := u.polyOf(y); u.ProveGE0(p, pc) && u.ProveGE0(k(F).Sub(p), pc) {
				return u.SymR(fmt.Sprint("quotient", y.id), 0, F)
			}
		}
		if y.op == ODiv && y.args[1].op == OInt {
			// the product of a quotient and a sum that stays there as well
			for _, q := range polyVars(u.polyOf(y.args[0])) {
				if q.op != ODiv || q.args[1].op == OInt {
					continue
				}
				c0, c1, c2, ok := split2(u.polyOf(y.args[0]), q)
				if !ok || len(c0.m) > 0 || len(c2.m) > 0 || len(c1.m) < 2 {
					continue
				}
				p := u.polyOf(q)
				if u.ProveGE0(p, pc) && u.ProveGE0(k(F).Sub(p), pc) && u.ProveGE0(c1, pc) && u.ProveGE0(k(F).Sub(c1), pc) {
					return u.div(u.mulP(u.SymR(fmt.Sprint("quotient", q.id), 0, F), u.SymR("sum"+polyKey(c1), 0, F)), y.args[1])
				}
			}
		}
		return nil
	})
}

// live lists the obligations that were not discharged where they arose and
// that what is known of their path does not discharge either.
func (e *Exec) live() []*Oblig {
	var out []*Oblig
	for _, ob := range e.obl {
		if ob.kind == "wrap" || e.infeasible(ob.pc) || e.infeasible(e.u.Uncut(ob.pc)) {
			continue
		}
		out = append(out, ob)
	}
	return out
}

// wrapped finds a reduction in the term that has an effect in some case.
func (e *Exec) wrapped(t, pc *T) *T {
	u := e.u
	if hasOp(t, OWrap) == nil {
		return nil
	}
	ls := leaves(u.Restrict(u.Uncut(t), pc))
	if len(ls) > 4000 {
		return hasOp(t, OWrap)
	}
	for _, l := range ls {
		if hasOp(l.t, OWrap) == nil {
			continue
		}
		c := pc
		for _, x := range l.lits {
			c = u.And(c, e.lit(x))
		}
		if c == u.tFalse {
			continue
		}
		v := e.unwrap(l.t, c)
		if v.op == OIte {
			if w := e.wrapped(v, c); w != nil {
				return w
			}
		} else if w := hasOp(v, OWrap); w != nil && !e.infeasible(c) {
			return w
		}
	}
	return nil
}

// productBelow: p is a product of two factors that are bounded apart.
func (e *Exec) productBelow(p *Poly, hi *big.Int, pc *T) bool {
	u := e.u
	limits := []int64{255, F, 2 * F, 1 << 16}
	bound := func(x *Poly) int64 {
		if !u.ProveGE0(x, pc) {
			return -1
		}
		for _, l := range limits {
			if u.ProveGE0(k(l).Sub(x), pc) {
				return l
			}
		}
		return -1
	}
	for _, v := range polyVars(p) {
		c0, c1, c2, ok := split2(p, v)
		if !ok || len(c2.m) > 0 || len(c1.m) == 0 {
			continue
		}
		if _, con := c1.constVal(); con {
			continue
		}
		// p = v*c1 + c0
		x := k(0)
		x.add([]*T{v}, big.NewRat(1, 1))
		if len(c0.m) > 0 {
			q := divideExact(c0, c1)
			if q == nil {
				continue
			}
			x = x.Add(q)
		}
		// move the common factor of c1 to x
		g := content(c1)
		c1 = c1.Scale(new(big.Rat).Inv(g))
		x = x.Scale(g)
		a := bound(c1)
		if a < 0 {
			continue
		}
		b := bound(x)
		if b >= 0 && new(big.Int).Mul(big.NewInt(a), big.NewInt(b)).Cmp(hi) <= 0 {
			return true
		}
	}
	return false
}

// divideExact divides polynomials, if nothing remains.
func divideExact(a, b *Poly) *Poly {
	lead := func(p *Poly) *mono {
		var l *mono
		for _, m := range p.m {
			if l == nil || monoBefore(m, l) {
				l = m
			}
		}
		return l
	}
	q := newPoly()
	lb := lead(b)
	for n := 0; len(a.m) > 0; n++ {
		la := lead(a)
		rest := append([]*T{}, la.vars...)
		for _, v := range lb.vars {
			i := 0
			for i < len(rest) && rest[i] != v {
				i++
			}
			if i == len(rest) || n > 50 {
				return nil
			}
			rest = append(rest[:i], rest[i+1:]...)
		}
		t := newPoly()
		t.add(rest, new(big.Rat).Quo(la.c, lb.c))
		q = q.Add(t)
		a = a.Sub(b.Mul(t))
	}
	return q
}

// monoBefore orders monomials by degree, then by their variables.
func monoBefore(a, b *mono) bool {
	if len(a.vars) != len(b.vars) {
		return len(a.vars) > len(b.vars)
	}
	for i := range a.vars {
		if a.vars[i] != b.vars[i] {
			return a.vars[i].id < b.vars[i].id
		}
	}
	return false
}

// content is the greatest number that divides all coefficients, if they are whole.
func content(p *Poly) *big.Rat {
	g := new(big.Int)
	for _, m := range p.m {
		if !m.c.IsInt() {
			return big.NewRat(1, 1)
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
	}
	if g.Sign() == 0 {
		return big.NewRat(1, 1)
	}
	return new(big.Rat).SetInt(g)
}

// sameTerm proves two integer terms equal where pc holds.
func (e *Exec) sameTerm(a, b, pc *T) bool {
	u := e.u
	a, b = u.Uncut(a), u.Uncut(b)
	if a == b {
		return true
	}
	a, b = u.Restrict(a, pc), u.Restrict(b, pc)
	if a == b {
		return true
	}
	bad, _ := e.forall(u.subP(a, b), pc, func(v *Poly, c *T) []*Poly { return []*Poly{v, v.Neg()} })
	return bad == nil
}

func (e *Exec) within(a, b, pc *T, tol int64) bool {
	u := e.u
	bad, _ := e.forall(u.subP(a, b), pc, func(v *Poly, c *T) []*Poly {
		return []*Poly{v.Add(intPoly(tol)), intPoly(tol).Sub(v)}
	})
	return bad == nil
}

var perChannel = []string{"Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract", "DarkenOnly", "LightenOnly", "Divide", "Dodge", "Burn", "HardLight", "SoftLight", "GrainExtract", "GrainMerge"}
var colourModes = []string{"Hue", "Saturation", "Color", "Value", "Luminosity"}

// compose evaluates the composition of two pixels in a mode.
func (r *Run) compose(e *Exec, mode int64, b, t *T) (*T, *State) {
	f := r.p.method(r.p.named("", "Composite"), "Composite")
	if f == nil {
		panic(tooComplex("no method Composite of type Composite"))
	}
	r.analysed(f)
	res, st := e.call(e.start(), f, []*T{e.u.Int(mode), b, t}, nil)
	if res == nil {
		panic(tooComplex("composition does not return"))
	}
	return res, st
}

func (r *Run) noteFuncs(e *Exec) {
	if os.Getenv("LIMCHECK_TIME") != "" {
		fmt.Println("  lp:", e.u.lpN, "proved", e.u.lpOK, "in", e.u.lpT)
	}
	for f := range e.inlined {
		if r.p.inRepo(f) {
			r.analysed(f)
		}
	}
}

func init() {
	register("C01", "", "Value graph of the composition of two symbolic straight-alpha pixels in each per-channel mode and in Normal: the free symbols of an output channel are the two values of that channel and the two alphas, and the graphs of green and blue are the graph of red under renaming (hash-consed equality, else polynomial bounding of the difference).", ruleC01)
	register("C02", "", "Value graph of the composition of two opaque symbolic pixels in each blend mode, compared case by case with the published formula by bounding polynomials over the floor-division terms, for all 2^32 pairs of channel values at once.", ruleC02)
	register("C03", "", "Value graph of the composition with symbolic alphas, and with one alpha fixed at an end: transparent top, transparent bottom, opaque top, opaque bottom, alpha of the result.", ruleC03)
	register("C04", "", "No wrapped or truncated integer remains in the value graph of a composed colour, no division by a possibly zero divisor is reached, and premultiplied channels are bounded by alpha, alpha by 0xffff.", ruleC04)
}

func ruleC01(r *Run) {
	ms := r.modes()
	r.each("channel", append([]string{"Normal"}, perChannel...), func(name string) {
		m, ok := ms[name]
		if !ok {
			r.missing("composite mode " + name)
			return
		}
		e := r.exec()
		b, bt := e.pixel(r, "b")
		t, tt := e.pixel(r, "t")
		res, _ := r.compose(e, m, bt, tt)
		out := e.straight(r, res)
		r.noteFuncs(e)
		var un [4]*T
		for i := range un {
			un[i] = e.u.Uncut(out.c[i])
		}
		for i, cn := range []string{"red", "green", "blue"} {
			allowed := map[*T]bool{b.c[i]: true, t.c[i]: true, b.c[3]: true, t.c[3]: true}
			got := map[*T]bool{}
			freeSyms(un[i], got, map[*T]bool{})
			var extra []string
			for s := range got {
				if !allowed[s] {
					extra = append(extra, s.aux)
				}
			}
			sort.Strings(extra)
			r.check(len(extra) == 0, "dependency", name+"/"+cn, "composite.go", "the "+cn+" channel of mode "+name+" also depends on "+strings.Join(extra, ", "))
		}
		for i, cn := range []string{"green", "blue"} {
			i++
			ren := e.u.Map(un[0], func(x *T) *T {
				switch x {
				case b.c[0]:
					return b.c[i]
				case t.c[0]:
					return t.c[i]
				}
				return nil
			})
			r.check(e.sameTerm(ren, un[i], e.u.tTrue), "symmetry", name+"/"+cn, "composite.go", "the "+cn+" channel of mode "+name+" is computed differently from the red channel: "+clip(un[i].String(), 200)+" against "+clip(un[0].String(), 200))
		}
	})
}

// formula gives what has to be non-negative for v to be the published result
// of blending x (below) and y (above), for each case of the formula.
type fcase struct {
	cond func(u *U, x, y *T) *T
	req  func(v, x, y *Poly) []*Poly
}

const F = 0xffff

func always(u *U, x, y *T) *T { return u.tTrue }

func k(n int64) *Poly { return intPoly(n) }

// near: |v*d - n| <= tol*d, for d > 0.
func near(v, n, d *Poly, tol int64) []*Poly {
	x := v.Mul(d).Sub(n)
	t := d.Scale(big.NewRat(tol, 1))
	return []*Poly{t.Add(x), t.Sub(x)}
}

func poly1(f func(x, y *Poly) *Poly, tol int64) []fcase {
	return []fcase{{always, func(v, x, y *Poly) []*Poly { return near(v, f(x, y), k(F), tol) }}}
}

func sat(v *Poly) []*Poly  { return []*Poly{v.Sub(k(F - 2))} }
func nil0(v *Poly) []*Poly { return []*Poly{k(2).Sub(v)} }

func formulas() map[string][]fcase {
	overlay := func(v, x, y *Poly) []*Poly { // (1-y)x^2 + y(1-(1-y)^2), over F^2
		z := k(F).Sub(y)
		n := z.Mul(x).Mul(x).Add(y.Mul(k(F * F).Sub(z.Mul(z))))
		return near(v, n, k(F*F), 4)
	}
	lin := func(v, s *Poly) []*Poly { return []*Poly{v.Sub(s).Add(k(2)), k(2).Sub(v.Sub(s))} }
	clamped := func(s func(x, y *Poly) *Poly) []fcase {
		st := func(u *U, x, y *T) *T { return u.fromPoly(s(u.polyOf(x), u.polyOf(y))) }
		return []fcase{
			{func(u *U, x, y *T) *T { return u.GE0(u.scale(st(u, x, y), -1)) }, func(v, x, y *Poly) []*Poly { return nil0(v) }},
			{func(u *U, x, y *T) *T { return u.GE0(u.addP(st(u, x, y), u.Int(-F))) }, func(v, x, y *Poly) []*Poly { return sat(v) }},
			{func(u *U, x, y *T) *T {
				s := st(u, x, y)
				return u.And(u.GE0(s), u.GE0(u.subP(u.Int(F), s)))
			}, func(v, x, y *Poly) []*Poly { return lin(v, s(x, y)) }},
		}
	}
	// quotient of n and d (both >= 0), saturating; 0/0 is zero, anything else over 0 is one
	quot := func(n, d func(x, y *Poly) *Poly, inv bool) []fcase {
		nt := func(u *U, x, y *T) *T { return u.fromPoly(n(u.polyOf(x), u.polyOf(y))) }
		dt := func(u *U, x, y *T) *T { return u.fromPoly(d(u.polyOf(x), u.polyOf(y))) }
		val := func(v *Poly) *Poly {
			if inv {
				return k(F).Sub(v)
			}
			return v
		}
		return []fcase{
			{func(u *U, x, y *T) *T { return u.And(u.EQ0(dt(u, x, y)), u.EQ0(nt(u, x, y))) }, func(v, x, y *Poly) []*Poly { return []*Poly{val(v).Neg()} }},
			{func(u *U, x, y *T) *T { return u.And(u.EQ0(dt(u, x, y)), u.Not(u.EQ0(nt(u, x, y)))) }, func(v, x, y *Poly) []*Poly { return []*Poly{val(v).Sub(k(F))} }},
			{func(u *U, x, y *T) *T { return u.And(u.Not(u.EQ0(dt(u, x, y))), u.Le(dt(u, x, y), nt(u, x, y))) }, func(v, x, y *Poly) []*Poly { return sat(val(v)) }},
			{func(u *U, x, y *T) *T { return u.And(u.Not(u.EQ0(dt(u, x, y))), u.Lt(nt(u, x, y), dt(u, x, y))) }, func(v, x, y *Poly) []*Poly { return near(val(v), n(x, y).Scale(big.NewRat(F, 1)), d(x, y), 2) }},
		}
	}
	X := func(x, y *Poly) *Poly { return x }
	Y := func(x, y *Poly) *Poly { return y }
	NX := func(x, y *Poly) *Poly { return k(F).Sub(x) }
	NY := func(x, y *Poly) *Poly { return k(F).Sub(y) }
	le := func(a, b func(x, y *Poly) *Poly) func(u *U, x, y *T) *T {
		return func(u *U, x, y *T) *T {
			return u.GE0(u.fromPoly(b(u.polyOf(x), u.polyOf(y)).Sub(a(u.polyOf(x), u.polyOf(y)))))
		}
	}
	return map[string][]fcase{
		"Multiply":    poly1(func(x, y *Poly) *Poly { return x.Mul(y) }, 2),
		"Screen":      poly1(func(x, y *Poly) *Poly { return k(F * F).Sub(k(F).Sub(x).Mul(k(F).Sub(y))) }, 2),
		"Overlay":     {{always, overlay}},
		"SoftLight":   {{always, overlay}},
		"Difference":  {{le(X, Y), func(v, x, y *Poly) []*Poly { return lin(v, y.Sub(x)) }}, {le(Y, X), func(v, x, y *Poly) []*Poly { return lin(v, x.Sub(y)) }}},
		"Addition":    clamped(func(x, y *Poly) *Poly { return x.Add(y) }),
		"Subtract":    clamped(func(x, y *Poly) *Poly { return x.Sub(y) }),
		"DarkenOnly":  {{le(X, Y), func(v, x, y *Poly) []*Poly { return []*Poly{v.Sub(x), x.Sub(v)} }}, {le(Y, X), func(v, x, y *Poly) []*Poly { return []*Poly{v.Sub(y), y.Sub(v)} }}},
		"LightenOnly": {{le(Y, X), func(v, x, y *Poly) []*Poly { return []*Poly{v.Sub(x), x.Sub(v)} }}, {le(X, Y), func(v, x, y *Poly) []*Poly { return []*Poly{v.Sub(y), y.Sub(v)} }}},
		"Divide":      quot(X, Y, false),
		"Dodge":       quot(X, NY, false),
		"Burn":        quot(NX, Y, true),
		"HardLight": {
			{le(Y, func(x, y *Poly) *Poly { return k(F / 2) }), func(v, x, y *Poly) []*Poly { return near(v, x.Mul(y).Scale(big.NewRat(2, 1)), k(F), 4) }},
			{le(func(x, y *Poly) *Poly { return k(F/2 + 1) }, Y), func(v, x, y *Poly) []*Poly {
				return near(v, k(F*F).Sub(k(F).Sub(x).Mul(k(F).Sub(y)).Scale(big.NewRat(2, 1))), k(F), 4)
			}},
		},
		"GrainExtract": clamped(func(x, y *Poly) *Poly { return x.Sub(y).Add(k(F/2 + 1)) }),
		"GrainMerge":   clamped(func(x, y *Poly) *Poly { return x.Add(y).Sub(k(F/2 + 1)) }),
	}
}

func ruleC02(r *Run) {
	ms := r.modes()
	fs := formulas()
	r.each("formula", perChannel, func(name string) {
		m, ok := ms[name]
		if !ok {
			r.missing("composite mode " + name)
			return
		}
		e := r.exec()
		u := e.u
		var b, t px
		for i, c := range "RGB" {
			b.c[i] = u.SymR("b."+string(c), 0, F)
			t.c[i] = u.SymR("t."+string(c), 0, F)
		}
		b.c[3], t.c[3] = u.Int(F), u.Int(F)
		res, _ := r.compose(e, m, e.colour(r, b), e.colour(r, t))
		out := e.straight(r, res)
		r.noteFuncs(e)
		for i, cn := range []string{"red", "green", "blue"} {
			v := u.Uncut(out.c[i])
			for n, fc := range fs[name] {
				pc := fc.cond(u, b.c[i], t.c[i])
				bad, cond := e.forall(v, pc, func(v *Poly, c *T) []*Poly {
					return fc.req(v, u.polyOf(b.c[i]), u.polyOf(t.c[i]))
				})
				what := fmt.Sprintf("%s/%s, case %d", name, cn, n+1)
				if bad != nil {
					r.viol("formula", what, "composite.go", fmt.Sprintf("mode %s is not its published formula: %s where %s", name, clip(bad.String(), 250), clip(cond.String(), 200)))
				} else {
					r.ok("formula", what)
				}
			}
		}
	})
	// the modes by component: which conversion, which components of the top
	type comp struct {
		to, typ string
		top     [3]bool
	}
	comps := map[string]comp{
		"Hue":        {"RGBToHSV", "HSVA", [3]bool{true, false, false}},
		"Saturation": {"RGBToHSV", "HSVA", [3]bool{false, true, false}},
		"Value":      {"RGBToHSV", "HSVA", [3]bool{false, false, true}},
		"Color":      {"RGBToHSL", "HSLA", [3]bool{true, true, false}},
		"Luminosity": {"RGBToHSL", "HSLA", [3]bool{false, false, true}},
	}
	r.each("component", colourModes, func(name string) {
		m, ok := ms[name]
		if !ok {
			r.missing("composite mode " + name)
			return
		}
		c := comps[name]
		f := r.p.fn("lcolor", c.to)
		back := r.p.method(r.p.named("lcolor", c.typ), "ToNRGBA")
		if f == nil || back == nil {
			r.missing("lcolor." + c.to + " and lcolor." + c.typ + ".ToNRGBA")
			return
		}
		e := r.exec()
		e.summary = r.conversionSummary(e)
		u := e.u
		b, _ := e.pixel(r, "b")
		t, _ := e.pixel(r, "t")
		b.c[3], t.c[3] = u.Int(F), u.Int(F)
		res, _ := r.compose(e, m, e.colour(r, b), e.colour(r, t))
		out := e.straight(r, res)
		r.noteFuncs(e)
		hb, _ := e.summary(e.start(), f, []*T{e.colour(r, b)})
		ht, _ := e.summary(e.start(), f, []*T{e.colour(r, t)})
		ht0 := f.Signature.Results().At(0).Type()
		var fs []*T
		for i := 0; i < 3; i++ {
			if c.top[i] {
				fs = append(fs, e.field(ht, i, ht0))
			} else {
				fs = append(fs, e.field(hb, i, ht0))
			}
		}
		fs = append(fs, u.Int(F))
		want, _ := e.summary(e.start(), back, []*T{u.mkT(OStruct, e.tkey(ht0), ht0, fs...)})
		gray := u.And(u.EQ0(u.subP(t.c[0], t.c[1])), u.EQ0(u.subP(t.c[0], t.c[2])))
		for i, cn := range []string{"red", "green", "blue"} {
			w := e.field(want, i, back.Signature.Results().At(0).Type())
			if name == "Hue" {
				w = u.Ite(gray, b.c[i], w)
			}
			r.check(e.within(u.Uncut(out.c[i]), w, u.tTrue, 0), "component", name+"/"+cn, "composite.go", "mode "+name+" does not take the components it is named for from the top: "+clip(u.Uncut(out.c[i]).String(), 400))
		}
	})
}

func ruleC03(r *Run) {
	ms := r.modes()
	mode := func(name string, f func(m int64, e *Exec)) {
		m, ok := ms[name]
		if !ok {
			r.missing("composite mode " + name)
			return
		}
		r.guard("alpha", name, func() {
			e := r.exec()
			e.summary = r.conversionSummary(e)
			f(m, e)
			r.noteFuncs(e)
		})
	}
	pixels := func(e *Exec, bA, tA *T) (b, t px) {
		b, _ = e.pixel(r, "b")
		t, _ = e.pixel(r, "t")
		if bA != nil {
			b.c[3] = bA
		}
		if tA != nil {
			t.c[3] = tA
		}
		return
	}
	get := func(e *Exec, m int64, b, t px) px {
		res, _ := r.compose(e, m, e.colour(r, b), e.colour(r, t))
		return e.straight(r, res)
	}
	chans := []string{"red", "green", "blue"}
	all := append(append([]string{"Normal", "Behind", "Dissolve"}, perChannel...), colourModes...)
	r.each("alpha", all, func(name string) {
		mode(name, func(m int64, e *Exec) {
			u := e.u
			// a transparent top leaves the bottom alone
			b, t := pixels(e, nil, u.zero)
			o := get(e, m, b, t)
			pos := u.GE0(u.addP(b.c[3], u.Int(-1)))
			r.check(e.within(o.c[3], b.c[3], u.tTrue, 0), "transparent top/alpha", name, "composite.go", "a transparent pixel on top changes the alpha in mode "+name+": "+clip(o.c[3].String(), 200))
			for i, cn := range chans {
				r.check(e.within(o.c[i], b.c[i], pos, 0), "transparent top/colour", name+"/"+cn, "composite.go", "a transparent pixel on top changes the "+cn+" of mode "+name+": "+clip(u.Uncut(o.c[i]).String(), 200))
			}
			if name == "Normal" || name == "Dissolve" || name == "Behind" {
				return
			}
			// a transparent bottom stays transparent
			b, t = pixels(e, u.zero, nil)
			o = get(e, m, b, t)
			r.check(e.within(o.c[3], u.zero, u.tTrue, 0), "transparent bottom", name, "composite.go", "mode "+name+" makes a transparent pixel visible: "+clip(o.c[3].String(), 200))
			// otherwise alpha is that of the bottom
			b, t = pixels(e, nil, nil)
			o = get(e, m, b, t)
			r.check(e.within(o.c[3], b.c[3], pos, 0), "alpha of the bottom", name, "composite.go", "the alpha of the result in mode "+name+" is "+clip(o.c[3].String(), 200))
			// the colour counts as much as the less opaque of the two
			le := u.And(u.Le(b.c[3], t.c[3]), pos)
			for i, cn := range chans {
				v := e.simplify(u.Uncut(o.c[i]), le)
				got := map[*T]bool{}
				freeSyms(v, got, map[*T]bool{})
				r.check(e.independent(v, t.c[3], le), "less opaque of the two", name+"/"+cn, "composite.go", "where the top is the more opaque, its alpha still matters in mode "+name+": "+clip(v.String(), 300))
			}
			// over an opaque bottom the top is mixed in linearly
			b, t = pixels(e, u.Int(F), nil)
			o = get(e, m, b, t)
			t2 := t
			t2.c[3] = u.Int(F)
			full := get(e, m, b, t2)
			for i, cn := range chans {
				v, f := u.Uncut(o.c[i]), u.Uncut(full.c[i])
				i := i
				ok := true
				var badv string
				lf := leaves(f)
				if len(lf) > 500 {
					panic(tooComplex("too many cases"))
				}
				for _, l := range lf {
					c := u.tTrue
					for _, x := range l.lits {
						c = u.And(c, e.lit(x))
					}
					fp := u.polyOf(l.t)
					bad, _ := e.forall(v, c, func(v *Poly, c *T) []*Poly {
						a := u.polyOf(t.c[3])
						n := k(F).Sub(a).Mul(u.polyOf(b.c[i])).Add(a.Mul(fp))
						return near(v, n, k(F), 3)
					})
					if bad != nil {
						ok = false
						badv = bad.String()
						break
					}
				}
				r.check(ok, "linear mix", name+"/"+cn, "composite.go", "over an opaque pixel, mode "+name+" does not mix in proportion to the alpha of the top: "+clip(badv, 300))
			}
		})
	})
	mode("Behind", func(m int64, e *Exec) {
		u := e.u
		b, t := pixels(e, nil, nil)
		o := get(e, m, b, t)
		for i, cn := range append(chans, "alpha") {
			r.check(e.sameTerm(o.c[i], b.c[i], u.tTrue), "behind", cn, "composite.go", "mode Behind changes the "+cn+" of the bottom")
		}
	})
	mode("Normal", func(m int64, e *Exec) {
		u := e.u
		b, t := pixels(e, nil, nil)
		o := get(e, m, b, t)
		// alpha of the union
		A := u.Uncut(o.c[3])
		bad, _ := e.forall(A, u.tTrue, func(v *Poly, c *T) []*Poly {
			n := k(F * F).Sub(k(F).Sub(u.polyOf(b.c[3])).Mul(k(F).Sub(u.polyOf(t.c[3]))))
			return near(v, n, k(F), 1)
		})
		r.check(bad == nil, "union of the alphas", "Normal", "composite.go", "the alpha of the result in mode Normal is "+clip(A.String(), 200))
		// an opaque top hides the bottom
		b, t = pixels(e, nil, u.Int(F))
		o = get(e, m, b, t)
		for i, cn := range append(chans, "alpha") {
			r.check(e.within(o.c[i], t.c[i], u.tTrue, 0), "opaque top", "Normal/"+cn, "composite.go", "an opaque pixel on top does not hide the "+cn+" below: "+clip(u.Uncut(o.c[i]).String(), 200))
		}
		// a transparent bottom contributes nothing
		b, t = pixels(e, u.zero, nil)
		o = get(e, m, b, t)
		vis := u.GE0(u.addP(t.c[3], u.Int(-1)))
		for i, cn := range append(chans, "alpha") {
			r.check(e.within(o.c[i], t.c[i], vis, 0), "transparent bottom/normal", "Normal/"+cn, "composite.go", "a transparent bottom shows through in mode Normal: "+clip(u.Uncut(o.c[i]).String(), 200))
		}
		// linear over an opaque bottom
		b, t = pixels(e, u.Int(F), nil)
		o = get(e, m, b, t)
		for i, cn := range chans {
			i := i
			bad, _ := e.forall(u.Uncut(o.c[i]), u.tTrue, func(v *Poly, c *T) []*Poly {
				a := u.polyOf(t.c[3])
				return near(v, k(F).Sub(a).Mul(u.polyOf(b.c[i])).Add(a.Mul(u.polyOf(t.c[i]))), k(F), 3)
			})
			r.check(bad == nil, "linear mix", "Normal/"+cn, "composite.go", "over an opaque pixel mode Normal does not mix in proportion to the alpha of the top")
		}
	})
	// both translucent: each counts by its share of the alpha of the result
	r.each("alpha", append([]string{"Normal"}, append(append([]string{}, perChannel...), colourModes...)...), func(name string) {
		mode(name, func(m int64, e *Exec) {
			u := e.u
			b, t := pixels(e, nil, nil)
			o := get(e, m, b, t)
			b2, t2 := b, t
			b2.c[3], t2.c[3] = u.Int(F), u.Int(F)
			full := get(e, m, b2, t2)
			mixed := func(ma, f, x *T, i int) *T {
				nb, nt := b, t
				nb.c[0], nt.c[0], nt.c[3] = x, f, ma
				return u.Uncut(get(e, ms["Normal"], nb, nt).c[0])
			}
			for _, less := range []string{"top", "bottom"} {
				ma, pc := t.c[3], u.And(u.Lt(t.c[3], b.c[3]), u.GE0(u.addP(t.c[3], u.Int(-1))))
				if less == "bottom" {
					pc = u.And(u.Lt(b.c[3], t.c[3]), u.GE0(u.addP(b.c[3], u.Int(-1))))
					if name != "Normal" {
						ma = b.c[3]
					}
				}
				neg := func(x *T) *T { return u.subP(u.Int(F), x) }
				ut := u.subP(u.Int(F), u.div(u.mulP(neg(b.c[3]), neg(ma)), u.Int(F)))
				us := u.SymR("union", 1, F)
				named := func(t *T) *T {
					return u.Map(t, func(y *T) *T {
						if y == ut {
							return us
						}
						return nil
					})
				}
				union := u.polyOf(us)
				mp := u.polyOf(ma)
				pc = u.And(pc, u.And(u.Le(ma, us), u.Le(b.c[3], us)))
				for i, cn := range chans {
					i := i
					v := e.simplify(u.Uncut(o.c[i]), pc)
					var bad *T
					if name == "Normal" {
						v = named(v)
						// by way of a factor of the whole
						x, y := u.polyOf(b.c[i]), u.polyOf(t.c[i])
						ok := false
						for f := range subterms(v) {
							if f.op != ODiv {
								continue
							}
							kp := u.polyOf(f)
							if bad, _ = e.forall(f, pc, func(v *Poly, c *T) []*Poly { return near(v, mp.Scale(big.NewRat(F, 1)), union, 1) }); bad != nil {
								continue
							}
							bad, _ = e.forall(v, pc, func(v *Poly, c *T) []*Poly { return near(v, k(F).Sub(kp).Mul(x).Add(kp.Mul(y)), k(F), 3) })
							if ok = bad == nil; ok {
								break
							}
						}
						if ok {
							r.ok("share of the alpha", name+"/"+cn+", "+less+" less opaque")
							continue
						}
						bad, _ = e.forall(v, pc, func(v *Poly, c *T) []*Poly {
							return near(v, union.Sub(mp).Mul(u.polyOf(b.c[i])).Add(mp.Mul(u.polyOf(t.c[i]))), union, 4)
						})
					} else if d := u.subP(v, mixed(ma, full.c[i], b.c[i], i)); e.simplify(d, pc) != u.zero {
						// as Normal mixes the blended colour
						bad, _ = e.forall(d, pc, func(v *Poly, c *T) []*Poly { return []*Poly{v.Add(k(4)), k(4).Sub(v)} })
					}
					txt := ""
					if bad != nil {
						txt = clip(bad.String(), 300)
					}
					r.check(bad == nil, "share of the alpha", name+"/"+cn+", "+less+" less opaque", "composite.go", "two translucent pixels are not mixed by their share of the alpha in mode "+name+": "+txt)
				}
			}
		})
	})
	mode("Dissolve", func(m int64, e *Exec) {
		u := e.u
		// an opaque top always wins; the result is always one of the two, the top made opaque
		b, t := pixels(e, nil, u.Int(F))
		o := get(e, m, b, t)
		for i, cn := range append(chans, "alpha") {
			r.check(e.within(o.c[i], t.c[i], u.tTrue, 0), "opaque top", "Dissolve/"+cn, "composite.go", "an opaque pixel on top may be dissolved away: "+clip(o.c[i].String(), 200))
		}
		b, t = pixels(e, nil, nil)
		o = get(e, m, b, t)
		t.c[3] = u.Int(F)
		pair := u.mk(OTuple, "", o.c[:]...)
		_ = pair
		for _, l := range jointLeaves(u, o.c[:]) {
			isB, isT := true, true
			for i := range l.vals {
				isB = isB && l.vals[i] == b.c[i]
				isT = isT && l.vals[i] == t.c[i]
			}
			r.check(isB || isT, "one of the two", "Dissolve", "composite.go", "mode Dissolve gives a pixel that is neither of its inputs: "+clip(fmt.Sprint(l.vals), 200))
			// what it depends on: the alpha of the top and chance
			for _, x := range l.lits {
				for _, s := range symNames(x.atom) {
					r.check(!strings.HasPrefix(s, "b.") && (!strings.HasPrefix(s, "t.") || s == "t.A"), "dissolve by the alpha of the top", "Dissolve", "composite.go", "which pixel mode Dissolve takes depends on "+s)
				}
			}
		}
	})
}

type jointLeaf struct {
	lits []Lit
	vals []*T
}

func jointLeaves(u *U, ts []*T) []jointLeaf {
	v := top(ts...)
	if v == nil {
		return []jointLeaf{{nil, ts}}
	}
	var out []jointLeaf
	for _, val := range []bool{true, false} {
		as := make([]*T, len(ts))
		for n, t := range ts {
			as[n] = cof(t, v, val)
		}
		for _, l := range jointLeaves(u, as) {
			out = append(out, jointLeaf{append([]Lit{{v, val}}, l.lits...), l.vals})
		}
	}
	return out
}

// simplify drops the cases that contradict the condition.
func (e *Exec) simplify(t, pc *T) *T {
	u := e.u
	t = u.Restrict(t, pc)
	var rec func(t, pc *T) *T
	rec = func(t, pc *T) *T {
		if t.op != OIte {
			return t
		}
		a := u.atom(t.args[0])
		h, l := u.And(pc, a), u.And(pc, u.Not(a))
		if h == u.tFalse || e.infeasible(h) {
			return rec(t.args[2], l)
		}
		if l == u.tFalse || e.infeasible(l) {
			return rec(t.args[1], h)
		}
		return u.mkIteAtom(t.args[0], rec(t.args[1], h), rec(t.args[2], l))
	}
	return rec(t, pc)
}

// subterms lists the parts of a term.
func subterms(t *T) map[*T]bool {
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if !seen[t] {
			seen[t] = true
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	rec(t)
	return seen
}

// independent: no feasible case of t mentions the symbol.
func (e *Exec) independent(t, sym, pc *T) bool {
	for _, l := range leaves(t) {
		got := map[*T]bool{}
		freeSyms(l.t, got, map[*T]bool{})
		for _, x := range l.lits {
			freeSyms(x.atom, got, map[*T]bool{})
		}
		if !got[sym] {
			continue
		}
		c := pc
		for _, x := range l.lits {
			c = e.u.And(c, e.lit(x))
		}
		if c == e.u.tFalse || e.infeasible(c) {
			continue
		}
		return false
	}
	return true
}

func ruleC04(r *Run) {
	ms := r.modes()
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sort.Strings(names)
	r.each("arithmetic", names, func(name string) {
		e := r.exec()
		e.summary = r.conversionSummary(e)
		_, bt := e.pixel(r, "b")
		_, tt := e.pixel(r, "t")
		res, _ := r.compose(e, ms[name], bt, tt)
		o := e.straight(r, res)
		r.noteFuncs(e)
		u0 := e.u.tTrue
		for i, cn := range []string{"red", "green", "blue", "alpha"} {
			w := e.wrapped(o.c[i], u0)
			r.check(w == nil, "no wrap", name+"/"+cn, "composite.go", "an integer wraps around or is cut off in mode "+name+": "+clip(fmt.Sprint(w), 300))
		}
		bad := false
		for _, ob := range e.live() {
			bad = true
			r.viol(ob.kind, name+" in "+fnName(ob.in), r.pos(ob.pos), "mode "+name+" can fail here ("+ob.kind+"): "+clip(fmt.Sprint(ob.t), 200))
		}
		if !bad {
			r.ok("no failure", name)
		}
	})
}

// conversionSummary stands in for the conversions between RGB and HSV or HSL:
// three channels that depend on the three channels given, and the same alpha.
// That they are like that is C05.
func (r *Run) conversionSummary(e *Exec) func(*State, *ssa.Function, []*T) (*T, bool) {
	return func(st *State, f *ssa.Function, args []*T) (*T, bool) {
		if pkgPathOf(f) != modPath+"/lcolor" || len(args) != 1 {
			return nil, false
		}
		res := f.Signature.Results()
		if res.Len() != 1 {
			return nil, false
		}
		var in [4]*T
		switch f.Name() {
		case "RGBToHSV", "RGBToHSL":
			p := e.straight(r, args[0])
			in = p.c
		case "ToNRGBA":
			rt := f.Signature.Recv().Type()
			n, ok := types.Unalias(rt).(*types.Named)
			if !ok || n.Obj().Name() != "HSVA" && n.Obj().Name() != "HSLA" {
				return nil, false
			}
			for i := range in {
				in[i] = e.field(args[0], i, rt)
			}
		default:
			return nil, false
		}
		r.analysed(f)
		t := res.At(0).Type()
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 4 {
			return nil, false
		}
		var out [4]*T
		for i := 0; i < 3; i++ {
			out[i] = e.pureCall(fnName(f)+"."+s.Field(i).Name(), in[:3], s.Field(i).Type())
		}
		out[3] = in[3]
		return e.u.mkT(OStruct, e.tkey(t), t, out[:]...), true
	}
}
