package main

import (
	"math"
	"math/big"
	"sort"
)

// lp looks for p as a non-negative combination of what is known: the facts of
// the path, the ranges of the terms, what a quotient says about its numerator,
// and products of these. The combination is found in floating point and then
// verified exactly.
func (q *query) lp(p *Poly) bool {
	rngs := map[*T][2]*big.Int{}
	rng := func(v *T) (lo, hi *big.Int) {
		if r, ok := rngs[v]; ok {
			return r[0], r[1]
		}
		lo, hi = q.rng(v)
		rngs[v] = [2]*big.Int{lo, hi}
		return
	}
	// the terms that matter
	vars := map[*T]bool{}
	var order []*T
	var addVar func(v *T)
	addVar = func(v *T) {
		if vars[v] || len(order) > 14 {
			return
		}
		vars[v] = true
		order = append(order, v)
		if v.op == ODiv {
			for _, a := range v.args {
				for _, w := range polyVars(q.u.polyOf(a)) {
					addVar(w)
				}
			}
		}
	}
	for _, v := range polyVars(p) {
		addVar(v)
	}
	for round := 0; round < 2; round++ {
		for _, f := range q.facts {
			for _, v := range polyVars(f) {
				if vars[v] {
					for _, w := range polyVars(f) {
						addVar(w)
					}
					break
				}
			}
		}
	}
	deg := func(p *Poly) int {
		d := 0
		for _, m := range p.m {
			if len(m.vars) > d {
				d = len(m.vars)
			}
		}
		return d
	}
	maxdeg := deg(p)
	var lin []*Poly // level one
	seen := map[string]bool{}
	add := func(l *[]*Poly, g *Poly) {
		if _, c := g.constVal(); c {
			return
		}
		k := polyKey(g)
		if !seen[k] {
			seen[k] = true
			*l = append(*l, g)
		}
	}
	for _, f := range q.facts {
		ok := true
		for _, v := range polyVars(f) {
			ok = ok && vars[v]
		}
		if ok {
			add(&lin, f)
		}
	}
	for _, v := range order {
		vp := q.u.polyOf(v)
		lo, hi := rng(v)
		if lo == nil || hi == nil {
			return false
		}
		add(&lin, vp.Sub(constPoly(new(big.Rat).SetInt(lo))))
		add(&lin, constPoly(new(big.Rat).SetInt(hi)).Sub(vp))
		if v.op != ODiv {
			continue
		}
		n := q.u.polyOf(v.args[0])
		if d := v.args[1]; d.op == OInt && d.i.Sign() > 0 {
			dv := vp.Scale(new(big.Rat).SetInt(d.i))
			add(&lin, n.Sub(dv))
			add(&lin, dv.Add(constPoly(new(big.Rat).SetInt(d.i))).Add(intPoly(-1)).Sub(n))
		} else if q.sign(q.u.polyOf(d).Add(intPoly(-1)), 3) == 1 {
			for _, f := range q.quotFacts(v) {
				add(&lin, f)
				if deg(f) > maxdeg {
					maxdeg = deg(f)
				}
			}
		}
	}
	gens := append([]*Poly{}, lin...)
	target := map[string]bool{}
	note := func(p *Poly) {
		for k := range p.m {
			target[k] = true
		}
	}
	note(p)
	for _, g := range lin {
		if deg(g) > 1 {
			note(g)
		}
	}
	level := lin
	for d := 2; d <= maxdeg && d <= 3; d++ {
		var next []*Poly
		for _, a := range lin {
			if deg(a) != 1 {
				continue
			}
			for _, b := range level {
				if deg(b) != d-1 || len(gens)+len(next) > 700 {
					continue
				}
				g := a.Mul(b)
				ok := true
				for k, m := range g.m {
					if len(m.vars) == d && !target[k] {
						ok = false
						break
					}
				}
				if ok {
					add(&next, g)
				}
			}
		}
		gens = append(gens, next...)
		level = next
	}
	// the rows: the monomials
	row := map[string]int{}
	var monos []*mono
	scale := func(m *mono) float64 { // size of the monomial
		s := 1.0
		for _, v := range m.vars {
			lo, hi := rng(v)
			f := math.Max(math.Abs(toF(lo)), math.Abs(toF(hi)))
			if f > 1 {
				s *= f
			}
		}
		return s
	}
	var sizes []float64
	idx := func(k string, m *mono) int {
		if n, ok := row[k]; ok {
			return n
		}
		row[k] = len(monos)
		monos = append(monos, m)
		sizes = append(sizes, scale(m))
		return row[k]
	}
	all := append([]*Poly{p}, gens...)
	for _, g := range all {
		ks := make([]string, 0, len(g.m))
		for k := range g.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k != "" {
				idx(k, g.m[k])
			}
		}
	}
	R := len(monos)
	if R > 160 {
		return false
	}
	// columns, in units of the size of each monomial, each scaled to 1
	type col struct {
		a    []float64
		c    float64 // constant
		f    float64 // factor
		poly *Poly
	}
	var cols []col
	mk := func(g *Poly) {
		a := make([]float64, R)
		c, mx := 0.0, 0.0
		for k, m := range g.m {
			x, _ := m.c.Float64()
			if k == "" {
				c = x
				continue
			}
			n := row[k]
			a[n] = x * sizes[n]
			mx = math.Max(mx, math.Abs(a[n]))
		}
		if mx == 0 {
			return
		}
		for n := range a {
			a[n] /= mx
		}
		cols = append(cols, col{a, c / mx, 1 / mx, g})
	}
	basis := make([]int, R)
	b := make([]float64, R)
	flip := make([]float64, R)
	pc := 0.0
	for k, m := range p.m {
		x, _ := m.c.Float64()
		if k == "" {
			pc = x
			continue
		}
		b[row[k]] = x * sizes[row[k]]
	}
	unit := 0.0
	for n := range b {
		unit = math.Max(unit, math.Abs(b[n]))
	}
	if unit == 0 {
		return false
	}
	for n := range b {
		b[n] /= unit
	}
	// the first basis: every monomial at the end of its range
	for n, m := range monos {
		lo, hi := monoRange(m.vars, rng)
		if lo == nil || hi == nil {
			return false
		}
		mp := newPoly()
		mp.add(m.vars, big.NewRat(1, 1))
		g1, g2 := mp.Sub(constPoly(new(big.Rat).SetInt(lo))), constPoly(new(big.Rat).SetInt(hi)).Sub(mp)
		flip[n] = 1
		if b[n] < 0 {
			g1, g2 = g2, g1
			flip[n] = -1
		}
		basis[n] = len(cols)
		mk(g1)
		mk(g2)
	}
	for _, g := range gens {
		mk(g)
	}
	N := len(cols)
	// tableau: rows made positive
	t := make([][]float64, R)
	for n := range t {
		t[n] = make([]float64, N+1)
		for j := range cols {
			t[n][j] = cols[j].a[n] * flip[n]
		}
		t[n][N] = b[n] * flip[n]
	}
	// maximise p0 - Σ λ c: reduced costs
	z := make([]float64, N+1)
	for j := range cols {
		z[j] = -cols[j].c
	}
	for n := range t {
		f := z[basis[n]]
		if f != 0 {
			for j := range z {
				z[j] -= f * t[n][j]
			}
		}
	}
	const eps = 1e-9
	for it := 0; it < 600; it++ {
		if pc/unit-z[N] > -0.5/unit && it > 0 && it%8 == 0 {
			break
		}
		e := -1
		for j := 0; j < N; j++ {
			if z[j] > eps && (e < 0 || it < 400 && z[j] > z[e]) {
				e = j
				if it >= 400 {
					break
				}
			}
		}
		if e < 0 {
			break
		}
		l := -1
		best := math.Inf(1)
		for n := range t {
			if t[n][e] > eps {
				r := t[n][N] / t[n][e]
				if r < best-1e-12 || r < best+1e-12 && l >= 0 && basis[n] < basis[l] {
					best, l = r, n
				}
			}
		}
		if l < 0 {
			return false // cannot be: the facts contradict each other
		}
		d := t[l][e]
		for j := range t[l] {
			t[l][j] /= d
		}
		for n := range t {
			if n != l && t[n][e] != 0 {
				f := t[n][e]
				for j := range t[n] {
					t[n][j] -= f * t[l][j]
				}
			}
		}
		f := z[e]
		for j := range z {
			z[j] -= f * t[l][j]
		}
		basis[l] = e
	}
	// exactly
	rest := p
	for n := range t {
		x := t[n][N]
		if x <= 0 {
			continue
		}
		lam := new(big.Rat).SetFloat64(x * unit * cols[basis[n]].f)
		if lam == nil {
			return false
		}
		lam = round(lam)
		if lam.Sign() > 0 {
			rest = rest.Sub(cols[basis[n]].poly.Scale(lam))
		}
	}
	lo := new(big.Rat)
	for _, m := range rest.m {
		ml, mh := monoRange(m.vars, rng)
		e := ml
		if m.c.Sign() < 0 {
			e = mh
		}
		if e == nil {
			return false
		}
		lo.Add(lo, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(e)))
	}
	return lo.Cmp(negOne) > 0
}

func toF(n *big.Int) float64 {
	f, _ := new(big.Float).SetInt(n).Float64()
	return f
}

// round finds a simple rational next to a float.
func round(x *big.Rat) *big.Rat {
	f, _ := x.Float64()
	// continued fraction, denominators up to 2^20·65535
	p0, q0, p1, q1 := big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)
	y := new(big.Rat).Set(x)
	for i := 0; i < 40; i++ {
		a := floorRat(y)
		p0, p1 = p1, new(big.Int).Add(new(big.Int).Mul(a, p1), p0)
		q0, q1 = q1, new(big.Int).Add(new(big.Int).Mul(a, q1), q0)
		r := new(big.Rat).SetFrac(p1, q1)
		g, _ := r.Float64()
		if math.Abs(g-f) <= 1e-12*math.Abs(f) {
			return r
		}
		y.Sub(y, new(big.Rat).SetInt(a))
		if y.Sign() == 0 || q1.BitLen() > 60 {
			break
		}
		y.Inv(y)
	}
	return x
}
