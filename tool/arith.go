package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"
)

var bigOne = big.NewInt(1)
var bigF = big.NewInt(0xffff)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// intKind names the integer type of a type: u8..u64, i8..i64; "" if it is not an integer.
func intKind(t types.Type) string {
	if t == nil {
		return ""
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Uint8:
		return "u8"
	case types.Uint16:
		return "u16"
	case types.Uint32:
		return "u32"
	case types.Uint64, types.Uint, types.Uintptr:
		return "u64"
	case types.Int8:
		return "i8"
	case types.Int16:
		return "i16"
	case types.Int32, types.UntypedRune:
		return "i32"
	case types.Int64, types.Int, types.UntypedInt:
		return "i64"
	}
	return ""
}

func kindRange(k string) (lo, hi *big.Int) {
	switch k {
	case "u8":
		return new(big.Int), new(big.Int).Sub(pow2(8), bigOne)
	case "u16":
		return new(big.Int), new(big.Int).Sub(pow2(16), bigOne)
	case "u32":
		return new(big.Int), new(big.Int).Sub(pow2(32), bigOne)
	case "u64":
		return new(big.Int), new(big.Int).Sub(pow2(64), bigOne)
	case "i8":
		return big.NewInt(-128), big.NewInt(127)
	case "i16":
		return big.NewInt(-32768), big.NewInt(32767)
	case "i32":
		return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
	}
	return nil, nil // i64: taken as unbounded
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// rng is the range of an integer term that holds for all inputs.
func (u *U) rng(t *T) (lo, hi *big.Int) {
	if t.rngd {
		return t.lo, t.hi
	}
	switch t.op {
	case OInt:
		lo, hi = t.i, t.i
	case OPoly:
		lo, hi = u.polyRange(t.poly)
	case ODiv:
		nl, nh := u.rng(t.args[0])
		ql, qh := u.rng(t.args[1])
		if ql != nil && ql.Sign() > 0 {
			if nl != nil {
				if nl.Sign() >= 0 {
					if qh != nil {
						lo = floorDiv(nl, qh)
					} else {
						lo = new(big.Int)
					}
				} else {
					lo = floorDiv(nl, ql)
				}
			}
			if nh != nil {
				if nh.Sign() >= 0 {
					hi = floorDiv(nh, ql)
				} else {
					hi = big.NewInt(-1)
				}
			}
		} else if nl != nil && nl.Sign() >= 0 && ql != nil && ql.Sign() >= 0 {
			// the divisor is zero only where there is a division by zero
			lo = new(big.Int)
			hi = nh
		}
	case OTDiv:
		nl, nh := u.rng(t.args[0])
		if nl != nil && nh != nil {
			m := new(big.Int).Abs(nl)
			if a := new(big.Int).Abs(nh); a.Cmp(m) > 0 {
				m = a
			}
			lo, hi = new(big.Int).Neg(m), m
		}
	case OTRem:
		if q := t.args[1]; q.op == OInt {
			hi = new(big.Int).Sub(new(big.Int).Abs(q.i), bigOne)
			lo = new(big.Int).Neg(hi)
			if nl, _ := u.rng(t.args[0]); nl != nil && nl.Sign() >= 0 {
				lo = new(big.Int)
			}
		}
	case OWrap:
		lo, hi = kindRange(t.aux)
	case OLen:
		lo = new(big.Int)
	case OCut:
		lo, hi = u.rng(t.args[0])
		if kl, kh := kindRange(intKind(t.typ)); kl != nil {
			if lo == nil || lo.Cmp(kl) < 0 {
				lo = kl
			}
			if hi == nil || hi.Cmp(kh) > 0 {
				hi = kh
			}
		}
	case OIte:
		al, ah := u.rng(t.args[1])
		bl, bh := u.rng(t.args[2])
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(lo) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(hi) > 0 {
				hi = bh
			}
		}
	case OBit:
		lo, hi = kindRange(intKind(t.typ))
		if strings.HasPrefix(t.aux, "&") && len(t.args) == 2 {
			for _, a := range t.args {
				if al, ah := u.rng(a); al != nil && al.Sign() >= 0 {
					lo = new(big.Int)
					if ah != nil && (hi == nil || ah.Cmp(hi) < 0) {
						hi = ah
					}
				}
			}
		}
	default:
		if t.typ != nil {
			lo, hi = kindRange(intKind(t.typ))
		}
	}
	t.lo, t.hi, t.rngd = lo, hi, true
	return
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean; b > 0
	_ = m
	return q
}

func (u *U) polyRange(p *Poly) (lo, hi *big.Int) { return polyRangeBy(p, u.rng) }

func polyRangeBy(p *Poly, rng func(*T) (lo, hi *big.Int)) (lo, hi *big.Int) {
	l, h := new(big.Rat), new(big.Rat)
	lok, hok := true, true
	for _, m := range p.m {
		ml, mh := monoRange(m.vars, rng)
		if m.c.Sign() < 0 {
			ml, mh = mh, ml
		}
		if ml == nil {
			lok = false
		} else if lok {
			l.Add(l, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(ml)))
		}
		if mh == nil {
			hok = false
		} else if hok {
			h.Add(h, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(mh)))
		}
	}
	if lok {
		lo = floorRat(l)
	}
	if hok {
		hi = new(big.Int).Neg(floorRat(new(big.Rat).Neg(h)))
	}
	return
}

func floorRat(r *big.Rat) *big.Int { return floorDiv(r.Num(), r.Denom()) }

func monoRange(vars []*T, rng func(*T) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = bigOne, bigOne
	for n := 0; n < len(vars); n++ {
		v := vars[n]
		vl, vh := rng(v)
		if n+1 < len(vars) && vars[n+1] == v { // a square
			n++
			if vl != nil && vh != nil {
				a, b := new(big.Int).Mul(vl, vl), new(big.Int).Mul(vh, vh)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				if vl.Sign() <= 0 && vh.Sign() >= 0 {
					a = new(big.Int)
				}
				vl, vh = a, b
			} else if vl != nil && vl.Sign() >= 0 {
				vl, vh = new(big.Int).Mul(vl, vl), nil
			} else {
				vl, vh = new(big.Int), nil
			}
		}
		if lo != nil && hi != nil && vl != nil && vh != nil {
			c := []*big.Int{new(big.Int).Mul(lo, vl), new(big.Int).Mul(lo, vh), new(big.Int).Mul(hi, vl), new(big.Int).Mul(hi, vh)}
			sort.Slice(c, func(i, j int) bool { return c[i].Cmp(c[j]) < 0 })
			lo, hi = c[0], c[3]
			continue
		}
		if lo != nil && lo.Sign() >= 0 && vl != nil && vl.Sign() >= 0 {
			lo = new(big.Int).Mul(lo, vl)
			if hi != nil && vh != nil {
				hi = new(big.Int).Mul(hi, vh)
			} else {
				hi = nil
			}
			continue
		}
		return nil, nil
	}
	return
}

// ---- integer operations on terms

func (u *U) addP(a, b *T) *T {
	return u.lift2(func(a, b *T) *T { return u.fromPoly(u.polyOf(a).Add(u.polyOf(b))) }, a, b)
}

func (u *U) subP(a, b *T) *T {
	return u.lift2(func(a, b *T) *T { return u.fromPoly(u.polyOf(a).Sub(u.polyOf(b))) }, a, b)
}

func (u *U) mulP(a, b *T) *T {
	return u.lift2(func(a, b *T) *T { return u.fromPoly(u.polyOf(a).Mul(u.polyOf(b))) }, a, b)
}

func (u *U) scale(a *T, n int64) *T { return u.mulP(a, u.Int(n)) }

// div is floor division.
func (u *U) div(a, b *T) *T { return u.lift2(u.div1, a, b) }

func (u *U) div1(a, b *T) *T {
	if b.op == OInt && b.i.Sign() > 0 {
		if a.op == OInt {
			return u.BigInt(floorDiv(a.i, b.i))
		}
		// floor((c*A + B)/c) = A + floor(B/c)
		q, r := newPoly(), newPoly()
		half := new(big.Int).Rsh(b.i, 1)
		p := u.polyOf(a)
		for _, m := range p.m {
			n := m.c.Num()
			d, e := new(big.Int).DivMod(n, b.i, new(big.Int))
			if len(m.vars) > 0 && e.Cmp(half) > 0 { // nearest, so that -x stays -x
				d.Add(d, bigOne)
				e.Sub(e, b.i)
			}
			q.add(m.vars, new(big.Rat).SetInt(d))
			r.add(m.vars, new(big.Rat).SetInt(e))
		}
		rt := u.fromPoly(r)
		lo, hi := u.rng(rt)
		if lo != nil && hi != nil {
			l, h := floorDiv(lo, b.i), floorDiv(hi, b.i)
			if l.Cmp(h) == 0 {
				q.add(nil, new(big.Rat).SetInt(l))
				return u.fromPoly(q)
			}
		}
		// a common divisor of the remainder and the divisor: floor(gB/gc) = floor(B/c)
		g := new(big.Int).Set(b.i)
		for k, m := range r.m {
			if k != "" {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
			}
		}
		bb := b
		if g.Cmp(bigOne) > 0 && len(r.m) > 0 {
			r2 := newPoly()
			for k, m := range r.m {
				if k == "" {
					r2.add(nil, new(big.Rat).SetInt(floorDiv(m.c.Num(), g)))
				} else {
					r2.add(m.vars, new(big.Rat).Quo(m.c, new(big.Rat).SetInt(g)))
				}
			}
			r = r2
			bb = u.BigInt(new(big.Int).Div(b.i, g))
			if bb.i.Cmp(bigOne) == 0 {
				return u.fromPoly(q.Add(r))
			}
			rt = u.fromPoly(r)
		}
		if rt.op == ODiv && rt.args[1].op == OInt && rt.args[1].i.Sign() > 0 { // floor(floor(x/a)/b)
			return u.addP(u.fromPoly(q), u.div1(rt.args[0], u.BigInt(new(big.Int).Mul(rt.args[1].i, bb.i))))
		}
		return u.addP(u.fromPoly(q), u.mk(ODiv, "", rt, bb))
	}
	if a.op == OInt && a.i.Sign() == 0 {
		return u.zero
	}
	if a == b {
		return u.one
	}
	// a = c*b ?
	if q, ok := u.polyQuo(u.polyOf(a), u.polyOf(b)); ok {
		return u.fromPoly(q)
	}
	return u.mk(ODiv, "", a, b)
}

// polyQuo divides exactly, where that is easy: by a constant multiple, or by a single variable.
func (u *U) polyQuo(a, b *Poly) (*Poly, bool) {
	if len(b.m) == 1 {
		for _, m := range b.m {
			if len(m.vars) == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
				v := m.vars[0]
				q := newPoly()
				for _, am := range a.m {
					n := -1
					for j, w := range am.vars {
						if w == v {
							n = j
							break
						}
					}
					if n < 0 {
						return nil, false
					}
					q.add(append(append([]*T{}, am.vars[:n]...), am.vars[n+1:]...), am.c)
				}
				return q, true
			}
		}
	}
	if len(a.m) == len(b.m) && len(b.m) > 0 {
		for k, bm := range b.m {
			am, ok := a.m[k]
			if !ok {
				return nil, false
			}
			c := new(big.Rat).Quo(am.c, bm.c)
			if !c.IsInt() {
				return nil, false
			}
			if len(a.Sub(b.Scale(c)).m) == 0 {
				return constPoly(c), true
			}
			break
		}
	}
	return nil, false
}

// ---- comparisons

// GE0 is the condition t >= 0.
func (u *U) GE0(t *T) *T { return u.lift1(u.ge1, t) }

func (u *U) ge1(t *T) *T {
	lo, hi := u.rng(t)
	if lo != nil && lo.Sign() >= 0 {
		return u.tTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return u.tFalse
	}
	p := u.polyOf(t)
	// normalise: divide by the gcd of the coefficients; first coefficient positive
	g := new(big.Int)
	first := ""
	for _, k := range p.keys() {
		if k == "" {
			continue
		}
		if first == "" {
			first = k
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(p.m[k].c.Num()))
	}
	if g.Sign() == 0 {
		return u.Bool(p.m[""].c.Sign() >= 0)
	}
	neg := p.m[first].c.Sign() < 0
	if neg { // t >= 0  <=>  !(-t-1 >= 0)
		p = p.Neg().Add(intPoly(-1))
	}
	q := newPoly()
	for k, m := range p.m {
		if k == "" {
			q.add(nil, new(big.Rat).SetInt(floorDiv(m.c.Num(), g)))
		} else {
			q.add(m.vars, new(big.Rat).Quo(m.c, new(big.Rat).SetInt(g)))
		}
	}
	a := u.atom(u.mk(OGE, "", u.fromPoly(q)))
	if neg {
		return u.Not(a)
	}
	return a
}

// EQ0 is the condition t == 0.
func (u *U) EQ0(t *T) *T { return u.lift1(u.eq1, t) }

func (u *U) eq1(t *T) *T {
	lo, hi := u.rng(t)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return u.tFalse
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return u.tTrue
	}
	// at an end of its range an equality is an inequality
	if lo != nil && lo.Sign() == 0 {
		return u.GE0(u.fromPoly(u.polyOf(t).Neg()))
	}
	if hi != nil && hi.Sign() == 0 {
		return u.GE0(t)
	}
	p := u.polyOf(t)
	g := new(big.Int)
	first := ""
	for _, k := range p.keys() {
		if k == "" {
			continue
		}
		if first == "" {
			first = k
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(p.m[k].c.Num()))
	}
	if g.Sign() == 0 {
		return u.Bool(len(p.m) == 0)
	}
	if c, ok := p.m[""]; ok && new(big.Int).Rem(c.c.Num(), g).Sign() != 0 {
		return u.tFalse
	}
	s := new(big.Rat).SetFrac(bigOne, g)
	if p.m[first].c.Sign() < 0 {
		s.Neg(s)
	}
	return u.atom(u.mk(OEQ, "", u.fromPoly(p.Scale(s))))
}

func (u *U) Lt(a, b *T) *T { return u.GE0(u.addP(u.subP(b, a), u.Int(-1))) }
func (u *U) Le(a, b *T) *T { return u.GE0(u.subP(b, a)) }

// ---- the bounding argument

type prover struct {
	u      *U
	budget int
	cache  map[string]bool
}

type fact = *Poly // >= 0

type query struct {
	shallow bool // no searches for the range of a quotient
	u       *U
	facts   []fact
	budget  int
	failed  map[string]bool
	inq     map[string]bool
	sgn     map[string]int8
	ubs     map[*T][]*Poly
	lbs     map[*T][]*Poly
}

func polyKey(p *Poly) string {
	var sb strings.Builder
	for _, k := range p.keys() {
		sb.WriteString(p.m[k].c.RatString())
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
	}
	return sb.String()
}

func polyVars(p *Poly) []*T {
	seen := map[*T]bool{}
	var vs []*T
	for _, m := range p.m {
		for _, v := range m.vars {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id > vs[j].id })
	return vs
}

// deepVars adds the variables inside the atoms.
func (u *U) deepVars(p *Poly, set map[*T]bool) {
	for _, m := range p.m {
		for _, v := range m.vars {
			u.deepVarsT(v, set)
		}
	}
}

func (u *U) deepVarsT(v *T, set map[*T]bool) {
	if set[v] {
		return
	}
	set[v] = true
	if v.op == ODiv || v.op == OPoly || v.op == OWrap || v.op == OIte || v.op == OTRem || v.op == OTDiv || v.op == OCut || v.op == OGE || v.op == OEQ {
		for _, a := range v.args {
			u.deepVarsT(a, set)
		}
	}
}

// relevant quantifies out of pc the atoms that say nothing about the variables.
func (u *U) relevant(pc *T, vars map[*T]bool) *T {
	atoms := map[*T]bool{}
	collectAtoms(pc, atoms, map[*T]bool{})
	use := map[*T]bool{}
	for changed := true; changed; {
		changed = false
		for a := range atoms {
			if use[a] || (a.op != OGE && a.op != OEQ) {
				continue
			}
			av := map[*T]bool{}
			u.deepVarsT(a.args[0], av)
			hit := false
			for v := range av {
				if v.op != OInt && v.op != OPoly && vars[v] {
					hit = true
					break
				}
			}
			if hit {
				use[a] = true
				changed = true
				for v := range av {
					vars[v] = true
				}
			}
		}
	}
	memo := map[*T]*T{}
	var ex func(t *T) *T
	ex = func(t *T) *T {
		if t.op != OIte {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		h, l := ex(t.args[1]), ex(t.args[2])
		var r *T
		if use[t.args[0]] {
			r = u.mkIteAtom(t.args[0], h, l)
		} else {
			r = u.Or(h, l)
		}
		memo[t] = r
		return r
	}
	return ex(pc)
}

func collectAtoms(t *T, atoms, seen map[*T]bool) {
	if t.op != OIte || seen[t] {
		return
	}
	seen[t] = true
	atoms[t.args[0]] = true
	collectAtoms(t.args[1], atoms, seen)
	collectAtoms(t.args[2], atoms, seen)
}

// factsOf turns literals into inequalities.
func (u *U) factsOf(lits []Lit) []fact {
	var fs []fact
	for _, l := range lits {
		switch l.atom.op {
		case OGE:
			p := u.polyOf(l.atom.args[0])
			if l.val {
				fs = append(fs, p)
			} else {
				fs = append(fs, p.Neg().Add(intPoly(-1)))
			}
		case OEQ:
			p := u.polyOf(l.atom.args[0])
			if l.val {
				fs = append(fs, p, p.Neg())
			} else {
				lo, hi := u.polyRange(p)
				if lo != nil && lo.Sign() >= 0 {
					fs = append(fs, p.Add(intPoly(-1)))
				} else if hi != nil && hi.Sign() <= 0 {
					fs = append(fs, p.Neg().Add(intPoly(-1)))
				}
			}
		}
	}
	return fs
}

// simpleSum: a short sum of plain terms.
func simpleSum(p *Poly) bool {
	n := 0
	quot := false
	for _, m := range p.m {
		if len(m.vars) > 1 {
			return false
		}
		if len(m.vars) == 1 {
			n++
			quot = quot || m.vars[0].op == ODiv
		}
	}
	return n <= 2 && (n == 1 || !quot)
}

// tighten turns f >= 0, with f the difference of an excluded end, into f-1 >= 0.
func (u *U) tighten(fs []fact, lits []Lit) []fact {
	for _, l := range lits {
		if l.atom.op == OEQ && !l.val {
			p := u.polyOf(l.atom.args[0])
			for _, s := range []*Poly{p, p.Neg()} {
				ok := false
				for _, f := range fs {
					if len(f.Sub(s).m) == 0 {
						ok = true
						break
					}
				}
				if !ok && simpleSum(s) {
					q := u.newQuery(fs)
					q.budget, q.shallow = 40, true
					ok = q.ge0(s, 4)
				}
				if ok {
					fs = append(fs, s.Add(intPoly(-1)))
				}
			}
		}
	}
	return fs
}

// ProveGE0 reports whether p >= 0 wherever pc holds.
func (u *U) ProveGE0(p *Poly, pc *T) bool {
	if lo, _ := u.polyRange(p); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if pc == u.tFalse {
		return true
	}
	if u.prove.cache == nil {
		u.prove.cache = map[string]bool{}
	}
	vars := map[*T]bool{}
	u.deepVars(p, vars)
	rel := u.relevant(pc, vars)
	key := polyKey(p) + "|" + itoa(rel.id)
	if r, ok := u.prove.cache[key]; ok {
		return r
	}
	r := true
	cubes := u.cubes(rel)
	if len(cubes) > 3000 {
		r = false
	} else {
		for _, c := range cubes {
			q := u.newQuery(u.tighten(u.factsOf(c), c))
			if q.quick(p) {
				continue
			}
			switch u.newQuery(append(append([]fact{}, q.facts...), p.Neg().Add(intPoly(-1)))).points() {
			case 1:
				continue
			case -1:
				r = false
			}
			if !r {
				break
			}
			if !q.tryLP(p) && !q.ge0(p, 9) && !q.infeasible() {
				r = false
				break
			}
		}
	}
	if !r {
		r = u.proveUncut(p, rel)
	}
	u.prove.cache[key] = r
	return r
}

// proveUncut looks one level behind the names.
func (u *U) proveUncut(p *Poly, pc *T) bool {
	has := false
	for _, v := range polyVars(p) {
		if v.op == OCut {
			has = true
		}
	}
	if !has {
		return false
	}
	t := u.zero
	d := new(big.Int).Set(bigOne)
	for _, m := range p.m {
		if !m.c.IsInt() {
			return false
		}
	}
	_ = d
	t = u.fromPoly(p)
	open := func(x *T) *T {
		return u.Map(x, func(y *T) *T {
			if y.op == OCut {
				return y.args[0]
			}
			return nil
		})
	}
	t, pc = open(t), open(pc)
	if t.op != OIte {
		return u.ProveGE0(u.polyOf(t), pc)
	}
	ls := leaves(t)
	if len(ls) > 300 {
		return false
	}
	for _, l := range ls {
		c := pc
		for _, x := range l.lits {
			a := u.atom(x.atom)
			if !x.val {
				a = u.Not(a)
			}
			c = u.And(c, a)
		}
		if c != u.tFalse && !u.ProveGE0(u.polyOf(l.t), c) {
			return false
		}
	}
	return true
}

func (u *U) newQuery(fs []fact) *query {
	q := &query{u: u, budget: 6000, failed: map[string]bool{}, inq: map[string]bool{}, sgn: map[string]int8{}}
	seen := map[string]bool{}
	for _, f := range fs {
		if k := polyKey(f); !seen[k] {
			seen[k] = true
			q.facts = append(q.facts, f)
		}
	}
	return q
}

func (q *query) tryLP(p *Poly) bool {
	if q.u.noLP {
		return false
	}
	t := time.Now()
	r := q.lp(p)
	q.u.lpN++
	q.u.lpT += time.Since(t)
	if r {
		q.u.lpOK++
	}
	return r
}

// quick is a short search.
func (q *query) quick(p *Poly) bool {
	s := q.u.newQuery(q.facts)
	s.budget = 60
	return s.ge0(p, 6)
}

func (q *query) infeasible() bool {
	for _, f := range q.facts {
		if _, hi := q.u.polyRange(f); hi != nil && hi.Sign() < 0 {
			return true
		}
	}
	switch q.points() {
	case 1:
		return true
	case -1:
		return false
	}
	plain := true
	for _, f := range q.facts {
		for _, v := range polyVars(f) {
			plain = plain && plainTerm(v)
		}
	}
	if plain {
		for _, budget := range []int{50, 400, 3000} {
			for n, f := range q.facts {
				prod := false
				for _, m := range f.m {
					prod = prod || len(m.vars) > 1
				}
				if !prod {
					continue
				}
				s := q.u.newQuery(append(append([]fact{}, q.facts[:n]...), q.facts[n+1:]...))
				s.budget = budget
				if s.ge0(f.Neg().Add(intPoly(-1)), 9) || budget == 400 && s.tryLP(f.Neg().Add(intPoly(-1))) {
					return true
				}
			}
		}
	}
	for _, budget := range []int{40, 400} {
		for _, f := range q.facts {
			var rest []fact
			for _, g := range q.facts {
				if g != f && len(f.Add(g).m) > 0 {
					rest = append(rest, g)
				}
			}
			s := q.u.newQuery(rest)
			s.budget = budget
			if s.ge0(f.Neg().Add(intPoly(-1)), 6) {
				return true
			}
		}
	}
	return false
}

// Feasible reports that no contradiction was found in the literals.
func (u *U) Feasible(lits []Lit) bool {
	// opaque contradictions: two dynamic types
	is := map[*T]string{}
	for _, l := range lits {
		if l.atom.op == OIs && l.val && !strings.HasPrefix(l.atom.aux, "I:") {
			if o, ok := is[l.atom.args[0]]; ok && o != l.atom.aux {
				return false
			}
			is[l.atom.args[0]] = l.atom.aux
		}
	}
	// one thing cannot be two, nor nothing and of a type
	same := map[*T]*T{}
	for _, l := range lits {
		if l.atom.op != OSame || !l.val {
			continue
		}
		for n := 0; n < 2; n++ {
			x, g := l.atom.args[n], l.atom.args[1-n]
			if g.op != ONil && !(g.op == OSym && strings.HasPrefix(g.aux, "global:")) {
				continue
			}
			if o, ok := same[x]; ok && o != g {
				return false
			}
			same[x] = g
		}
	}
	for _, l := range lits {
		if l.atom.op == OIs && l.val && same[l.atom.args[0]] != nil && same[l.atom.args[0]].op == ONil {
			return false
		}
	}
	fs := u.tighten(u.factsOf(lits), lits)
	if len(fs) == 0 {
		return true
	}
	return !u.newQuery(fs).infeasible()
}

var negOne = big.NewRat(-1, 1)

// ge0 tries to show p > -1 (p being an integer, p >= 0).
func (q *query) ge0(p *Poly, depth int) bool {
	if c, ok := p.constVal(); ok {
		return c.Cmp(negOne) > 0
	}
	if lo := q.ratLo(p); lo != nil && lo.Cmp(negOne) > 0 {
		return true
	}
	if depth == 0 || q.budget <= 0 {
		return false
	}
	for _, m := range p.m {
		if m.c.Denom().BitLen() > 160 {
			return false
		}
	}
	key := polyKey(p)
	dk := itoa(depth) + ":" + key
	if q.failed[dk] || q.inq[key] {
		return false
	}
	q.budget--
	q.inq[key] = true
	defer delete(q.inq, key)
	for _, v := range polyVars(p) {
		a, b := newPoly(), newPoly()
		for _, m := range p.m {
			n := -1
			for j, w := range m.vars {
				if w == v {
					n = j
					break
				}
			}
			if n < 0 {
				a.add(m.vars, m.c)
			} else {
				b.add(append(append([]*T{}, m.vars[:n]...), m.vars[n+1:]...), m.c)
			}
		}
		switch q.sign(b, depth-1) {
		case 1:
			for _, e := range q.bounds(v, false) {
				if q.ge0(a.Add(b.Mul(e)), depth-1) {
					return true
				}
			}
		case -1:
			for _, e := range q.bounds(v, true) {
				if q.ge0(a.Add(b.Mul(e)), depth-1) {
					return true
				}
			}
		}
	}
	// between its ends an affine function is no smaller than at both of them
	if depth >= 2 {
		for _, v := range polyVars(p) {
			c0, c1, c2, ok := split2(p, v)
			if !ok {
				continue
			}
			lo, hi := q.rng(v)
			if len(c2.m) > 0 {
				k, isc := c2.constVal()
				if isc && k.Sign() > 0 { // complete the square
					r := c1.Mul(c1).Scale(new(big.Rat).Quo(big.NewRat(-1, 4), k))
					if q.ge0(c0.Add(r), depth-1) {
						return true
					}
					continue
				}
				if q.sign(c2, depth-1) != -1 {
					continue
				}
			}
			if lo == nil || hi == nil {
				continue
			}
			at := func(n *big.Int) *Poly {
				x := new(big.Rat).SetInt(n)
				return c0.Add(c1.Scale(x)).Add(c2.Scale(new(big.Rat).Mul(x, x)))
			}
			if q.ge0(at(lo), depth-1) && q.ge0(at(hi), depth-1) {
				return true
			}
		}
	}
	// subtract a fact that cancels a term
	for _, f := range q.allFacts(p) {
		for k, m := range f.m {
			if k == "" {
				continue
			}
			pm, ok := p.m[k]
			if !ok || pm.c.Sign() != m.c.Sign() {
				continue
			}
			if q.ge0(p.Sub(f.Scale(new(big.Rat).Quo(pm.c, m.c))), depth-2) {
				return true
			}
		}
	}
	q.failed[dk] = true
	return false
}

// split2 writes p as c0 + c1*v + c2*v*v.
func split2(p *Poly, v *T) (c0, c1, c2 *Poly, ok bool) {
	c := [3]*Poly{newPoly(), newPoly(), newPoly()}
	for _, m := range p.m {
		n := 0
		var rest []*T
		for _, w := range m.vars {
			if w == v {
				n++
			} else {
				rest = append(rest, w)
			}
		}
		if n > 2 {
			return nil, nil, nil, false
		}
		c[n].add(rest, m.c)
	}
	return c[0], c[1], c[2], true
}

func mentions(m *mono, v *T) bool {
	for _, w := range m.vars {
		if w == v {
			return true
		}
	}
	return false
}

func (q *query) quotFacts(v *T) []fact {
	n, d := q.u.polyOf(v.args[0]), q.u.polyOf(v.args[1])
	vp := q.u.polyOf(v)
	return []fact{n.Sub(vp.Mul(d)), vp.Mul(d).Add(d).Add(intPoly(-1)).Sub(n)}
}

// allFacts adds what a quotient says about its numerator.
func (q *query) allFacts(p *Poly) []fact {
	fs := q.facts
	for _, v := range polyVars(p) {
		if v.op == ODiv && v.args[1].op != OInt {
			fs = append(fs[:len(fs):len(fs)], q.quotFacts(v)...)
		}
	}
	return fs
}

// ratLo is the lower end of p by interval arithmetic.
func (q *query) ratLo(p *Poly) *big.Rat {
	l := new(big.Rat)
	for _, m := range p.m {
		ml, mh := monoRange(m.vars, q.rng)
		b := ml
		if m.c.Sign() < 0 {
			b = mh
		}
		if b == nil {
			return nil
		}
		l.Add(l, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(b)))
	}
	return l
}

// sign is 1 for b >= 0, -1 for b <= 0, 0 if unknown.
func (q *query) sign(b *Poly, depth int) int {
	if c, ok := b.constVal(); ok {
		if c.Sign() < 0 {
			return -1
		}
		return 1
	}
	if lo := q.ratLo(b); lo != nil && lo.Sign() >= 0 {
		return 1
	}
	if lo := q.ratLo(b.Neg()); lo != nil && lo.Sign() >= 0 {
		return -1
	}
	key := polyKey(b)
	if s, ok := q.sgn[key]; ok {
		return int(s)
	}
	// only integral coefficient polynomials may use integer tightening
	d := new(big.Int).Set(bigOne)
	for _, m := range b.m {
		g := new(big.Int).GCD(nil, nil, d, m.c.Denom())
		d.Mul(d, new(big.Int).Div(m.c.Denom(), g))
	}
	bi := b.Scale(new(big.Rat).SetInt(d))
	if depth > 3 {
		depth = 3
	}
	s := 0
	if q.ge0(bi, depth) {
		s = 1
	} else if q.ge0(bi.Neg(), depth) {
		s = -1
	}
	q.sgn[key] = int8(s)
	return s
}

// rng is the range of an atom where the facts hold.
func (q *query) rng(v *T) (lo, hi *big.Int) {
	if bs := q.bounds(v, false); len(bs) > 0 {
		if c, ok := bs[len(bs)-1].constVal(); ok {
			lo = new(big.Int).Neg(floorRat(new(big.Rat).Neg(c)))
		}
	}
	if bs := q.bounds(v, true); len(bs) > 0 {
		if c, ok := bs[len(bs)-1].constVal(); ok {
			hi = floorRat(c)
		}
	}
	return
}

// bounds lists upper (or lower) bounds of an atom.
func (q *query) bounds(v *T, upper bool) []*Poly {
	c := &q.lbs
	if upper {
		c = &q.ubs
	}
	if *c == nil {
		*c = map[*T][]*Poly{}
	}
	if b, ok := (*c)[v]; ok {
		return b
	}
	(*c)[v] = nil // while it is computed
	var out []*Poly
	if v.op == ODiv && (!q.shallow || v.args[1].op == OInt) {
		n := q.u.polyOf(v.args[0])
		if d := v.args[1]; d.op == OInt && d.i.Sign() > 0 {
			inv := new(big.Rat).SetFrac(bigOne, d.i)
			if upper {
				out = append(out, n.Scale(inv))
			} else {
				out = append(out, n.Add(constPoly(new(big.Rat).SetInt(new(big.Int).Sub(bigOne, d.i)))).Scale(inv))
			}
		} else {
			dp := q.u.polyOf(d)
			sub := &query{u: q.u, facts: q.facts, budget: 1500, failed: map[string]bool{}, inq: map[string]bool{}, sgn: map[string]int8{}}
			if sub.ge0(dp.Add(intPoly(-1)), 5) { // d >= 1
				if upper {
					for _, c := range []int64{0, 255, 0xffff, 0x1fffe} {
						sub.budget = 1500
						// n <= c*d + d - 1
						if sub.ge0(dp.Scale(big.NewRat(c+1, 1)).Add(intPoly(-1)).Sub(n), 6) {
							out = append(out, intPoly(c))
							break
						}
					}
				} else {
					for _, c := range []int64{0xffff, 255, 1, 0} {
						sub.budget = 1500
						if sub.ge0(n.Sub(dp.Scale(big.NewRat(c, 1))), 6) {
							out = append(out, intPoly(c))
							break
						}
					}
				}
			}
		}
	}
	if v.op == ODiv && v.args[1].op == OInt && v.args[1].i.Sign() > 0 {
		// c*a*b/d is within a where c*b is within d
		if n := q.u.polyOf(v.args[0]); len(n.m) == 1 {
			for _, m := range n.m {
				if len(m.vars) > 1 && (m.c.Sign() > 0) == upper {
					for i, w := range m.vars {
						rest := append(append([]*T{}, m.vars[:i]...), m.vars[i+1:]...)
						rl, _ := monoRange(rest, q.rng)
						wl, wh := q.rng(w)
						if rl == nil || rl.Sign() < 0 || wl == nil || wl.Sign() < 0 || wh == nil {
							continue
						}
						x := new(big.Rat).Mul(new(big.Rat).Abs(m.c), new(big.Rat).SetInt(wh))
						if x.Cmp(new(big.Rat).SetInt(v.args[1].i)) <= 0 {
							p := newPoly()
							p.add(rest, big.NewRat(int64(m.c.Sign()), 1))
							out = append(out, p)
						}
					}
				}
			}
		}
	}
	if upper {
		out = append(out, q.u.extraUB[v]...)
	}
	vk := monoKey([]*T{v})
	for _, f := range q.facts {
		m, ok := f.m[vk]
		if !ok {
			continue
		}
		other := false
		for k, o := range f.m {
			if k == vk {
				continue
			}
			for _, w := range o.vars {
				if w == v {
					other = true
				}
			}
		}
		if other {
			continue
		}
		// c*v + r >= 0
		r := newPoly()
		for k, o := range f.m {
			if k != vk {
				r.m[k] = o
			}
		}
		b := r.Scale(new(big.Rat).Neg(new(big.Rat).Inv(m.c)))
		if (m.c.Sign() > 0) != upper {
			out = append(out, b)
		}
	}
	if v.op == ODiv && v.args[1].op == OInt && !q.shallow {
		lo, hi := polyRangeBy(q.u.polyOf(v.args[0]), q.rng)
		if d := v.args[1].i; d.Sign() > 0 {
			if upper && hi != nil {
				out = append(out, constPoly(new(big.Rat).SetInt(floorDiv(hi, d))))
			}
			if !upper && lo != nil {
				out = append(out, constPoly(new(big.Rat).SetInt(floorDiv(lo, d))))
			}
			np := q.u.polyOf(v.args[0])
			sub := &query{u: q.u, facts: q.facts, budget: 300, failed: map[string]bool{}, inq: map[string]bool{}, sgn: map[string]int8{}, ubs: q.ubs, lbs: q.lbs}
			if !upper && (lo == nil || lo.Sign() < 0) && sub.ge0(np, 4) {
				out = append(out, intPoly(0))
			}
			if upper && (hi == nil || hi.Cmp(new(big.Int).Mul(d, bigF)) >= 0) {
				top := new(big.Int).Sub(new(big.Int).Mul(d, new(big.Int).Add(bigF, bigOne)), bigOne)
				if sub.ge0(constPoly(new(big.Rat).SetInt(top)).Sub(np), 4) {
					out = append(out, constPoly(new(big.Rat).SetInt(bigF)))
				}
			}
		}
	}
	lo, hi := q.u.rng(v)
	if upper && hi != nil {
		out = append(out, constPoly(new(big.Rat).SetInt(hi)))
	}
	if !upper && lo != nil {
		out = append(out, constPoly(new(big.Rat).SetInt(lo)))
	}
	// of the constants only the best
	var best *Poly
	rest := out[:0:0]
	for _, b := range out {
		x, ok := b.constVal()
		if !ok {
			rest = append(rest, b)
			continue
		}
		if best == nil {
			best = b
		} else if y, _ := best.constVal(); (x.Cmp(y) < 0) == upper {
			best = b
		}
	}
	out = rest
	if best != nil {
		out = append(out, best)
	}
	(*c)[v] = out
	return out
}

func itoa(n int) string {
	return big.NewInt(int64(n)).String()
}
