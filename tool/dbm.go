package main

import (
	"math/big"
)

// Facts that compare two terms, or one with a number, are decided by shortest
// paths; the other facts are then tried on points that these allow.

const inf = int64(1) << 60

// diffForm writes p >= 0 as a - b <= c, for terms a and b (nil for zero).
func diffForm(p *Poly) (a, b *T, c int64, ok bool) {
	var ca, cb *big.Rat
	k := new(big.Rat)
	for _, m := range p.m {
		switch {
		case len(m.vars) == 0:
			k = m.c
		case len(m.vars) > 1:
			return nil, nil, 0, false
		case m.c.Sign() < 0: // a
			if a != nil {
				return nil, nil, 0, false
			}
			a, ca = m.vars[0], new(big.Rat).Neg(m.c)
		default:
			if b != nil {
				return nil, nil, 0, false
			}
			b, cb = m.vars[0], m.c
		}
	}
	if a == nil && b == nil || ca != nil && cb != nil && ca.Cmp(cb) != 0 {
		return nil, nil, 0, false
	}
	d := ca
	if d == nil {
		d = cb
	}
	f := floorRat(new(big.Rat).Quo(k, d))
	if !f.IsInt64() || f.BitLen() > 50 {
		return nil, nil, 0, false
	}
	return a, b, f.Int64(), true
}

// points: 1 the facts contradict each other, -1 a point satisfies them all, 0
// unknown.
func (q *query) points() int {
	node := map[*T]int{}
	vars := []*T{nil}
	at := func(v *T) int {
		if v == nil {
			return 0
		}
		if n, ok := node[v]; ok {
			return n
		}
		node[v] = len(vars)
		vars = append(vars, v)
		return node[v]
	}
	type edge struct {
		a, b int
		c    int64
	}
	var es []edge
	var rest []*Poly
	for _, f := range q.facts {
		if a, b, c, ok := diffForm(f); ok {
			es = append(es, edge{at(a), at(b), c})
		} else {
			for _, v := range polyVars(f) {
				at(v)
			}
			rest = append(rest, f)
		}
	}
	n := len(vars)
	if n > 40 {
		return 0
	}
	plain := true // no term says more than its name
	for _, v := range vars[1:] {
		plain = plain && plainTerm(v) && len(q.u.extraUB[v]) == 0
	}
	for i, v := range vars[1:] {
		lo, hi := q.u.rng(v)
		if hi != nil && hi.BitLen() < 50 {
			es = append(es, edge{i + 1, 0, hi.Int64()})
		}
		if lo != nil && lo.BitLen() < 50 {
			es = append(es, edge{0, i + 1, -lo.Int64()})
		}
	}
	d := make([][]int64, n) // x_i - x_j <= d[i][j]
	for i := range d {
		d[i] = make([]int64, n)
		for j := range d[i] {
			if i != j {
				d[i][j] = inf
			}
		}
	}
	for _, e := range es {
		if e.a == e.b {
			if e.c < 0 {
				return 1
			}
		} else if e.c < d[e.a][e.b] {
			d[e.a][e.b] = e.c
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i][k] == inf {
				continue
			}
			for j := 0; j < n; j++ {
				if d[k][j] != inf && d[i][k]+d[k][j] < d[i][j] {
					d[i][j] = d[i][k] + d[k][j]
				}
			}
		}
	}
	for i := range d {
		if d[i][i] < 0 {
			return 1
		}
	}
	if !plain {
		return 0
	}
	seed := uint32(1)
	rnd := func(m uint32) uint32 {
		seed = seed*1664525 + 1013904223
		return (seed >> 8) % m
	}
	for try := 0; try < 24; try++ {
		x := make([]int64, n)
		done := make([]bool, n)
		done[0] = true
		for s := 1; s < n; s++ {
			// the next one
			i := s
			if try >= 4 {
				i = 1 + int(rnd(uint32(n-1)))
				for done[i] {
					i = i%(n-1) + 1
				}
			} else if try >= 2 {
				i = n - s
			}
			lo, hi := -inf, inf
			for j := range done {
				if !done[j] {
					continue
				}
				if d[i][j] != inf && x[j]+d[i][j] < hi {
					hi = x[j] + d[i][j]
				}
				if d[j][i] != inf && x[j]-d[j][i] > lo {
					lo = x[j] - d[j][i]
				}
			}
			if lo == -inf && hi == inf {
				lo, hi = 0, 1<<20
			} else if lo == -inf {
				lo = hi - 1<<20
			} else if hi == inf {
				hi = lo + 1<<20
			}
			switch w := rnd(6); {
			case try < 4 && try%2 == 0, try >= 4 && w == 0:
				x[i] = lo
			case try < 4, w == 1:
				x[i] = hi
			case w == 2:
				x[i] = lo + (hi-lo)/2
			case w == 3 && lo+3 <= hi:
				x[i] = lo + 1 + int64(rnd(3))
			case w == 4 && lo <= 0 && hi >= 0:
				x[i] = 0
			default:
				x[i] = lo + int64(float64(hi-lo)*float64(rnd(1000))/1000)
			}
			done[i] = true
		}
		good := true
		for _, f := range rest {
			s := new(big.Rat)
			for _, m := range f.m {
				t := new(big.Rat).Set(m.c)
				for _, v := range m.vars {
					t.Mul(t, new(big.Rat).SetInt64(x[node[v]]))
				}
				s.Add(s, t)
			}
			if s.Sign() < 0 {
				good = false
				break
			}
		}
		if good {
			return -1
		}
	}
	return 0
}

func plainTerm(t *T) bool {
	switch t.op {
	case OSym, OLen:
		return true
	case OField:
		return plainTerm(t.args[0])
	}
	return false
}
