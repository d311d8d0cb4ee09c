package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register("C05", "", "Value graphs of the conversions between RGB and HSV or HSL, case by case over the six orders of the channels and the six sextants of the hue, compared with the definition by bounding polynomials over the floor-division terms.", ruleC05)
}

// orders lists the six orders of the channels: largest, middle, smallest, and
// the hue as (base*c + sign*F*(mid-min))/c sixths of the circle.
var orders = []struct {
	max, mid, min int
	base, sign    int64
}{
	{0, 1, 2, 0, 1},
	{1, 0, 2, 2, -1},
	{1, 2, 0, 2, 1},
	{2, 1, 0, 4, -1},
	{2, 0, 1, 4, 1},
	{0, 2, 1, 6, -1},
}

func rat(p *Poly, n int64) *Poly { return p.Scale(big.NewRat(n, 1)) }

func ruleC05(r *Run) {
	var names []string
	for _, m := range []string{"HSV", "HSL"} {
		for n := range orders {
			names = append(names, fmt.Sprintf("%s to/%d", m, n), fmt.Sprintf("%s from/%d", m, n))
		}
		names = append(names, m+" alpha/0", m+" gray/0", m+" from/6")
	}
	chans := "RGB"
	r.each("conversion", names, func(name string) {
		model := name[:3]
		var n int
		what := strings.Fields(strings.Split(name, "/")[0])[1]
		fmt.Sscan(strings.Split(name, "/")[1], &n)
		end := n == 6 // the end of the circle
		if end {
			n = 5
		}
		o := orders[n]
		e := r.exec()
		u := e.u
		le := func(a, b *T) *T { return u.Le(a, b) }
		to := r.p.fn("lcolor", "RGBTo"+model)
		typ := r.p.named("lcolor", model+"A")
		if to == nil || typ == nil || r.p.method(typ, "ToNRGBA") == nil {
			r.missing("lcolor.RGBTo" + model + " and lcolor." + model + "A.ToNRGBA")
			return
		}
		from := r.p.method(typ, "ToNRGBA")
		r.analysed(to)
		r.analysed(from)
		file := "lcolor/hsl.go"
		nrgba := from.Signature.Results().At(0).Type()
		if what == "to" || what == "gray" || what == "alpha" {
			px, c := e.pixel(r, "c")
			st := e.start()
			ord := u.And(le(px.c[o.mid], px.c[o.max]), le(px.c[o.min], px.c[o.mid]))
			switch what {
			case "to":
				st.pc = u.And(ord, u.Not(u.EQ0(u.subP(px.c[o.max], px.c[o.min]))))
				if o.base == 6 { // a full circle is none
					st.pc = u.And(st.pc, u.Lt(px.c[o.min], px.c[o.mid]))
				}
			case "gray":
				st.pc = u.And(u.EQ0(u.subP(px.c[0], px.c[1])), u.EQ0(u.subP(px.c[0], px.c[2])))
			}
			pc := st.pc
			res, _ := e.call(st, to, []*T{c}, nil)
			r.noteFuncs(e)
			h, s, v, a := e.field(res, 0, typ), e.field(res, 1, typ), e.field(res, 2, typ), e.field(res, 3, typ)
			fields := []*T{u.Uncut(h), u.Uncut(s), u.Uncut(v)}
			h, s, v = fields[0], fields[1], fields[2]
			if what == "alpha" {
				r.check(e.within(a, px.c[3], pc, 0), "alpha kept", "RGBTo"+model, file, "the conversion to "+model+" changes alpha: "+clip(a.String(), 200))
				m := map[*T]bool{}
				for _, f := range fields {
					freeSyms(f, m, map[*T]bool{})
				}
				r.check(!m[px.c[3]], "colour apart from alpha", "RGBTo"+model, file, "the components of "+model+" depend on alpha")
				for _, ob := range e.live() {
					r.viol(ob.kind, "RGBTo"+model+" in "+fnName(ob.in), r.pos(ob.pos), "the conversion to "+model+" can fail here: "+ob.kind)
				}
				return
			}
			if what == "gray" {
				r.check(e.within(s, u.zero, pc, 0), "gray has no saturation", "RGBTo"+model, file, "a gray has saturation "+clip(s.String(), 200))
				r.check(e.within(v, px.c[0], pc, 0), "lightness of gray", "RGBTo"+model, file, "the lightness of a gray is "+clip(v.String(), 200))
				return
			}
			mx, md, mn := u.polyOf(px.c[o.max]), u.polyOf(px.c[o.mid]), u.polyOf(px.c[o.min])
			cc := mx.Sub(mn)
			cn := fmt.Sprintf("RGBTo%s where %c >= %c >= %c", model, chans[o.max], chans[o.mid], chans[o.min])
			req := func(rule string, t *T, extra *T, f func(v *Poly) []*Poly) {
				c := pc
				if extra != nil {
					c = u.And(c, extra)
				}
				t = e.simplify(t, c)
				bad, cond := e.forall(t, c, func(v *Poly, _ *T) []*Poly { return f(v) })
				txt := ""
				if bad != nil {
					txt = clip(bad.String(), 250) + " where " + clip(cond.String(), 250)
				}
				r.check(bad == nil, rule, cn, file, "the "+rule+" of "+model+" is not what defines it: "+txt)
			}
			req("hue", h, nil, func(v *Poly) []*Poly {
				num := cc.Scale(big.NewRat(o.base*F, 1)).Add(md.Sub(mn).Scale(big.NewRat(o.sign*F, 1)))
				return near(v, num, cc.Scale(big.NewRat(6, 1)), 2)
			})
			if model == "HSV" {
				req("value", v, nil, func(v *Poly) []*Poly { return []*Poly{v.Sub(mx), mx.Sub(v)} })
				req("saturation", s, nil, func(v *Poly) []*Poly { return near(v, rat(cc, F), mx, 1) })
			} else {
				req("lightness", v, nil, func(v *Poly) []*Poly { return near(v, mx.Add(mn), k(2), 1) })
				sum := u.addP(px.c[o.max], px.c[o.min])
				req("saturation", s, u.GE0(u.subP(u.Int(F-1), sum)), func(v *Poly) []*Poly { return near(v, rat(cc, F), mx.Add(mn), 1) })
				req("saturation (light)", s, u.GE0(u.subP(sum, u.Int(F+1))), func(v *Poly) []*Poly { return near(v, rat(cc, F), k(2*F).Sub(mx.Add(mn)), 1) })
			}
			return
		}
		// from HSV or HSL, a sextant of the hue at a time
		H, S, V, A := u.SymR("h", 0, F), u.SymR("s", 0, F), u.SymR("v", 0, F), u.SymR("a", 0, F)
		st := e.start()
		lo, hi := int64(n)*F, int64(n+1)*F
		h6 := u.scale(H, 6)
		pc := u.And(u.GE0(u.subP(h6, u.Int(lo))), u.GE0(u.subP(u.Int(hi-1), h6)))
		if end {
			H, pc = u.Int(F), st.pc
		}
		st.pc = pc
		res, _ := e.call(st, from, []*T{u.mkT(OStruct, e.tkey(typ), typ, H, S, V, A)}, nil)
		r.noteFuncs(e)
		out := [4]*T{}
		for i := range out {
			out[i] = e.field(res, i, nrgba)
		}
		cn := fmt.Sprintf("%sA.ToNRGBA, sextant %d", model, n)
		if end {
			cn = model + "A.ToNRGBA, end of the circle"
		}
		r.check(e.within(out[3], A, pc, 0), "alpha kept", cn, file, "the conversion from "+model+" changes alpha")
		for _, ob := range e.live() {
			r.viol(ob.kind, cn+" in "+fnName(ob.in), r.pos(ob.pos), "the conversion from "+model+" can fail here: "+ob.kind)
		}
		hp, sp, vp := u.polyOf(H), u.polyOf(S), u.polyOf(V)
		type kase struct {
			cond *T
			c, m *Poly // times F and 2F
		}
		var cases []kase
		if model == "HSV" {
			cases = []kase{{u.tTrue, rat(vp.Mul(sp), 2), rat(vp, 2*F).Sub(rat(vp.Mul(sp), 2))}}
		} else {
			// c = (F-|2L-F|)*S/F, m = L - c/2
			l2 := rat(vp, 2)
			c1 := rat(l2.Mul(sp), 2)
			c2 := rat(k(2*F).Sub(l2).Mul(sp), 2)
			half := big.NewRat(1, 2)
			cases = []kase{
				{u.Le(u.scale(V, 2), u.Int(F)), c1, rat(vp, 2*F).Sub(c1.Scale(half))},
				{u.Le(u.Int(F), u.scale(V, 2)), c2, rat(vp, 2*F).Sub(c2.Scale(half))},
			}
		}
		frac := rat(hp, 6).Sub(k(lo)) // of F
		if o.sign < 0 {
			frac = k(hi).Sub(rat(hp, 6))
		}
		for ci, ka := range cases {
			c := u.And(pc, ka.cond)
			for _, q := range []struct {
				name string
				ch   int
				n, d *Poly
				tol  int64
			}{
				{"largest", o.max, ka.m.Add(ka.c), k(2 * F), 2},
				{"smallest", o.min, ka.m, k(2 * F), 2},
				{"middle", o.mid, rat(ka.m, F).Add(ka.c.Mul(frac)), k(2 * F * F), 4},
			} {
				t := e.simplify(u.Uncut(out[q.ch]), c)
				bad, cond := e.forall(t, c, func(v *Poly, _ *T) []*Poly { return near(v, q.n, q.d, q.tol) })
				txt := ""
				if bad != nil {
					txt = clip(bad.String(), 250) + " where " + clip(cond.String(), 250)
				}
				r.check(bad == nil, q.name+" channel", fmt.Sprintf("%s, case %d", cn, ci+1), file, fmt.Sprintf("%c, the %s channel, is not what defines %s: %s", chans[q.ch], q.name, model, txt))
			}
		}
		_ = types.Typ
	})
}
