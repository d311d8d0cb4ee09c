package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "", "Loop summaries of Image.At and Image.Bounds over a symbolic slice of layers: the carried value after one round, for a symbolic layer, is compared with the definition of one step; the order of the layers, the first value and what ends the loop are read off the summary.", ruleC10)
	register("C11", "", "Value graphs of Layer.At, MaskedImage.At and the scaling of alpha that they share, with symbolic colours, points and transparencies, bounded polynomially.", ruleC11)
	register("C13", "", "Value graph of Composite.String at every declared constant and at a symbolic one: constants out, compared with the identifiers; failure obligations discharged.", ruleC13)
}

// walksLayers describes a loop over the layers of an image.
type walk struct {
	lp    *Loop
	n     *T // number of layers
	layer func(i *T) *T
	cur   *LoopVar
}

// carried finds the loop and the variable whose value a function returns.
func (r *Run) carried(e *Exec, res *T) (*Loop, *LoopVar) {
	for _, lp := range e.loops {
		for _, v := range lp.vars {
			if v.cur == res {
				return lp, v
			}
		}
	}
	return nil, nil
}

func ruleC10(r *Run) {
	it, lt := r.p.named("", "Image"), r.p.named("", "Layer")
	comp := r.p.named("", "Composite")
	if it == nil || lt == nil || comp == nil {
		r.missing("the types Image, Layer and Composite")
		return
	}
	at, lat, cm, cf := r.p.method(it, "At"), r.p.method(lt, "At"), r.p.method(it, "ColorModel"), r.p.method(comp, "Composite")
	bounds := r.p.method(it, "Bounds")
	if at == nil || lat == nil || cm == nil || cf == nil || bounds == nil {
		r.missing("At, ColorModel and Bounds of Image, At of Layer, Composite of Composite")
		return
	}
	col := at.Signature.Results().At(0).Type()
	r.guard("image", "Image.At", func() {
		e := r.exec()
		u := e.u
		e.noUnroll = true
		im := e.symbolic("image", it)
		x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
		model := u.mkT(OCall, "ColorModel", cm.Signature.Results().At(0).Type(), im)
		layerAt := func(l, x, y *T) *T { return u.mkT(OCall, "Layer.At", col, l, x, y) }
		compose := func(m, b, t *T) *T { return u.mkT(OCall, "Composite", col, m, b, t) }
		e.summary = func(st *State, fn *ssa.Function, args []*T) (*T, bool) {
			switch fn {
			case lat:
				return layerAt(args[0], args[1], args[2]), true
			case cm:
				return model, true
			case cf:
				return compose(args[0], args[1], args[2]), true
			}
			return nil, false
		}
		pos := r.pos(at.Pos())
		res, out := e.call(e.start(), at, []*T{im, x, y}, nil)
		r.analysed(at)
		r.noteFuncs(e)
		r.noObligations(e, "Image.At", pos)
		lp, v := r.carried(e, res)
		if lp == nil {
			r.viol("layers in order", "Image.At", pos, "the colour is not that which a loop over the layers ends with: "+clip(res.String(), 200))
			return
		}
		_, n := loopRange(e, lp)
		ln := e.length(im)
		if n == nil || !e.equiv(n, ln, u.tTrue) {
			r.viol("layers in order", "Image.At", pos, "the loop does not run once for each layer")
			return
		}
		early := u.And(out.pc, u.Lt(lp.kappa, n))
		r.check(early == u.tFalse || e.infeasible(early), "every layer", "Image.At", pos, "the loop can end before the last layer: "+clip(early.String(), 200))
		// first: a transparent colour
		if v.init == nil || v.init.op != OIface {
			panic(tooComplex(fmt.Sprint("the first colour is ", v.init)))
		}
		first, _ := e.call(e.start(), r.p.method(e.typs[v.init.aux], "RGBA"), []*T{v.init.args[0]}, nil)
		d := e.differ(first.args[3], u.zero, u.tTrue, 0)
		r.check(d == "", "transparent at first", "Image.At", pos, "an image without layers is not transparent: "+d)
		// one step: the bottom layer is the last one
		i := u.subP(u.addP(ln, u.Int(-1)), lp.kappa)
		l := e.load(newMem(), e.elemAddr(im, i, it), lt)
		get := func(n string) *T { return e.field(l, fieldIndex(lt, n), lt) }
		rt := lt.Underlying().(*types.Struct).Field(fieldIndex(lt, "LayerBounds")).Type()
		pt := rt.Underlying().(*types.Struct).Field(0).Type()
		co := func(i, j int) *T { return e.field(e.field(get("LayerBounds"), i, rt), j, pt) }
		in := in4(u, x, y, [4]*T{co(0, 0), co(0, 1), co(1, 0), co(1, 1)})
		top := layerAt(l, x, y)
		mode := get("Mode")
		diss := u.EQ0(u.subP(mode, u.Int(r.constVal("", "CompositeDissolve"))))
		pal := u.atom(u.mk(OIs, e.tkey(r.stdType("image/color", "Palette")), model))
		cn, _ := e.call(e.start(), r.p.fn("internal", "ColourToNRGBA"), []*T{top}, nil)
		nt := r.stdType("image/color", "NRGBA64")
		solid := u.mk(OIface, e.tkey(nt), e.setField(cn, 3, u.Int(F), nt))
		visible := u.And(u.Not(get("Invisible")), in)
		thr := u.Ite(u.Lt(u.Int(0x7fff), e.field(cn, 3, nt)), solid, v.cur)
		want := u.Ite(visible, u.Ite(u.And(pal, u.Not(diss)), thr, compose(mode, v.cur, top)), v.cur)
		d = e.differ(v.back, want, lp.backPC, 0)
		r.check(d == "", "one layer", "Image.At", pos, "a layer does not change the colour as it should (bottom layer first, invisible layers and those elsewhere left out, composed by their mode, or by threshold in a paletted image): "+d)
		// every visible layer goes on with the loop
		stop := u.And(lp.headPC, u.And(u.Lt(lp.kappa, n), u.Not(lp.backPC)))
		r.check(stop == u.tFalse || e.infeasible(stop), "every layer", "Image.At goes on", pos, "the loop does not always go on to the next layer: "+clip(stop.String(), 200))
	})
	r.guard("image", "Image.Bounds", func() {
		e := r.exec()
		u := e.u
		e.noUnroll = true
		im := e.symbolic("image", it)
		pos := r.pos(bounds.Pos())
		res, out := e.call(e.start(), bounds, []*T{im}, nil)
		r.analysed(bounds)
		r.noteFuncs(e)
		r.noObligations(e, "Image.Bounds", pos)
		lp, vars := r.carriedParts(e, res)
		if lp == nil {
			r.viol("bounds of every layer", "Image.Bounds", pos, "the bounds are not what a loop over the layers ends with: "+clip(res.String(), 200))
			return
		}
		_, n := loopRange(e, lp)
		if n == nil || !e.equiv(n, e.length(im), u.tTrue) {
			r.viol("bounds of every layer", "Image.Bounds", pos, "the loop does not run once for each layer")
			return
		}
		early := u.And(out.pc, u.Lt(lp.kappa, n))
		r.check(early == u.tFalse || e.infeasible(early), "bounds of every layer", "Image.Bounds ends", pos, "the loop can end before the last layer: "+clip(early.String(), 200))
		rt := bounds.Signature.Results().At(0).Type()
		d := e.differ(vars(0), e.zero(rt), u.tTrue, 0)
		r.check(d == "", "empty at first", "Image.Bounds", pos, "an image without layers is not empty: "+d)
		union := r.p.method(rt, "Union")
		why := ""
		for _, i := range []*T{lp.kappa, u.subP(u.addP(n, u.Int(-1)), lp.kappa)} {
			l := e.load(newMem(), e.elemAddr(im, i, it), lt)
			b := e.field(l, fieldIndex(lt, "LayerBounds"), lt)
			want, _ := e.call(e.start(), union, []*T{vars(1), b}, nil)
			if why = e.differ(vars(2), want, lp.backPC, 0); why == "" {
				break
			}
			// the union is the same either way round
			want, _ = e.call(e.start(), union, []*T{b, vars(1)}, nil)
			if e.differ(vars(2), want, lp.backPC, 0) == "" {
				why = ""
				break
			}
		}
		r.check(why == "", "bounds of every layer", "Image.Bounds", pos, "a layer does not widen the bounds by its own: "+why)
	})
	r.guard("image", "Image.ColorModel", func() {
		e := r.exec()
		u := e.u
		im := e.symbolic("image", it)
		pos := r.pos(cm.Pos())
		pc := u.GE0(u.addP(e.length(im), u.Int(-1)))
		st := e.start()
		st.pc = pc
		res, _ := e.call(st, cm, []*T{im}, nil)
		l := e.load(newMem(), e.elemAddr(im, u.zero, it), lt)
		want := e.pureCall("invoke.ColorModel", []*T{e.field(l, fieldIndex(lt, "Image"), lt)}, cm.Signature.Results().At(0).Type())
		d := e.differ(res, want, pc, 0)
		r.check(d == "", "colour model", "Image.ColorModel", pos, "the colour model is not that of the first layer: "+d)
		r.noteFuncs(e)
		e = r.exec()
		im = e.symbolic("image", it)
		st = e.start()
		st.pc = e.u.EQ0(e.length(im))
		res, _ = e.call(st, cm, []*T{im}, nil)
		res = e.u.Restrict(res, st.pc)
		for _, ob := range e.live() {
			if ob.kind != "nil" {
				r.viol(ob.kind, "Image.ColorModel in "+fnName(ob.in), r.pos(ob.pos), "this can fail for an image without layers")
			}
		}
		r.check(res != nil && res.op != ONil, "colour model", "Image.ColorModel of nothing", pos, "an image without layers has no colour model")
	})
	r.guard("image", "Layer.Bounds", func() {
		e := r.exec()
		l := e.symbolic("l", lt)
		f := r.p.method(lt, "Bounds")
		res, _ := e.call(e.start(), f, []*T{l}, nil)
		d := e.differ(res, e.field(l, fieldIndex(lt, "LayerBounds"), lt), e.u.tTrue, 0)
		r.check(d == "", "bounds of a layer", "Layer.Bounds", r.pos(f.Pos()), "the bounds of a layer are not its LayerBounds: "+d)
		r.noteFuncs(e)
	})
}

// carriedParts finds the loop that carries a returned struct, as a whole or by
// its fields; the function gives the value before, during and after a round.
func (r *Run) carriedParts(e *Exec, res *T) (*Loop, func(int) *T) {
	pick := func(v *LoopVar, n int) *T {
		switch n {
		case 0:
			return v.init
		case 1:
			return v.cur
		}
		return v.back
	}
	for _, lp := range e.loops {
		for _, v := range lp.vars {
			if v.cur == res {
				return lp, func(n int) *T { return pick(v, n) }
			}
		}
		if res.op != OStruct {
			continue
		}
		// each leaf is a variable of the loop
		by := map[*T]*LoopVar{}
		for _, v := range lp.vars {
			by[v.cur] = v
		}
		ok, some := true, false
		var walk func(t *T, n int) *T
		walk = func(t *T, n int) *T {
			if v := by[t]; v != nil {
				some = true
				return pick(v, n)
			}
			if t.op == OStruct {
				as := make([]*T, len(t.args))
				for i, a := range t.args {
					as[i] = walk(a, n)
				}
				return e.u.mkT(OStruct, t.aux, t.typ, as...)
			}
			ok = false
			return t
		}
		walk(res, 0)
		if ok && some {
			return lp, func(n int) *T { return walk(res, n) }
		}
	}
	return nil, nil
}

// constVal is the value of a declared constant.
func (r *Run) constVal(rel, name string) int64 {
	c, ok := r.p.pkg(rel).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(tooComplex("no constant " + name))
	}
	n, ok := constant.Int64Val(c.Val())
	if !ok {
		panic(tooComplex("no number: " + name))
	}
	return n
}

func ruleC11(r *Run) {
	lt, mt := r.p.named("", "Layer"), r.p.named("", "MaskedImage")
	if lt == nil || mt == nil {
		r.missing("Layer and MaskedImage")
		return
	}
	ct := r.p.fn("internal", "ColourToNRGBA")
	nt := ct.Signature.Results().At(0).Type()
	scaled := func(e *Exec, name string, pos string, res, src, o, pc *T) {
		u := e.u
		st := e.start()
		st.pc = pc
		a, _ := e.call(st, ct, []*T{src}, nil)
		st = e.start()
		st.pc = pc
		b, _ := e.call(st, ct, []*T{res}, nil)
		aa, ba := e.field(a, 3, nt), e.field(b, 3, nt)
		some := u.And(pc, u.GE0(u.addP(o, u.Int(-1))))
		for i := 0; i < 3; i++ {
			d := e.differ(e.field(b, i, nt), e.field(a, i, nt), some, 0)
			r.check(d == "", "colour kept", fmt.Sprint(name, " ", "RGB"[i:i+1]), pos, "a colour that is made transparent changes: "+d)
		}
		d := e.differ(ba, u.zero, u.And(pc, u.EQ0(o)), 0)
		r.check(d == "", "none is transparent", name, pos, "what is wholly transparent or masked off still has an alpha: "+d)
		d = e.differ(ba, aa, u.And(pc, u.EQ0(u.subP(o, u.Int(255)))), 0)
		r.check(d == "", "full changes nothing", name, pos, "what is not transparent at all or not masked changes: "+d)
		bad := ""
		for _, la := range leaves(u.Restrict(aa, pc)) {
			c := pc
			for _, q := range la.lits {
				c = u.And(c, e.lit(q))
			}
			if c == u.tFalse || e.infeasible(c) {
				continue
			}
			p, _ := e.forall(u.Restrict(ba, c), c, func(v *Poly, _ *T) []*Poly {
				return near(v, u.polyOf(la.t).Mul(u.polyOf(o)), k(255), 1)
			})
			if p != nil {
				bad = clip(fmt.Sprint(p), 200)
			}
		}
		r.check(bad == "", "alpha in proportion", name, pos, "alpha is not scaled in proportion: "+bad)
	}
	r.guard("transparency", "Layer.At", func() {
		e := r.exec()
		u := e.u
		l, c, names := r.layer(e, lt)
		f := r.p.method(lt, "At")
		pos := r.pos(f.Pos())
		x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
		res, out := e.call(e.start(), f, []*T{l, x, y}, nil)
		src := e.pureCall("invoke.At", []*T{names["Image"], u.subP(x, c[0]), u.subP(y, c[1])}, f.Signature.Results().At(0).Type())
		// what it reads is the image at the point, moved by the origin of the layer
		calls := 0
		for t := range subterms(u.Uncut(res)) {
			if t.op == OCall && t.aux == "invoke.At" {
				calls++
				d := e.differ(t, src, out.pc, 0)
				r.check(d == "", "point of the image", "Layer.At", pos, "the layer reads another point of its image: "+d)
			}
		}
		r.check(calls > 0, "point of the image", "Layer.At reads", pos, "the layer does not read its image")
		t := names["Transparency"]
		scaled(e, "Layer.At", pos, res, src, u.subP(u.Int(255), t), out.pc)
		for _, ob := range e.live() {
			if ob.kind != "nil" && ob.kind != "assert" {
				r.viol(ob.kind, "Layer.At in "+fnName(ob.in), r.pos(ob.pos), "this can fail: "+clip(fmt.Sprint(ob.t), 200))
			}
		}
		r.analysed(f)
		r.noteFuncs(e)
	})
	r.guard("transparency", "MaskedImage.At", func() {
		e := r.exec()
		u := e.u
		m := e.symbolic("m", mt)
		f := r.p.method(mt, "At")
		pos := r.pos(f.Pos())
		x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
		st := e.start()
		mi := fieldIndex(mt, "Mask")
		gt := mt.Underlying().(*types.Struct).Field(mi).Type()
		ga := r.p.method(gt, "GrayAt")
		res, out := e.call(st, f, []*T{m, x, y}, nil)
		s2 := out.clone()
		g, _ := e.call(s2, ga, []*T{e.field(m, mi, mt), x, y}, nil)
		gy := e.field(g, 0, r.stdType("image/color", "Gray"))
		src := e.pureCall("invoke.At", []*T{e.field(m, fieldIndex(mt, "Image"), mt), x, y}, f.Signature.Results().At(0).Type())
		for _, l := range leaves(u.Restrict(gy, out.pc)) {
			c := out.pc
			for _, q := range l.lits {
				c = u.And(c, e.lit(q))
			}
			if c == u.tFalse || e.infeasible(c) {
				continue
			}
			scaled(e, "MaskedImage.At", pos, u.Restrict(res, c), src, l.t, c)
		}
		r.analysed(f)
		r.noteFuncs(e)
	})
}

func ruleC13(r *Run) {
	t := r.p.named("", "Composite")
	f := r.p.method(t, "String")
	if t == nil || f == nil {
		r.missing("Composite.String")
		return
	}
	pos := r.pos(f.Pos())
	sc := r.p.pkg("").Pkg.Scope()
	var names []string
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t) && strings.HasPrefix(n, "Composite") {
			names = append(names, n)
		}
	}
	sort.Slice(names, func(i, j int) bool { return r.constVal("", names[i]) < r.constVal("", names[j]) })
	if len(names) < 10 {
		r.missing("the Composite constants")
	}
	seen := map[string]string{}
	vals := map[int64]string{}
	for _, n := range names {
		n := n
		r.guard("name", n, func() {
			e := r.exec()
			v := r.constVal("", n)
			if o, ok := vals[v]; ok {
				r.viol("modes differ", n, pos, n+" and "+o+" are the same mode")
				return
			}
			vals[v] = n
			res, _ := e.call(e.start(), f, []*T{e.u.Int(v)}, nil)
			if res == nil || res.op != OStr {
				r.viol("name of a mode", n, pos, fmt.Sprint("the name of ", n, " is not a constant: ", res))
				return
			}
			r.check(squash(res.aux) == squash(strings.TrimPrefix(n, "Composite")), "name of a mode", n, pos, fmt.Sprintf("%s is called %q", n, res.aux))
			if o, ok := seen[res.aux]; ok {
				r.viol("names differ", n, pos, fmt.Sprintf("%s and %s are both called %q", n, o, res.aux))
			} else {
				r.ok("names differ", n)
			}
			seen[res.aux] = n
			r.noObligations(e, n, pos)
		})
	}
	r.guard("name", "any", func() {
		e := r.exec()
		v := e.symbolic("c", t)
		res, _ := e.call(e.start(), f, []*T{v}, nil)
		r.check(res != nil, "name of any mode", "Composite.String", pos, "String does not return")
		r.noObligations(e, "Composite.String", pos)
		r.noteFuncs(e)
	})
	r.analysed(f)
}

// squash keeps the letters, in lower case.
func squash(s string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9':
			return c
		case c >= 'A' && c <= 'Z':
			return c + 'a' - 'A'
		}
		return -1
	}, s)
}

var _ = big.NewInt
