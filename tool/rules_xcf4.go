package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C23", "", "Value graph of Decode after Encode: what is read from a place of the file is what the encoder wrote there; the layers that come out are compared with those that went in.", ruleC23)
	register("C24", "", "Value graph of Encode and of Decode: the number written for each blend mode, and the blend mode read for each number, against the table of the format.", ruleC24)
	register("C25", "", "What Encode writes, by position, is read by the rules of the format: lengths, lists, pointers and contents.", ruleC25)
}

func shapes(tier string) []shape {
	g := func(ns ...node) node { return node{isGrp: true, group: ns} }
	many := make([]node, 257)
	many[1], many[256] = g(node{}), g(node{}, node{})
	ss := []shape{
		{name: "two layers", nodes: []node{{}, {mask: true}}, tight: true},
		{name: "layer in a group", nodes: []node{g(node{})}, tight: true},
		{name: "a layer", nodes: []node{{mask: true}}, as: "layer"},
		{name: "pointer to a layer", nodes: []node{{}}, as: "layer pointer"},
		{name: "pointer to an image", nodes: []node{{ptr: true, mask: true}, {}, {}}, as: "pointer"},
		{name: "picture", as: "image"},
		{name: "picture to the right and above", as: "image", at: [2]int{1, -1}},
		{name: "picture to the left", as: "image", at: [2]int{-1, 0}},
		{name: "picture below", as: "image", at: [2]int{0, 1}},
		{name: "gray", nodes: []node{{mask: true}, {}}, base: "gray"},
		{name: "gray of 16 bits", nodes: []node{{mask: true}, {}}, base: "gray16"},
		{name: "indexed", nodes: []node{{mask: true}, {}}, base: "indexed"},
		{name: "group", nodes: []node{{}, g(node{}, node{mask: true}), {}}},
		{name: "masked groups", nodes: []node{{mask: true, isGrp: true, group: []node{{}, {}}}, {mask: true, ptr: true, isGrp: true, group: []node{{}}}, {ptr: true, isGrp: true, group: []node{{}}}}},
		{name: "groups in groups", nodes: []node{{}, g(node{}, g(node{}, g(), g(node{}), node{}), node{}), g(node{}), {}}},
		{name: "groups by pointer", nodes: []node{{ptr: true, isGrp: true, group: []node{{ptr: true, isGrp: true, mask: true, group: []node{g(node{}), {}}}, {ptr: true, mask: true}}}, {}, {}}},
		{name: "many layers", nodes: many, small: true},
		{name: "groups in groups, gray", nodes: []node{g(g(node{mask: true}), node{}), {}}, base: "gray"},
		{name: "no layers"},
	}
	if tier == "thorough" {
		// all small trees
		var trees func(n, depth int) [][]node
		trees = func(n, depth int) [][]node {
			out := [][]node{nil}
			if n == 0 {
				return out
			}
			for _, rest := range trees(n-1, depth) {
				out = append(out, append([]node{{mask: len(rest) == 1}}, rest...))
			}
			if depth > 0 {
				for k := 0; k < n; k++ {
					for _, in := range trees(k, depth-1) {
						if count(in) != k {
							continue
						}
						for _, rest := range trees(n-1-k, depth) {
							if count(rest) == n-1-k {
								out = append(out, append([]node{{isGrp: true, group: in, mask: k == 1, ptr: k == 2}}, rest...))
							}
						}
					}
				}
			}
			return out
		}
		for i, ns := range trees(5, 4) {
			ss = append(ss, shape{name: fmt.Sprint("tree ", i, " ", describe(ns)), nodes: ns, base: []string{"", "gray"}[i%2]})
		}
	}
	return ss
}

func count(ns []node) int {
	n := len(ns)
	for _, x := range ns {
		n += count(x.group)
	}
	return n
}

func describe(ns []node) string {
	s := ""
	for _, n := range ns {
		c := "l"
		if n.isGrp {
			c = "(" + describe(n.group) + ")"
		}
		if n.mask {
			c += "m"
		}
		s += c
	}
	return s
}

func (r *Run) eachShape(f func(s shape)) {
	for _, n := range []string{"Encode", "Decode"} {
		if r.p.fn("xcf", n) == nil {
			r.missing("xcf." + n)
			return
		}
	}
	by := map[string]shape{}
	var names []string
	for _, s := range shapes(r.tier) {
		by[s.name] = s
		names = append(names, s.name)
	}
	r.each(ruleLayers, names, func(n string) { f(by[n]) })
}

func ruleC23(r *Run) {
	r.eachShape(func(s shape) {
		r.roundTrip(s)
		if s.small {
			return
		}
		if s.group() {
			s.name, s.back = s.name+", groups in the other order", true
			r.roundTrip(s)
		}
		if s.as == "" {
			s.name, s.dec = s.name+", not decompressed", "DecodeCompressed"
			r.roundTrip(s)
		}
	})
}

func (s shape) group() bool {
	for _, n := range s.nodes {
		if n.isGrp {
			return true
		}
	}
	return false
}

// node is a layer of an image that is written.
type node struct {
	mask  bool
	group []node // of a group
	isGrp bool
	ptr   bool // by pointer
	mode  int64
}

type wrote struct {
	val   *T // the layer
	img   *T // the picture, or nil of a group
	mask  *T
	inner []wrote
	group bool
	plain *T // the bounds of a picture without layers
}

// layers makes the terms of an image.
func (t *trip) layers(ns []node, path string, mode int64) (*T, []wrote, *T) {
	e, u, r := t.e, t.u, t.r
	lt, it, mt := r.p.named("", "Layer"), r.p.named("", "Image"), r.p.named("", "MaskedImage")
	im := r.stdType("image", "Image")
	pc := u.tTrue
	var vs []*T
	var ws []wrote
	for i, n := range ns {
		name := path + "L" + itoa(i)
		v := e.symbolic(name, lt)
		rt, pt := r2(r)
		if t.small {
			v = e.setField(v, fieldIndex(lt, "Name"), u.Str(""), lt)
		}
		b := e.field(v, fieldIndex(lt, "LayerBounds"), lt)
		var co [2][2]*T
		for j := 0; j < 2; j++ {
			lo := ranged(e.field(e.field(b, 0, rt), j, pt), -maxPic, maxPic)
			size := u.Int(int64(3 + j))
			if !t.small {
				size = ranged(e.symbolic(name+"size"+itoa(j), types.Typ[types.Int]), 0, maxPic)
			} else {
				lo = u.Int(int64(i))
			}
			co[0][j], co[1][j] = lo, u.addP(lo, size)
		}
		corner := func(c [2]*T) *T { return u.mkT(OStruct, e.tkey(pt), pt, c[0], c[1]) }
		v = e.setField(v, fieldIndex(lt, "LayerBounds"), u.mkT(OStruct, e.tkey(rt), rt, corner(co[0]), corner(co[1])), lt)
		if !t.small {
			ranged(e.length(e.field(v, fieldIndex(lt, "Name"), lt)), 0, 1000)
		}
		m := n.mode
		if m < 0 {
			m = mode
		}
		v = e.setField(v, fieldIndex(lt, "Mode"), u.Int(m), lt)
		w := wrote{}
		var pic *T
		if n.isGrp {
			sub, sw, spc := t.layers(n.group, name, mode)
			pc = u.And(pc, spc)
			w.inner, w.group = sw, true
			pic = u.mkT(OIface, e.tkey(it), im, sub)
			if n.ptr {
				o := e.newObj("group", it, sub)
				pic = u.mkT(OIface, e.tkey(ptrTo(it)), im, u.mk(OAddr, o.id))
			}
		} else {
			nt := r.stdType("image", "NRGBA")
			o := e.newObj("pic", nt, e.symbolic(name+"pic", nt))
			pic = u.mkT(OIface, e.tkey(ptrTo(nt)), im, u.mk(OAddr, o.id))
			w.img = pic
		}
		if n.mask {
			gt := r.stdType("image", "Gray")
			o := e.newObj("mask", gt, e.symbolic(name+"mask", gt))
			w.mask = u.mk(OAddr, o.id)
			ms := e.zero(mt)
			ms = e.setField(ms, fieldIndex(mt, "Image"), pic, mt)
			ms = e.setField(ms, fieldIndex(mt, "Mask"), w.mask, mt)
			pic = u.mkT(OIface, e.tkey(mt), im, ms)
			if n.ptr {
				o := e.newObj("masked", mt, ms)
				pic = u.mkT(OIface, e.tkey(ptrTo(mt)), im, u.mk(OAddr, o.id))
			}
		}
		v = e.setField(v, fieldIndex(lt, "Image"), pic, lt)
		w.val = v
		vs = append(vs, v)
		ws = append(ws, w)
	}
	return u.mkT(OSeq, "", it, vs...), ws, pc
}

// shape is an image that is written and read.
type shape struct {
	name  string
	nodes []node
	base  string // colours: "", "gray", "indexed"
	as    string // "", "pointer", "layer", "layer pointer", "image"
	dec   string
	mode  int64 // of all layers
	back  bool
	at    [2]int // where a picture begins, for "image"
	tight bool   // layers can reach the edges of the canvas
	small bool   // the layers have no name and one known size
}

func (t *trip) global(pkg, name string) *T {
	g := t.r.p.prog.ImportedPackage(pkg).Var(name)
	return t.e.load(newMem(), t.e.globalAddr(g), deref(g.Type()))
}

// encode writes an image.
func (t *trip) encode(s shape) (ws []wrote, st *State) {
	r, e, u := t.r, t.e, t.u
	lt, it := r.p.named("", "Layer"), r.p.named("", "Image")
	im := r.stdType("image", "Image")
	rt, pt := r2(r)
	t.small = s.small
	val, ws, pc := t.layers(s.nodes, "", s.mode)
	z := u.mkT(OStruct, e.tkey(pt), pt, u.zero, u.zero)
	size := e.symbolic("canvas", pt)
	t.bound = u.mkT(OStruct, e.tkey(rt), rt, z, size)
	for j := 0; j < 2; j++ {
		c := e.field(size, j, pt)
		if s.tight {
			ranged(c, 0, 16*maxPic)
		} else {
			ranged(c, 8*maxPic, 16*maxPic)
		}
	}
	var within func(ws []wrote, dx, dy *T)
	within = func(ws []wrote, dx, dy *T) {
		for _, w := range ws {
			b := e.field(w.val, fieldIndex(lt, "LayerBounds"), lt)
			c := [2]*T{dx, dy}
			for j := range c {
				pc = u.And(pc, u.GE0(u.subP(e.field(size, j, pt), u.addP(c[j], e.field(e.field(b, 1, rt), j, pt)))))
				c[j] = u.addP(c[j], e.field(e.field(b, 0, rt), j, pt))
			}
			within(w.inner, c[0], c[1])
		}
	}
	if s.tight {
		within(ws, u.zero, u.zero)
	}
	switch s.base {
	case "":
		t.model = t.global("image/color", "NRGBAModel")
	case "gray":
		t.model = t.global(modPath+"/lcolor", "GrayAlphaModel")
	case "gray16":
		t.model = t.global("image/color", "Gray16Model")
	case "indexed":
		at, ct := r.p.named("lcolor", "AlphaPalette"), r.stdType("image/color", "Color")
		rgb := r.p.named("lcolor", "RGB")
		var cs []*T
		for i := 0; i < 3; i++ {
			cs = append(cs, u.mkT(OIface, e.tkey(rgb), ct, e.symbolic("colour"+itoa(i), rgb)))
		}
		t.palette = cs
		t.model = u.mkT(OIface, e.tkey(at), r.stdType("image/color", "Model"), u.mkT(OSeq, "", at, cs...))
	}
	arg := u.mkT(OIface, e.tkey(it), im, val)
	ptr := func(typ types.Type, v *T) *T {
		o := e.newObj("whole", typ, v)
		return u.mkT(OIface, e.tkey(ptrTo(typ)), im, u.mk(OAddr, o.id))
	}
	switch s.as {
	case "pointer":
		arg = ptr(it, val)
	case "layer":
		arg = u.mkT(OIface, e.tkey(lt), im, val.args[0])
	case "layer pointer":
		arg = ptr(lt, val.args[0])
	case "image": // no layers at all
		nt := r.stdType("image", "NRGBA")
		v := e.symbolic("plain", nt)
		b := e.field(v, fieldIndex(nt, "Rect"), nt)
		var co [2][2]*T
		for j := 0; j < 2; j++ {
			lo := u.Int(0)
			switch {
			case s.at[j] < 0:
				lo = ranged(e.field(e.field(b, 0, rt), j, pt), -maxPic, -1)
			case s.at[j] > 0:
				lo = ranged(e.field(e.field(b, 0, rt), j, pt), 1, maxPic)
			}
			co[0][j], co[1][j] = lo, u.addP(lo, ranged(e.symbolic("plainsize"+itoa(j), types.Typ[types.Int]), 1, maxPic))
		}
		b = u.mkT(OStruct, e.tkey(rt), rt, u.mkT(OStruct, e.tkey(pt), pt, co[0][0], co[0][1]), u.mkT(OStruct, e.tkey(pt), pt, co[1][0], co[1][1]))
		o := e.newObj("plain", nt, e.setField(v, fieldIndex(nt, "Rect"), b, nt))
		arg = u.mkT(OIface, e.tkey(ptrTo(nt)), im, u.mk(OAddr, o.id))
		ws = []wrote{{img: arg, plain: b}}
		for j := 0; j < 2; j++ {
			size = e.setField(size, j, u.subP(co[1][j], co[0][j]), pt)
		}
	}
	t.size = size
	f := r.p.fn("xcf", "Encode")
	mi := paramOf(f, "image.Image")
	if mi < 0 {
		panic(tooComplex("parameters of Encode"))
	}
	st = e.start()
	st.pc = pc
	res, out := e.call(st, f, e.args(f, map[int]*T{mi: arg}), nil)
	if out == nil {
		t.fail("nothing can be written")
	}
	good := e.success(f, res, out)
	if !e.always(out.pc, good) {
		t.fail("an error is given")
	}
	return ws, &State{pc: good, mem: out.mem}
}

// decode reads what was written.
func (t *trip) decode(name string, st *State) (*T, *State) {
	e := t.e
	f := t.r.p.fn("xcf", name)
	st = st.clone()
	st.mem.set(t.ghost.id, t.u.zero)
	res, out := e.call(st, f, e.args(f, nil), nil)
	if out == nil {
		t.fail("nothing can be read")
	}
	good := e.success(f, res, out)
	if !e.always(out.pc, good) {
		t.fail("an error is given for what was written: " + clip(t.u.Restrict(t.e.nth(res, 1, f), t.u.And(out.pc, t.u.Not(good))).String(), 200))
	}
	return t.u.Restrict(e.nth(res, 0, f), good), &State{pc: good, mem: out.mem}
}

const (
	ruleLayers = "layers survive being written and read"
	rulePlace  = "layers stay where they are among the layers"
)

// list gives the elements of a slice.
func (t *trip) list(v *T, st *State, want int) []*T {
	e, u := t.e, t.u
	it := t.r.p.named("", "Image")
	if v.op == OIface {
		v = v.args[0]
	}
	if n, ok := t.clean(e.length(v), st.pc).intVal(); !ok || n != int64(want) {
		t.fail(fmt.Sprintf("there are %v layers, not %d", e.length(v), want))
	}
	var vs []*T
	for i := 0; i < want; i++ {
		vs = append(vs, u.Restrict(e.load(st.mem, e.elemAddr(v, u.Int(int64(i)), it), t.r.p.named("", "Layer")), st.pc))
	}
	return vs
}

// compare checks that layers are as they were written.
func (t *trip) compare(key string, got *T, st *State, ws []wrote, top bool) {
	r, e, u := t.r, t.e, t.u
	lt, mt := r.p.named("", "Layer"), r.p.named("", "MaskedImage")
	rt, pt := r2(r)
	pos := r.pos(r.p.fn("xcf", "Encode").Pos())
	gs := t.list(got, st, len(ws))
	for i, w := range ws {
		g := gs[i]
		key := fmt.Sprintf("%s/%d", key, i)
		eq := func(what string, a, b *T) bool {
			d := e.differ(a, b, st.pc, 0)
			return r.check(d == "", ruleLayers, what+" "+key, pos, "it is not what was written: "+clip(d, 300))
		}
		fld := func(n string) *T { return e.field(g, fieldIndex(lt, n), lt) }
		b := fld("LayerBounds")
		if w.plain != nil {
			for j := 0; j < 2; j++ {
				n := u.subP(e.field(e.field(w.plain, 1, rt), j, pt), e.field(e.field(w.plain, 0, rt), j, pt))
				eq("origin", e.field(e.field(b, 0, rt), j, pt), u.zero)
				eq("size", e.field(e.field(b, 1, rt), j, pt), n)
			}
			eq("transparency", fld("Transparency"), u.zero)
			r.check(!e.can(u.And(st.pc, fld("Invisible"))), ruleLayers, "visible "+key, pos, "the picture is not seen")
			eq("mode", fld("Mode"), u.zero)
		} else {
			was := func(n string) *T { return e.field(w.val, fieldIndex(lt, n), lt) }
			for _, n := range []string{"Name", "Transparency", "Invisible"} {
				eq(strings.ToLower(n), fld(n), was(n))
			}
			for c := 0; c < 2; c++ {
				for j := 0; j < 2; j++ {
					eq("bounds", e.field(e.field(b, c, rt), j, pt), e.field(e.field(was("LayerBounds"), c, rt), j, pt))
				}
			}
			if m := was("Mode"); m == u.zero {
				eq("mode", fld("Mode"), m)
			}
		}
		img := u.Restrict(fld("Image"), st.pc)
		if w.mask != nil {
			if !r.check(img.op == OIface && types.Identical(e.typs[img.aux], mt), ruleLayers, "mask "+key, pos, "the mask is lost") {
				continue
			}
			ms := img.args[0]
			img = u.Restrict(e.field(ms, fieldIndex(mt, "Image"), mt), st.pc)
			mask := u.Restrict(e.field(ms, fieldIndex(mt, "Mask"), mt), st.pc)
			ev := t.pics[mask]
			r.check(ev != nil && t.image(ev).op == OIface && t.image(ev).args[0] == w.mask, ruleLayers, "mask "+key, pos, "it is another mask")
		}
		if w.group {
			if r.check(img.op == OIface && types.Identical(e.typs[img.aux], r.p.named("", "Image")), rulePlace, "group "+key, pos, "the group is no group any more") {
				t.compare(key, img, st, w.inner, false)
			}
			continue
		}
		var ev *Event
		if img.op == OIface {
			ev = t.pics[img.args[0]]
		}
		if !r.check(ev != nil, ruleLayers, "picture "+key, pos, "it has no picture") {
			continue
		}
		pic := t.image(ev)
		if w.plain == nil {
			r.check(pic == w.img, ruleLayers, "picture "+key, pos, "it has the picture of another layer")
			continue
		}
		// a picture that is moved to the origin
		x, y := e.symbolic("x", types.Typ[types.Int]), e.symbolic("y", types.Typ[types.Int])
		in := &State{pc: u.And(st.pc, u.And(u.And(u.GE0(x), u.GE0(y)), u.And(u.GE0(u.subP(u.Int(1<<20), x)), u.GE0(u.subP(u.Int(1<<20), y))))), mem: st.mem}
		at := func(pc, p, x, y *T) *T {
			m := e.p.method(e.typs[p.aux], "At")
			v, out := e.call(&State{pc: pc, mem: st.mem}, m, []*T{p.args[0], x, y}, nil)
			if out == nil {
				panic(tooComplex("At"))
			}
			return v
		}
		min := e.field(w.plain, 0, rt)
		want := at(in.pc, w.img, u.addP(x, e.field(min, 0, pt)), u.addP(y, e.field(min, 1, pt)))
		d := ""
		for _, l := range leaves(u.Restrict(pic, in.pc)) {
			lpc := e.leafPC(in.pc, l)
			if !e.can(lpc) || d != "" {
				continue
			}
			d = "it has no pixels"
			if l.t.op == OIface {
				d = e.differ(at(lpc, l.t, x, y), want, lpc, 0)
			}
		}
		r.check(d == "", ruleLayers, "picture "+key, pos, "the pixels are not those of the image: "+clip(d, 300))
	}
}

// roundTrip writes and reads an image of some shape.
func (r *Run) roundTrip(s shape) {
	defer func() {
		switch b := recover().(type) {
		case nil:
		case badTrip:
			r.viol(ruleLayers, s.name, b.pos, b.text)
		default:
			panic(b)
		}
	}()
	if s.dec == "" {
		s.dec = "Decode"
	}
	t := r.newTrip()
	t.e.backward = s.back
	ws, st := t.encode(s)
	got, out := t.decode(s.dec, st)
	r.noteFuncs(t.e)
	t.compare(s.name, got, out, ws, true)
}
