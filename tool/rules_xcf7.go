package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C28", "", "Value graph of Encode, Decode, DecodeCompressed and DecodeConfig in which one of the accesses to the file, each in turn, fails and the others go well: the result must be an error.", ruleC28)
}

func second(u *U, v *T) *T {
	return u.lift1(func(t *T) *T {
		if t.op != OTuple || len(t.args) < 2 {
			panic(tooComplex("a result"))
		}
		return t.args[1]
	}, v)
}

const (
	ruleTold = "a failure is told of"
	ruleEnd  = "the end of the file is an error"
)

// layerOf makes a layer.
func (t *trip) layerOf(img *T, bounds *T, name string) *T {
	lt := t.r.p.named("", "Layer")
	l := t.e.setField(t.e.zero(lt), fieldIndex(lt, "Image"), img, lt)
	l = t.e.setField(l, fieldIndex(lt, "LayerBounds"), bounds, lt)
	return t.e.setField(l, fieldIndex(lt, "Name"), t.u.Str(name), lt)
}

// subject makes the picture that is encoded.
func (t *trip) subject(kind string) *T {
	e, u, r := t.e, t.u, t.r
	im := r.stdType("image", "Image")
	pic := func(name, kind string, ch int) (typ types.Type, v *T) {
		p := &pixels{t: t, w: 3, h: 2, channels: ch, runs: []int{4, -2}, index: -1, memo: map[string]*T{}, name: name}
		if kind == "indexed" {
			p.index = 0
		}
		return p.picture(kind)
	}
	iface := func(typ types.Type, v *T) *T {
		o := e.newObj("picture", typ, v)
		return u.mkT(OIface, e.tkey(ptrTo(typ)), im, u.mk(OAddr, o.id))
	}
	switch kind {
	case "rgba":
		return iface(pic("", "rgba", 4))
	case "indexed":
		return iface(pic("", "indexed", 2))
	}
	mt, it := r.p.named("", "MaskedImage"), r.p.named("", "Image")
	t.model = t.global(modPath+"/lcolor", "GrayAlphaModel")
	gt, gv := pic("mask", "gray", 1)
	rect := e.field(gv, fieldIndex(gt, "Rect"), gt)
	o := e.newObj("mask", gt, gv)
	ms := e.setField(e.zero(mt), fieldIndex(mt, "Image"), iface(pic("under", "gray with alpha", 2)), mt)
	ms = e.setField(ms, fieldIndex(mt, "Mask"), u.mk(OAddr, o.id), mt)
	masked := t.layerOf(u.mkT(OIface, e.tkey(mt), im, ms), rect, "m")
	plain := t.layerOf(iface(pic("second", "gray with alpha", 2)), rect, "second")
	if kind == "masked" {
		return u.mkT(OIface, e.tkey(it), im, t.fixed(it, []*T{masked, plain}))
	}
	group := u.mkT(OIface, e.tkey(it), im, t.fixed(it, []*T{plain}))
	return u.mkT(OIface, e.tkey(it), im, t.fixed(it, []*T{t.layerOf(group, rect, "group"), plain}))
}

func (b *builder) text(s string) {
	b.nums(int64(len(s) + 1))
	for _, c := range []byte(s) {
		b.small(int64(c))
	}
	b.small(0)
}

// property writes a property whose length is that of what is written in it.
func (b *builder) property(kind int64, f func()) {
	b.nums(kind)
	at := b.at
	b.at += 4
	f()
	end := b.at
	b.at = at
	b.nums(end - at - 4)
	b.at = end
}

func (b *builder) zeros(n int) {
	for ; n > 0; n-- {
		b.small(0)
	}
}

func (b *builder) pointer(wide bool, p int64) {
	if wide {
		b.num(p, 8)
	} else {
		b.num(p, 4)
	}
}

// sample lays out a file of a group with a layer in it and a layer with a
// mask, with all sorts of properties.
func (b *builder) sample(t *trip, base int64, wide, plain bool) {
	version := "gimp xcf v003\x00"
	if wide {
		version = "gimp xcf v011\x00"
	}
	for _, c := range []byte(version) {
		b.small(int64(c))
	}
	b.nums(3, 2, base)
	if wide {
		b.nums(150)
	}
	t.colourMap()
	b.property(1, func() {
		b.nums(3)
		for _, c := range t.palette {
			b.bytes(c.args[0].args...)
		}
	})
	b.property(17, func() { b.small(int64(b2i(!plain))) })
	b.property(18, func() { b.zeros(5) })
	b.property(19, func() { b.zeros(8) })
	b.property(20, func() { b.nums(1) })
	b.property(21, func() { b.text("p"); b.nums(1, 3); b.zeros(3) })
	b.property(22, func() { b.nums(1) })
	b.property(24, func() { // a unit
		b.nums(0, 2)
		for _, s := range []string{"a", "b", "c", "d", "e"} {
			b.text(s)
		}
	})
	b.property(23, func() { // paths
		b.nums(0, 1)
		b.text("p")
		b.nums(0)
		b.small(4)
		b.nums(1, 1, 3, 1, 5)
		b.zeros(12)
	})
	b.property(25, func() { // vectors
		b.nums(1, 0, 1)
		b.text("v")
		b.nums(1, 1, 0, 1, 1)
		b.text("q")
		b.nums(0, 2)
		b.zeros(2)
		b.nums(1, 1, 2, 1)
		b.zeros(12)
	})
	b.property(99, func() { b.zeros(7) })
	b.nums(0, 0)
	size := int64(4)
	if wide {
		size = 8
	}
	list := b.at
	b.at += 4 * size
	var layers []int64
	for n := 0; n < 3; n++ {
		layers = append(layers, b.at)
		typ := base*2 + 1
		b.nums(3, 2, typ)
		b.text("layer")
		b.property(6, func() { b.nums(200) })
		b.property(8, func() { b.nums(1) })
		b.property(15, func() { b.nums(1, 0) })
		b.property(7, func() { b.nums(0) })
		b.property(21, func() { b.text("p"); b.nums(1, 3); b.zeros(3) })
		switch n {
		case 0:
			b.property(29, func() {})
			b.property(30, func() { b.nums(0) })
		case 1:
			b.property(30, func() { b.nums(0, 0) })
		case 2:
			b.property(30, func() { b.nums(1) })
		}
		b.property(31, func() { b.nums(0) })
		b.nums(0, 0)
		at := b.at
		b.at += 2 * size
		pic, mask := b.at, int64(0)
		ch := int64(2)
		if base == 0 {
			ch = 4
		}
		p := &pixels{t: t, w: 3, h: 2, channels: int(ch), runs: []int{4, -2}, index: -1, memo: map[string]*T{}, name: fmt.Sprint(n)}
		if base == 2 {
			p.index = 0
		}
		b.wideHierarchy(p, !plain, wide)
		if n == 2 {
			mask = b.at
			b.nums(3, 2)
			b.text("mask")
			b.property(6, func() { b.nums(255) })
			b.property(98, func() { b.zeros(5) })
			b.nums(0, 0)
			b.pointer(wide, b.at+size)
			b.wideHierarchy(&pixels{t: t, w: 3, h: 2, channels: 1, runs: []int{4, -2}, index: -1, memo: map[string]*T{}, name: "mask"}, !plain, wide)
		}
		end := b.at
		b.at = at
		b.pointer(wide, pic)
		b.pointer(wide, mask)
		b.at = end
	}
	b.at = list
	for _, l := range layers {
		b.pointer(wide, l)
	}
	b.pointer(wide, 0)
}

// wideHierarchy lays out the pixels of an image of one tile.
func (b *builder) wideHierarchy(p *pixels, compressed, wide bool) {
	size := int64(4)
	if wide {
		size = 8
	}
	b.nums(int64(p.w), int64(p.h), int64(p.channels))
	b.pointer(wide, b.at+2*size)
	b.pointer(wide, 0)
	b.nums(int64(p.w), int64(p.h))
	b.pointer(wide, b.at+2*size)
	b.nums(0)
	if wide {
		b.nums(0)
	}
	for c := 0; c < p.channels; c++ {
		if vs := p.plane(0, c); compressed {
			b.tokens(vs, c)
		} else {
			b.bytes(vs...)
		}
	}
}

func ruleC28(r *Run) {
	var names []string
	for _, k := range []string{"rgba", "indexed", "masked", "groups"} {
		names = append(names, "Encode, "+k)
	}
	for _, base := range []string{"RGB", "gray", "indexed"} {
		for _, how := range []string{"runs", "plain", "wide pointers"} {
			if few := map[string]string{"RGB": "plain", "gray": "wide pointers", "indexed": "runs"}; r.tier != "thorough" && how != few[base] {
				continue
			}
			for _, f := range []string{"Decode", "DecodeCompressed", "DecodeConfig"} {
				names = append(names, f+", "+base+", "+how)
			}
		}
	}
	r.each(ruleTold, names, func(name string) {
		parts := strings.Split(name, ", ")
		f := r.p.fn("xcf", parts[0])
		if f == nil {
			r.missing("xcf." + parts[0])
			return
		}
		pos := r.pos(f.Pos())
		// try gives the number of accesses, where one fails, and what is wrong
		try := func(failAt int, broken string) (n int, where, bad string) {
			t := r.newDeep()
			defer func() {
				switch b := recover().(type) {
				case nil:
				case badTrip:
					where, bad = t.where, b.text
				default:
					panic(b)
				}
			}()
			e := t.e
			t.faults, t.failAt = true, failAt
			st := e.start()
			pkg, n2, _ := strings.Cut(broken, ".")
			t.broken = t.global(pkg, n2)
			given := map[int]*T{}
			if parts[0] == "Encode" {
				mi := paramOf(f, "image.Image")
				if mi < 0 {
					panic(tooComplex("parameters of Encode"))
				}
				given[mi] = t.subject(parts[1])
				st = e.start()
			} else {
				b := &builder{t: t, st: st}
				b.sample(t, map[string]int64{"RGB": 0, "gray": 1, "indexed": 2}[parts[1]], parts[2] == "wide pointers", parts[2] == "plain")
				st.mem.set(t.ghost.id, e.u.zero)
			}
			res, out := e.call(st, f, e.args(f, given), nil)
			r.noteFuncs(e)
			if out == nil || !e.always(st.pc, out.pc) {
				return 0, t.where, "it does not return"
			}
			good := e.success(f, res, out)
			switch {
			case failAt == 0 && !e.always(out.pc, good):
				bad = "it cannot be read: " + clip(e.u.Restrict(e.nth(res, resultOf(f, "error"), f), e.u.And(out.pc, e.u.Not(good))).String(), 200)
			case failAt > 0 && e.can(good):
				bad = "no error is given"
			}
			k, ok := e.content(out.mem, t.count.id).intVal()
			if !ok && failAt == 0 {
				panic(tooComplex("the number of accesses"))
			}
			return int(k), t.where, bad
		}
		n, _, bad := try(0, "io.ErrClosedPipe")
		if !r.check(bad == "" && n > 3, ruleTold, name+", all going well", pos, fmt.Sprintf("%s (%d accesses)", bad, n)) {
			return
		}
		for k := 1; k <= n; k++ {
			for _, how := range []string{"io.ErrClosedPipe", "io.EOF"} {
				rule := ruleTold
				if how == "io.EOF" {
					rule = ruleEnd
				}
				_, where, bad := try(k, how)
				if how == "io.EOF" && (parts[0] == "Encode" || strings.HasPrefix(where, "seeking")) {
					continue
				}
				r.check(bad == "", rule, name+", "+where, pos, fmt.Sprintf("of access %d, %s: %s", k, where, bad))
			}
		}
	})
}
