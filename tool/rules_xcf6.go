package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

func init() {
	register("C26", "", "Value graph of Encode on images of given sizes whose bytes are symbols: what is written at each place is expanded by the rules of the format (tiles, planes, runs) and compared with the pixels.", ruleC26)
	register("C27", "", "Value graph of Decode and DecodeCompressed over files of given sizes whose bytes are symbols, laid out by the rules of the format; the pixels of the images that come out are compared with what the file holds.", ruleC27)
}

// pixels are those of a picture: bytes that are symbols, such that those of
// another run differ from those before.
type pixels struct {
	t        *trip
	w, h     int
	channels int
	runs     []int // lengths of runs, again and again; negative ones are as many different bytes
	index    int   // channel that is an index of a palette, or -1
	name     string
	memo     map[string]*T
}

// ids says to which run each byte of a plane belongs.
func (p *pixels) ids(n int) []int {
	var out []int
	id := 0
	for i := 0; len(out) < n; i++ {
		l := p.runs[i%len(p.runs)]
		if l > 0 {
			for k := 0; k < l; k++ {
				out = append(out, id)
			}
			id++
			continue
		}
		for k := 0; k < -l; k++ {
			out = append(out, id)
			id++
		}
	}
	return out[:n]
}

type tile struct{ x, y, w, h int }

func (p *pixels) tiles() []tile {
	var ts []tile
	for y := 0; y < p.h; y += 64 {
		for x := 0; x < p.w; x += 64 {
			ts = append(ts, tile{x, y, min(64, p.w-x), min(64, p.h-y)})
		}
	}
	return ts
}

// plane gives the bytes of a channel of a tile.
func (p *pixels) plane(k, c int) []*T {
	tl := p.tiles()[k]
	var out []*T
	for _, id := range p.ids(tl.w * tl.h) {
		if c == p.index {
			out = append(out, p.t.u.Int(int64((id+k)%3)))
			continue
		}
		key := fmt.Sprint(p.name, k, ".", c, ".", id)
		v := p.memo[key]
		if v == nil {
			lo := int64(id % 2 * 128)
			v = ranged(p.t.e.symbolic("byte"+key, types.Typ[types.Uint8]), lo, lo+127)
			p.memo[key] = v
		}
		out = append(out, v)
	}
	return out
}

// at gives the channels of a pixel.
func (p *pixels) all() [][][]*T {
	out := make([][][]*T, p.h)
	for y := range out {
		out[y] = make([][]*T, p.w)
	}
	for k, tl := range p.tiles() {
		for c := 0; c < p.channels; c++ {
			for i, v := range p.plane(k, c) {
				y, x := tl.y+i/tl.w, tl.x+i%tl.w
				out[y][x] = append(out[y][x], v)
			}
		}
	}
	return out
}

type pixelShape struct {
	name string
	w, h int
	runs []int
}

func pixelShapes(tier string, channels int) []pixelShape {
	differ, one := []int{-1}, []int{10000}
	few := []int{1, 2, 1, 3, 4, 1, 5, 2, 2, -3, 6, 1, 3, -7, 4, 4}
	ss := []pixelShape{
		{"one pixel", 1, 1, differ},
		{"3 by 2, runs", 3, 2, []int{2, 3, 1}},
		{"64 by 1", 64, 1, few},
		{"65 by 2", 65, 2, few},
		{"2 by 65", 2, 65, few},
		{"64 by 3, one colour", 64, 3, one},
		{"64 by 8, long runs", 64, 8, []int{126, 1, 127, 1, 128, 2, 129}},
		{"64 by 10, between runs", 64, 10, []int{-126, 5, -127, 4, -128, 6, -129, 3, -10000}},
	}
	if channels == 1 {
		ss = append(ss, pixelShape{"65 by 66", 65, 66, append([]int{-200, 256, 255, 257, -255, 4, -256, 4, -257}, few...)},
			pixelShape{"64 by 66, one colour", 64, 66, one}, pixelShape{"130 by 2", 130, 2, few}, pixelShape{"128 by 64", 128, 64, []int{3000, 1000, -500}})
	}
	if tier == "thorough" {
		ss = append(ss, pixelShape{"129 by 70", 129, 70, append([]int{-200, 256, 255, 257, -255, 4, -256, 4, -257}, few...)})
		for i := 1; i <= 6; i++ {
			for j := 1; j <= 6; j++ {
				for _, k := range []int{1, -1, 3, -3, 4, -4, 5} {
					ss = append(ss, pixelShape{fmt.Sprint("runs of ", i, j, k), 16, 2, []int{i, k, j}})
				}
			}
		}
	}
	return ss
}

// fixed gives a slice of known elements.
func (t *trip) fixed(typ types.Type, vs []*T) *T {
	o := t.e.newObj("pixels", typ, t.u.mkT(OSeq, "", typ, vs...))
	return t.u.mkT(OSlice, "", typ, t.u.mk(OAddr, o.id), t.u.zero, t.u.Int(int64(len(vs))))
}

// picture makes an image of pixels.
func (p *pixels) picture(kind string) (typ types.Type, v *T) {
	t := p.t
	e, u, r := t.e, t.u, t.r
	rt, pt := r2(r)
	var pix []*T
	var elem types.Type = types.Typ[types.Uint8]
	stride := p.w
	switch kind {
	case "rgba":
		typ, stride = r.stdType("image", "NRGBA"), 4*p.w
	case "gray":
		typ = r.stdType("image", "Gray")
	case "gray with alpha":
		typ, elem = r.p.named("", "GrayAlpha"), r.p.named("lcolor", "GrayAlpha")
	case "indexed":
		typ, elem = r.p.named("", "PalettedAlpha"), r.p.named("lcolor", "IndexedAlpha")
	}
	for _, row := range p.all() {
		for _, px := range row {
			if len(px) == 2 {
				pix = append(pix, u.mkT(OStruct, e.tkey(elem), elem, px...))
			} else {
				pix = append(pix, px...)
			}
		}
	}
	v = e.zero(typ)
	set := func(name string, x *T) { v = e.setField(v, fieldIndex(typ, name), x, typ) }
	set("Pix", t.fixed(types.NewSlice(elem), pix))
	set("Stride", u.Int(int64(stride)))
	z := u.mkT(OStruct, e.tkey(pt), pt, u.zero, u.zero)
	set("Rect", u.mkT(OStruct, e.tkey(rt), rt, z, u.mkT(OStruct, e.tkey(pt), pt, u.Int(int64(p.w)), u.Int(int64(p.h)))))
	if kind == "indexed" {
		set("Palette", t.colourMap())
	}
	return typ, v
}

// colourMap is a palette of three known colours.
func (t *trip) colourMap() *T {
	e, u, r := t.e, t.u, t.r
	rgb, ct := r.p.named("lcolor", "RGB"), r.stdType("image/color", "Color")
	t.palette = nil
	for i := int64(0); i < 3; i++ {
		c := u.mkT(OStruct, e.tkey(rgb), rgb, u.Int(10+90*i), u.Int(7*i), u.Int(200-50*i))
		t.palette = append(t.palette, u.mkT(OIface, e.tkey(rgb), ct, c))
	}
	return t.fixed(r.p.named("lcolor", "AlphaPalette"), t.palette)
}

const memio = "vimagination.zapto.org/memio"

func (r *Run) newDeep() *trip {
	t := r.newTrip()
	t.deep = true
	t.e.also = map[string]bool{memio: true, bio: true, "io.ReadFull": true, "io.ReadAtLeast": true}
	t.e.roundMax = 20000
	t.e.maxSteps = 60000000
	return t
}

const rulePixels = "each pixel is written where it belongs"

func (r *Run) eachPicture(rule string, kinds []string, channels map[string]int, f func(kind string, s pixelShape)) {
	type one struct {
		kind string
		s    pixelShape
	}
	// the small ones first; of a kind that has failed no others are looked at
	by := map[string]one{}
	var names []string
	failed := map[string]bool{}
	var mu sync.Mutex
	for n := 0; ; n++ {
		more := false
		for _, k := range kinds {
			if ss := pixelShapes(r.tier, channels[k]); n < len(ss) {
				name := k + ", " + ss[n].name
				by[name] = one{k, ss[n]}
				names = append(names, name)
				more = true
			}
		}
		if !more {
			break
		}
	}
	r.each(rule, names, func(n string) {
		o := by[n]
		mu.Lock()
		skip := failed[o.kind]
		mu.Unlock()
		if skip {
			return
		}
		good := false
		defer func() {
			if !good {
				mu.Lock()
				failed[o.kind] = true
				mu.Unlock()
			}
			switch b := recover().(type) {
			case nil:
			case badTrip:
				r.viol(rule, n, b.pos, b.text)
			default:
				panic(b)
			}
		}()
		before := r.bad()
		f(o.kind, o.s)
		good = r.bad() == before
	})
}

func ruleC26(r *Run) {
	f := r.p.fn("xcf", "Encode")
	if f == nil {
		r.missing("xcf.Encode")
		return
	}
	im := r.stdType("image", "Image")
	channels := map[string]int{"rgba": 4, "gray with alpha": 2, "indexed": 2, "mask": 1}
	r.eachPicture(rulePixels, []string{"rgba", "gray with alpha", "indexed", "mask"}, channels, func(kind string, s pixelShape) {
		t := r.newDeep()
		e, u := t.e, t.u
		p := &pixels{t: t, w: s.w, h: s.h, channels: channels[kind], runs: s.runs, index: -1, memo: map[string]*T{}}
		if kind == "indexed" {
			p.index = 0
		}
		iface := func(typ types.Type, v *T) *T {
			o := e.newObj("picture", typ, v)
			return u.mkT(OIface, e.tkey(ptrTo(typ)), im, u.mk(OAddr, o.id))
		}
		var arg *T
		if kind == "mask" {
			under := &pixels{t: t, w: s.w, h: s.h, channels: 2, runs: []int{100000}, index: -1, memo: map[string]*T{}, name: "under"}
			pic := iface(under.picture("gray with alpha"))
			mt, lt, it := r.p.named("", "MaskedImage"), r.p.named("", "Layer"), r.p.named("", "Image")
			ms := e.setField(e.zero(mt), fieldIndex(mt, "Image"), pic, mt)
			gt, gv := p.picture("gray")
			o := e.newObj("mask", gt, gv)
			ms = e.setField(ms, fieldIndex(mt, "Mask"), u.mk(OAddr, o.id), mt)
			l := e.setField(e.zero(lt), fieldIndex(lt, "Image"), u.mkT(OIface, e.tkey(mt), im, ms), lt)
			l = e.setField(l, fieldIndex(lt, "LayerBounds"), e.field(gv, fieldIndex(gt, "Rect"), gt), lt)
			l = e.setField(l, fieldIndex(lt, "Name"), u.Str(""), lt)
			arg = u.mkT(OIface, e.tkey(it), im, t.fixed(it, []*T{l}))
			t.model = t.global(modPath+"/lcolor", "GrayAlphaModel")
		} else {
			arg = iface(p.picture(kind))
		}
		mi := paramOf(f, "image.Image")
		if mi < 0 {
			panic(tooComplex("parameters of Encode"))
		}
		res, out := e.call(e.start(), f, e.args(f, map[int]*T{mi: arg}), nil)
		r.noteFuncs(e)
		if out == nil {
			t.fail("nothing can be written")
		}
		good := e.success(f, res, out)
		if !e.always(out.pc, good) {
			t.fail("an error is given")
		}
		x := &xfile{t: t, st: &State{pc: good, mem: out.mem}}
		x.st = x.st.clone()
		pic, mask := x.pictures()
		if kind == "mask" {
			pic = mask
		}
		x.planes(pic, p, kind+", "+s.name)
	})
}

// known is a number that has to be known.
func (x *xfile) known(what string) int64 {
	n, ok := x.num().intVal()
	if !ok {
		x.t.fail("it is not known what is written as the " + what)
	}
	return n
}

func (x *xfile) skip(n int64) { x.seek(x.t.u.addP(x.pos(), x.t.u.Int(n))) }

// pictures finds the picture and the mask of the first layer.
func (x *xfile) pictures() (pic, mask *T) {
	t, u := x.t, x.t.u
	skip := func() {
		for i := 0; i < 40; i++ {
			id, n := x.known("number of a property"), x.known("length of a property")
			if id == 0 {
				return
			}
			x.skip(n)
		}
		t.fail("the properties have no end")
	}
	x.seek(u.Int(26))
	skip()
	x.seek(x.num())
	x.skip(12)
	x.skip(x.known("length of a name"))
	skip()
	return x.num(), x.num()
}

// planes expands the pixels that are written at a place.
func (x *xfile) planes(at *T, p *pixels, key string) {
	t, u, r := x.t, x.t.u, x.t.r
	pos := r.pos(r.p.fn("xcf", "Encode").Pos())
	is := func(what string, want int) {
		n := x.known(what)
		if !r.check(n == int64(want), rulePixels, what+", "+key, pos, fmt.Sprintf("%d is written, not %d", n, want)) {
			t.fail("it is no picture")
		}
	}
	if at == u.zero {
		t.fail("no picture is written")
	}
	if p.name == "" && strings.HasPrefix(key, "mask") {
		// a channel: its size, name and properties
		x.seek(at)
		is("width of the mask", p.w)
		is("height of the mask", p.h)
		x.skip(x.known("length of a name"))
		for x.known("number of a property") != 0 {
			x.skip(x.known("length of a property"))
		}
		x.num()
		at = x.num()
	}
	x.seek(at)
	is("width", p.w)
	is("height", p.h)
	is("number of channels", p.channels)
	level := x.num()
	is("end of the levels", 0)
	x.seek(level)
	is("width of the level", p.w)
	is("height of the level", p.h)
	var ptrs []*T
	for range p.tiles() {
		ptrs = append(ptrs, x.num())
	}
	is("end of the tiles", 0)
	for k, tl := range p.tiles() {
		x.seek(ptrs[k])
		for c := 0; c < p.channels; c++ {
			want := p.plane(k, c)
			var got []*T
			for len(got) < len(want) {
				op, ok := x.byt().intVal()
				if !ok {
					t.fail("the kind of a run is not known")
				}
				n := int(op) + 1
				if op == 127 || op == 128 {
					long, ok := t.clean(t.readNumber(x.st, 2, types.Typ[types.Uint16]), x.st.pc).intVal()
					if !ok {
						t.fail("the length of a run is not known")
					}
					n = int(long)
				} else if op > 128 {
					n = 256 - int(op)
				}
				if n == 0 {
					t.fail("a run of nothing")
				}
				if op > 127 {
					for i := 0; i < n; i++ {
						got = append(got, x.byt())
					}
				} else {
					for v := x.byt(); n > 0; n-- {
						got = append(got, v)
					}
				}
			}
			bad := ""
			for i := range want {
				if i >= len(got) || len(got) > len(want) {
					bad = fmt.Sprintf("%d bytes are written, not %d", len(got), len(want))
				} else if got[i] != want[i] && bad == "" {
					bad = fmt.Sprintf("for the pixel %d, %d of the tile: %v", i%tl.w, i/tl.w, clip(got[i].String(), 200))
				}
			}
			r.check(bad == "", rulePixels, fmt.Sprintf("tile %d, channel %d, %s", k, c, key), pos, bad)
		}
	}
}

// builder lays out a file.
type builder struct {
	t  *trip
	st *State
	at int64
}

func (b *builder) num(n int64, size int64) {
	b.t.put(b.st, b.t.u.Int(b.at), b.t.u.Int(size), b.t.u.Int(n), b.t.e.tkey(unsigned[size]))
	b.at += size
}

func (b *builder) nums(ns ...int64) {
	for _, n := range ns {
		b.num(n, 4)
	}
}

func (b *builder) bytes(vs ...*T) {
	for _, v := range vs {
		b.t.put(b.st, b.t.u.Int(b.at), b.t.u.one, v, b.t.e.tkey(types.Typ[types.Uint8]))
		b.at++
	}
}

func (b *builder) small(ns ...int64) {
	for _, n := range ns {
		b.bytes(b.t.u.Int(n))
	}
}

// tokens gives the runs of a plane, in all the forms that there are.
func (b *builder) tokens(vs []*T, form int) {
	for i := 0; i < len(vs); form++ {
		n := 1
		for i+n < len(vs) && vs[i+n] == vs[i] {
			n++
		}
		long := form%3 == 1
		if n > 1 || form%4 == 3 {
			if long && n < 1<<16 {
				b.small(127)
				b.num(int64(n), 2)
			} else {
				n = min(n, 127)
				b.small(int64(n - 1))
			}
			b.bytes(vs[i])
			i += n
			continue
		}
		for i+n < len(vs) && (vs[i+n] != vs[i+n-1] || form%5 == 2 && n < 6) {
			n++
		}
		if long {
			b.small(128)
			b.num(int64(n), 2)
		} else {
			n = min(n, 127)
			b.small(int64(256 - n))
		}
		b.bytes(vs[i : i+n]...)
		i += n
	}
}

// hierarchy lays out the pixels of an image.
func (b *builder) hierarchy(p *pixels, compressed bool) {
	b.nums(int64(p.w), int64(p.h), int64(p.channels), b.at+20, 0)
	ts := p.tiles()
	b.nums(int64(p.w), int64(p.h))
	ptrs := b.at
	b.at += int64(4*len(ts) + 4)
	// the tiles the other way round
	for k := len(ts) - 1; k >= 0; k-- {
		at := b.at
		b.at = ptrs + int64(4*k)
		b.nums(at)
		b.at = at
		for c := 0; c < p.channels; c++ {
			if vs := p.plane(k, c); compressed {
				b.tokens(vs, k+c)
			} else {
				b.bytes(vs...)
			}
		}
	}
	at := b.at
	b.at = ptrs + int64(4*len(ts))
	b.nums(0)
	b.at = at
}

const rulePixelsRead = "each pixel is read from where it belongs"

func ruleC27(r *Run) {
	kinds := []string{"RGB", "RGB with alpha", "gray", "gray with alpha", "indexed", "indexed with alpha", "mask"}
	of := []int{3, 4, 1, 2, 1, 2, 1}
	channels := map[string]int{}
	var all []string
	for i, k := range kinds {
		for _, how := range []string{"Decode of plain ", "Decode of ", "DecodeCompressed of ", "DecodeCompressed of plain "} {
			// the order of the bytes of a plain tile of several channels is not claimed
			if strings.HasSuffix(how, "plain ") && of[i] > 1 || strings.HasPrefix(how, "DecodeCompressed of plain") && i != 2 {
				continue
			}
			channels[how+k] = of[i]
			all = append(all, how+k)
		}
	}
	ct := r.stdType("image/color", "Color")
	r.eachPicture(rulePixelsRead, all, channels, func(how string, s pixelShape) {
		t := r.newDeep()
		e, u := t.e, t.u
		name, kind, _ := strings.Cut(how, " of ")
		plain := strings.HasPrefix(kind, "plain ")
		kind = strings.TrimPrefix(kind, "plain ")
		typ := int64(0)
		for kinds[typ] != kind {
			typ++
		}
		p := &pixels{t: t, w: s.w, h: s.h, channels: channels[how], runs: s.runs, index: -1, memo: map[string]*T{}}
		under := p
		if kind == "mask" {
			typ = 2
			under = &pixels{t: t, w: s.w, h: s.h, channels: 1, runs: []int{100000}, index: -1, memo: map[string]*T{}, name: "under"}
		}
		if typ > 3 {
			p.index = 0
			t.colourMap()
		}
		b := &builder{t: t, st: e.start()}
		for _, c := range []byte("gimp xcf v003\x00") {
			b.small(int64(c))
		}
		b.nums(int64(s.w), int64(s.h), typ>>1)
		if typ > 3 {
			b.nums(1, 13, 3)
			for _, c := range t.palette {
				b.bytes(c.args[0].args...)
			}
		}
		b.nums(17, 1)
		b.small(int64(b2i(!plain)))
		b.nums(0, 0, b.at+20, 0, 0)
		b.nums(int64(s.w), int64(s.h), typ, 0, 0, 0) // no name, no properties
		ptrs := b.at
		b.at += 8
		at := b.at
		b.hierarchy(under, !plain)
		mask := int64(0)
		if kind == "mask" {
			mask = b.at
			b.nums(int64(s.w), int64(s.h), 0, 0, 0, b.at+24)
			b.hierarchy(p, !plain)
		}
		b.at = ptrs
		b.nums(at, mask)
		got, out := t.decode(name, b.st)
		r.noteFuncs(e)
		lt, mt := r.p.named("", "Layer"), r.p.named("", "MaskedImage")
		img := u.Restrict(e.field(t.list(got, out, 1)[0], fieldIndex(lt, "Image"), lt), out.pc)
		if kind == "mask" {
			if img.op != OIface || !types.Identical(e.typs[img.aux], mt) {
				t.fail("there is no mask")
			}
			gt := ptrTo(r.stdType("image", "Gray"))
			img = u.mkT(OIface, e.tkey(gt), r.stdType("image", "Image"), u.Restrict(e.field(img.args[0], fieldIndex(mt, "Mask"), mt), out.pc))
		}
		call := func(v *T, name string, args ...*T) *T {
			v = u.Restrict(v, out.pc)
			if v.op != OIface {
				t.fail("there is no picture")
			}
			m := e.p.method(e.typs[v.aux], name)
			st := out.clone()
			res, o := e.call(st, m, append([]*T{v.args[0]}, args...), nil)
			if o == nil || !e.always(out.pc, o.pc) {
				t.fail(name + " does not return")
			}
			if name == "At" {
				out = &State{pc: out.pc, mem: o.mem}
			}
			return res
		}
		pos := r.pos(r.p.fn("xcf", name).Pos())
		px := p.all()
		nt := r.stdType("image/color", "NRGBA")
		ff := u.Int(255)
		bad, points := "", 0
		for y, row := range px {
			for x, c := range row {
				edge := x%64 < 2 || x%64 == 63 || y%64 < 2 || y%64 == 63 || x == s.w-1 || y == s.h-1
				if s.w*s.h > 700 && !(edge && (x+y)%3 == 0) || bad != "" {
					continue
				}
				points++
				colour := call(img, "At", u.Int(int64(x)), u.Int(int64(y)))
				var want *T
				switch typ {
				case 0:
					want = u.mkT(OStruct, e.tkey(nt), nt, c[0], c[1], c[2], ff)
				case 1:
					want = u.mkT(OStruct, e.tkey(nt), nt, c...)
				case 2:
					want = u.mkT(OStruct, e.tkey(nt), nt, c[0], c[0], c[0], ff)
				case 3:
					want = u.mkT(OStruct, e.tkey(nt), nt, c[0], c[0], c[0], c[1])
				default:
					i, _ := c[0].intVal()
					k := t.palette[i].args[0].args
					a := ff
					if typ == 5 {
						a = c[1]
					}
					want = u.mkT(OStruct, e.tkey(nt), nt, k[0], k[1], k[2], a)
				}
				wanted := u.mkT(OIface, e.tkey(nt), ct, want)
				if colour == wanted {
					continue
				}
				if d := e.differ(call(colour, "RGBA"), call(wanted, "RGBA"), out.pc, 0); d != "" {
					bad = fmt.Sprintf("the pixel at %d, %d is not what is in the file: %s", x, y, clip(d, 300))
				}
			}
		}
		r.check(bad == "", rulePixelsRead, how+", "+s.name, pos, bad)
	})
}
