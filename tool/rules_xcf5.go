package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// xcfModes is the table of the format: what the numbers of modes mean.
var xcfModes = strings.Fields("Normal Dissolve Behind Multiply Screen Overlay Difference Addition Subtract DarkenOnly LightenOnly Hue Saturation Color Value Divide Dodge Burn HardLight SoftLight GrainExtract GrainMerge ColorErase " +
	"Overlay Hue Chroma Color Lightness " +
	"Normal Behind Multiply Screen Difference Addition Subtract DarkenOnly LightenOnly Hue Saturation Color Value Divide Dodge Burn HardLight SoftLight GrainExtract GrainMerge VividLight PinLight LinearLight HardMix Exclusion LinearBurn DarkenOnly LightenOnly Luminance ColorErase Erase Merge Split PassThrough")

const ruleModes = "blend modes and their numbers"

func ruleC24(r *Run) {
	modes := r.modes()
	f, dec := r.p.fn("xcf", "Encode"), r.p.fn("xcf", "Decode")
	if f == nil || dec == nil || len(modes) == 0 {
		r.missing("xcf.Encode, xcf.Decode or the modes")
		return
	}
	held := map[string]bool{}
	for _, n := range xcfModes {
		held[n] = true
		if _, ok := modes[n]; !ok {
			r.missing("Composite" + n)
		}
	}
	var names []string
	for n := range modes {
		for _, b := range []string{"", "gray", "indexed"} {
			names = append(names, n+" "+b)
		}
	}
	sort.Strings(names)
	bad := func(key string) {
		switch b := recover().(type) {
		case nil:
		case badTrip:
			r.viol(ruleModes, key, b.pos, b.text)
		default:
			panic(b)
		}
	}
	r.each(ruleModes, names, func(name string) {
		n, base, _ := strings.Cut(name, " ")
		defer bad(name)
		s := shape{name: name, nodes: []node{{mode: modes[n]}, {}}, base: base}
		t := r.newTrip()
		_, st := t.encode(s)
		_, num := t.modeAt(s, st)
		id, ok := num.intVal()
		pos := r.pos(f.Pos())
		if !r.check(ok, ruleModes, "written for "+name, pos, "it is not one number") {
			return
		}
		what := "nothing"
		if id >= 0 && int(id) < len(xcfModes) {
			what = xcfModes[id]
		}
		switch {
		case held[n]:
			r.check(what == n, ruleModes, "written for "+name, pos, fmt.Sprintf("the number %d is written, which means %s", id, what))
		case n == "Luminosity":
			r.check(what == "Luminance" || what == "Normal", ruleModes, "written for "+name, pos, fmt.Sprintf("the number %d is written, which means %s", id, what))
		default:
			r.check(what == "Normal", ruleModes, "written for "+name, pos, fmt.Sprintf("the format has no such mode, yet the number %d is written, which means %s", id, what))
		}
		if base != "indexed" && held[n] {
			got, out := t.decode("Decode", st)
			m := t.modeOf(got, out)
			r.check(m == t.u.Int(modes[n]), ruleModes, "kept: "+name, pos, "it is read as another mode: "+m.String())
		}
		r.noteFuncs(t.e)
	})
	// every number, read
	r.each(ruleModes, []string{"", "gray"}, func(base string) {
		t := r.newTrip()
		s := shape{nodes: []node{{}, {}}, base: base}
		var st *State
		var at *T
		func() {
			defer bad("read, " + base)
			_, st = t.encode(s)
			at, _ = t.modeAt(s, st)
		}()
		if at == nil {
			return
		}
		pos := r.pos(dec.Pos())
		for i := 0; i <= len(xcfModes); i++ {
			id, want := t.u.Int(int64(i)), "Normal"
			key := strings.TrimSpace(fmt.Sprintf("read for %d %s", i, base))
			if i < len(xcfModes) {
				want = xcfModes[i]
			} else {
				id = ranged(t.e.symbolic("number", types.Typ[types.Uint32]), int64(i), 1<<32-1)
				key = strings.TrimSpace("read for unknown numbers " + base)
			}
			func() {
				defer bad(key)
				t.force = map[*T]*T{at: id}
				m := t.e.mark()
				got, out := t.decode("Decode", st)
				v := t.modeOf(got, out)
				t.e.rollback(m)
				r.check(v == t.u.Int(modes[want]), ruleModes, key, pos, fmt.Sprintf("the number means %s (%d) and is read as %v", want, modes[want], v))
			}()
		}
		r.noteFuncs(t.e)
	})
}

// modeOf gives the mode of the first layer.
func (t *trip) modeOf(got *T, st *State) *T {
	lt := t.r.p.named("", "Layer")
	return t.u.Restrict(t.e.field(t.list(got, st, 2)[0], fieldIndex(lt, "Mode"), lt), st.pc)
}

// modeAt is where the mode of the first layer is written, and what is.
func (t *trip) modeAt(s shape, st *State) (at, id *T) {
	x := &xfile{t: t, st: st.clone(), mode: map[string]*T{}}
	x.file(s, nil)
	if at = x.mode["0"]; at == nil {
		t.fail("no mode is written")
	}
	x.seek(at)
	return at, x.num()
}

// xfile reads a file by the rules of the format.
type xfile struct {
	t    *trip
	st   *State
	mode map[string]*T // where the modes of the layers are
	key  string
}

const ruleFile = "what is written is what the format asks for"

func (x *xfile) check(ok bool, what, text string) bool {
	if x.key == "" {
		if !ok {
			x.t.fail(what + ": " + text)
		}
		return ok
	}
	return x.t.r.check(ok, ruleFile, what+", "+x.key, x.t.r.pos(x.t.r.p.fn("xcf", "Encode").Pos()), text)
}

func (x *xfile) pos() *T { return x.t.e.content(x.st.mem, x.t.ghost.id) }
func (x *xfile) seek(p *T) {
	x.st.mem.set(x.t.ghost.id, x.t.clean(p, x.st.pc))
}
func (x *xfile) num() *T  { return x.t.clean(x.t.readNumber(x.st, 4, types.Typ[types.Uint32]), x.st.pc) }
func (x *xfile) snum() *T { return x.t.clean(x.t.readNumber(x.st, 4, types.Typ[types.Int32]), x.st.pc) }
func (x *xfile) byt() *T  { return x.t.clean(x.t.readNumber(x.st, 1, types.Typ[types.Uint8]), x.st.pc) }
func (x *xfile) same(what string, a, b *T) {
	d := x.t.e.differ(a, b, x.st.pc, 0)
	x.check(d == "", what, "it is not that of the image: "+clip(d, 300))
}

// text reads a string.
func (x *xfile) text(what string, want *T) {
	t := x.t
	n := x.num()
	at := x.pos()
	if want != nil {
		x.check(t.e.same(x.st.pc, n, t.u.addP(t.e.length(want), t.u.one)), what, "the length of the name is not what is written of it")
		for _, ev := range t.found(at, x.st.pc) {
			if ev.fn == "" {
				v := ev.args[2]
				if v.op == OBox && v.aux == "bytes" {
					v = v.args[0]
				}
				x.check(v == want, what, "another name is written: "+clip(v.String(), 100))
			}
		}
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	o := t.e.newObj("text", bt, t.u.mkT(OZeroArr, t.e.tkey(bt), bt))
	sl := t.u.mkT(OSlice, "", bt, t.u.mk(OAddr, o.id), t.u.zero, n)
	t.readBytes(x.st, sl)
	last := t.u.Restrict(t.e.load(x.st.mem, t.e.elemAddr(sl, t.u.addP(n, t.u.Int(-1)), bt), types.Typ[types.Uint8]), x.st.pc)
	x.check(last == t.u.zero, what, "the name does not end with a zero")
}

// props reads a list of properties; each is given to f with its length, and
// what f leaves of it has to be nothing.
func (x *xfile) props(what string, f func(id int64, n *T)) {
	for i := 0; ; i++ {
		id, ok := x.num().intVal()
		n := x.num()
		if !ok || i > 40 {
			x.t.fail("the number of a property is not known")
		}
		if id == 0 {
			x.check(n == x.t.u.zero, what, "the end of the properties has a length")
			return
		}
		at := x.pos()
		f(id, n)
		x.check(x.t.clean(x.t.u.subP(x.pos(), at), x.st.pc) == n, fmt.Sprintf("property %d of %s", id, what), "its length is not that of what is written of it")
	}
}

func (x *xfile) file(s shape, ws []wrote) {
	t, u, e := x.t, x.t.u, x.t.e
	r := t.r
	_, pt := r2(r)
	x.seek(u.zero)
	bt := types.NewSlice(types.Typ[types.Uint8])
	o := e.newObj("head", bt, u.mkT(OZeroArr, e.tkey(bt), bt))
	x.st.mem.set(o.id, o.init)
	sl := u.mkT(OSlice, "", bt, u.mk(OAddr, o.id), u.zero, u.Int(14))
	t.readBytes(x.st, sl)
	head := ""
	for i := int64(0); i < 14; i++ {
		if n, ok := u.Restrict(e.load(x.st.mem, e.elemAddr(sl, u.Int(i), bt), types.Typ[types.Uint8]), x.st.pc).intVal(); ok {
			head += string([]byte{byte(n)})
		}
	}
	v := -1
	for i, name := range xcfVersions[:4] {
		if head == xcfMagic+name+"\x00" {
			v = i
		}
	}
	x.check(v >= 0, "header", fmt.Sprintf("%q is not the header of a file of this kind", head))
	for j, what := range []string{"width", "height"} {
		x.same(what, x.num(), e.field(t.size, j, pt))
	}
	base := int64(0)
	switch {
	case strings.HasPrefix(s.base, "gray"):
		base = 1
	case s.base == "indexed":
		base = 2
	}
	x.check(x.num() == u.Int(base), "base type", "it is not that of the image")
	compression := int64(0)
	colours := false
	x.props("the image", func(id int64, n *T) {
		switch id {
		case 1:
			colours = true
			if c := x.num(); !x.check(c == u.Int(int64(len(t.palette))), "colour map", "it has another number of colours") {
				panic(tooComplex("colour map"))
			}
			rgb := r.p.named("lcolor", "RGB")
			for i, c := range t.palette {
				for j := 0; j < 3; j++ {
					x.same(fmt.Sprint("colour ", i), x.byt(), e.field(c.args[0], j, rgb))
				}
			}
		case 17:
			compression, _ = x.byt().intVal()
		default:
			x.seek(u.addP(x.pos(), n))
		}
	})
	x.check(colours == (base == 2), "colour map", "it is there exactly in an indexed image")
	x.check(compression == 1, "compression", "the tiles are written as runs and it is not said so")
	var layers []*T
	for {
		p := x.num()
		if p == u.zero {
			break
		}
		if layers = append(layers, p); len(layers) > 2000 {
			t.fail("the list of layers has no end")
		}
	}
	x.check(x.num() == u.zero, "channels", "there are channels")
	if ws == nil && x.key == "" { // only where the modes are
		for i, p := range layers {
			x.layer(p, fmt.Sprint(i), base, nil, nil, nil)
		}
		return
	}
	flatten(ws, nil, [2]*T{u.zero, u.zero}, func(w wrote, path []int, off [2]*T) {
		key := fmt.Sprint("layer ", path)
		if !x.check(len(layers) > 0, key, "it is not in the list of layers") {
			return
		}
		p := layers[0]
		layers = layers[1:]
		x.layer(p, key, base, &w, path, func(b *T) [2]*T {
			rt, pt := r2(r)
			for j := range off {
				off[j] = u.addP(off[j], e.field(e.field(b, 0, rt), j, pt))
			}
			return off
		})
	}, t)
	x.check(len(layers) == 0, "layers", "there are more layers than the image has")
	for _, ev := range t.e.events {
		if ev.kind == "item" && ev.args[1] != u.zero && e.can(u.And(ev.pc, x.st.pc)) {
			x.t.r.check(t.read[ev], ruleFile, "everything has its place, "+x.key, r.pos(ev.pos), fmt.Sprintf("what is written at %v belongs to nothing", ev.args[0]))
		}
	}
}

func flatten(ws []wrote, path []int, off [2]*T, f func(w wrote, path []int, off [2]*T), t *trip) {
	rt, pt := r2(t.r)
	lt := t.r.p.named("", "Layer")
	for i, w := range ws {
		p := append(append([]int{}, path...), i)
		f(w, p, off)
		if len(w.inner) == 0 {
			continue
		}
		b := t.e.field(w.val, fieldIndex(lt, "LayerBounds"), lt)
		in := off
		for j := range in {
			in[j] = t.u.addP(in[j], t.e.field(t.e.field(b, 0, rt), j, pt))
		}
		flatten(w.inner, p, in, f, t)
	}
}

func (x *xfile) layer(p *T, key string, base int64, w *wrote, path []int, place func(b *T) [2]*T) {
	t, u, e := x.t, x.t.u, x.t.e
	lt := t.r.p.named("", "Layer")
	rt, pt := r2(t.r)
	x.seek(p)
	width, height := x.num(), x.num()
	x.check(x.num() == u.Int(base<<1|1), "kind of "+key, "it is not of the base type with transparency")
	var b, name *T
	switch {
	case w == nil:
	case w.plain != nil:
		b, name = w.plain, u.Str("")
	default:
		b = e.field(w.val, fieldIndex(lt, "LayerBounds"), lt)
		name = e.field(w.val, fieldIndex(lt, "Name"), lt)
	}
	if b != nil {
		for j, v := range []*T{width, height} {
			x.same("size of "+key, v, u.subP(e.field(e.field(b, 1, rt), j, pt), e.field(e.field(b, 0, rt), j, pt)))
		}
	}
	x.text("name of "+key, name)
	seen := map[int64]bool{}
	x.props(key, func(id int64, n *T) {
		x.check(!seen[id], fmt.Sprintf("property %d of %s", id, key), "it is there twice")
		seen[id] = true
		switch id {
		case 6:
			v := x.num()
			if w != nil && w.plain == nil {
				x.same("opacity of "+key, v, u.subP(u.Int(255), e.field(w.val, fieldIndex(lt, "Transparency"), lt)))
			} else if w != nil {
				x.same("opacity of "+key, v, u.Int(255))
			}
		case 8:
			v := x.num()
			if w != nil && w.plain == nil {
				x.same("visibility of "+key, v, u.Ite(e.field(w.val, fieldIndex(lt, "Invisible"), lt), u.zero, u.one))
			} else if w != nil {
				x.same("visibility of "+key, v, u.one)
			}
		case 15:
			o := [2]*T{x.snum(), x.snum()}
			if w != nil {
				want := [2]*T{u.zero, u.zero}
				if w.plain == nil {
					want = place(b)
				}
				for j := range o {
					x.same("offset of "+key, o[j], want[j])
				}
			}
		case 7:
			x.mode[key] = x.pos()
			x.num()
		case 29:
			x.check(w == nil || w.group, "group "+key, "it is none")
		case 30:
			for i := range path {
				v := x.num()
				x.check(v == u.Int(int64(path[i])), "path of "+key, fmt.Sprintf("it is %v in place %d", v, i))
			}
			if path == nil {
				x.seek(u.addP(x.pos(), n))
			}
		default:
			x.seek(u.addP(x.pos(), n))
		}
	})
	if w != nil {
		x.check(seen[29] == w.group, "group "+key, "a group is said to be one")
		x.check(seen[30] || len(path) == 1, "path of "+key, "a layer in a group says where it is")
		for _, id := range []int64{6, 8, 15, 7} {
			x.check(seen[id], fmt.Sprintf("property %d of %s", id, key), "it is missing")
		}
	}
	pic, mask := x.num(), x.num()
	if w == nil {
		return
	}
	x.picture(pic, "picture of "+key, func(ev *Event) bool {
		return w.plain != nil || w.group || t.image(ev) == w.img
	}, width, height, []int64{4, 2, 2}[base])
	if w.mask == nil {
		x.check(mask == u.zero, "mask of "+key, "it has none")
		return
	}
	x.seek(mask)
	x.same("size of the mask of "+key, x.num(), width)
	x.same("size of the mask of "+key, x.num(), height)
	x.text("name of the mask of "+key, nil)
	x.props("the mask of "+key, func(id int64, n *T) { x.seek(u.addP(x.pos(), n)) })
	x.picture(x.num(), "mask of "+key, func(ev *Event) bool {
		return t.image(ev).op == OIface && t.image(ev).args[0] == w.mask
	}, width, height, 1)
}

// picture: the pixels of an image are written at a place.
func (x *xfile) picture(p *T, key string, is func(ev *Event) bool, w, h *T, channels int64) {
	t, u, e := x.t, x.t.u, x.t.e
	rt, pt := r2(t.r)
	p = t.clean(p, x.st.pc)
	for _, ev := range t.found(p, x.st.pc) {
		t.read[ev] = true
	}
	for _, ev := range e.events {
		if ev.kind != "pic" || ev.args[0] != p || !e.always(x.st.pc, ev.pc) {
			continue
		}
		x.check(is(ev), key, "it is that of another layer")
		for i, p := range ev.sf.Params {
			v := ev.args[i+1]
			switch ty := p.Type(); {
			case types.Identical(ty, rt):
				for j, want := range []*T{w, h} {
					x.same("size of "+key, u.subP(e.field(e.field(v, 1, rt), j, pt), e.field(e.field(v, 0, rt), j, pt)), want)
					x.same("beginning of "+key, e.field(e.field(v, 0, rt), j, pt), u.zero)
				}
			case intKind(ty) != "":
				x.check(u.Restrict(v, x.st.pc) == u.Int(channels), "channels of "+key, "there are others")
			}
		}
		return
	}
	x.check(false, key, "no pixels are where it should be")
}

func ruleC25(r *Run) {
	r.eachShape(func(s shape) {
		defer func() {
			switch b := recover().(type) {
			case nil:
			case badTrip:
				r.viol(ruleFile, s.name, b.pos, b.text)
			default:
				panic(b)
			}
		}()
		t := r.newTrip()
		ws, st := t.encode(s)
		r.noteFuncs(t.e)
		if ws == nil {
			ws = []wrote{}
		}
		(&xfile{t: t, st: st.clone(), mode: map[string]*T{}, key: s.name}).file(s, ws)
	})
}
