package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "", "Value graphs of RGBA and ToNRGBA of each colour type and of the models, compared field by field with the channel arithmetic that defines them.", ruleC06)
	register("C07", "", "Value graphs of the accessors of each pixel image over a symbolic image and point: the element read or written is that of the row-major address, and only inside the rectangle.", ruleC07)
	register("C08", "", "The accessors are evaluated on the value that SubImage returns, for a symbolic image, rectangle and point, and compared with those of the whole image.", ruleC08)
	register("C09", "", "Loop summaries of Opaque: which elements the loop covers, and what holds of an element when the loop goes on.", ruleC09)
}

// equiv proves that two values are the same wherever pc holds.
func (e *Exec) equiv(a, b, pc *T) bool { return e.differ(a, b, pc, 0) == "" }

func (e *Exec) differ(a, b, pc *T, depth int) string {
	u := e.u
	if a == b || pc == u.tFalse {
		return ""
	}
	a, b = u.Restrict(u.Uncut(a), pc), u.Restrict(u.Uncut(b), pc)
	if a == b {
		return ""
	}
	if depth > 60 {
		return "too many cases"
	}
	if v, by := knownEqual(u, pc); v != nil {
		f := func(y *T) *T {
			if y == v {
				return by
			}
			return nil
		}
		return e.differ(u.Map(a, f), u.Map(b, f), u.Map(pc, f), depth+1)
	}
	at := nestedCase(a)
	if at == nil {
		at = nestedCase(b)
	}
	if at != nil {
		at = u.atom(at)
		for _, c := range []*T{at, u.Not(at)} {
			pc := u.And(pc, c)
			if pc == u.tFalse || e.infeasible(pc) {
				continue
			}
			f := func(y *T) *T {
				if y.op == OIte && y.args[0] == at.args[0] {
					return y.args[1+b2i(c != at)]
				}
				return nil
			}
			if d := e.differ(u.Map(a, f), u.Map(b, f), pc, depth+1); d != "" {
				return d
			}
		}
		return ""
	}
	if a.op == OIte || b.op == OIte {
		x := a
		if x.op != OIte {
			x = b
		}
		at := u.atom(x.args[0])
		for _, c := range []*T{u.And(pc, at), u.And(pc, u.Not(at))} {
			if c == u.tFalse || e.infeasible(c) {
				continue
			}
			if d := e.differ(a, b, c, depth+1); d != "" {
				return d
			}
		}
		return ""
	}
	msg := clip(a.String(), 160) + " is not " + clip(b.String(), 160)
	if pc != u.tTrue {
		msg += " where " + clip(pc.String(), 200)
	}
	switch {
	case a.op == OStruct || b.op == OStruct:
		s := a
		if s.op != OStruct {
			s = b
		}
		t := s.typ
		if t == nil {
			t = e.typs[s.aux]
		}
		if t == nil || a.op == OStruct && b.op == OStruct && len(a.args) != len(b.args) {
			return msg
		}
		for n := range s.args {
			if d := e.differ(e.field(a, n, t), e.field(b, n, t), pc, depth+1); d != "" {
				return d
			}
		}
		return ""
	case a.op == OIface && b.op == OIface && a.aux == b.aux:
		return e.differ(a.args[0], b.args[0], pc, depth+1)
	case a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args), a.op == OSlice && b.op == OSlice, a.op == OAddr && b.op == OAddr && a.aux == b.aux && len(a.args) == len(b.args),
		a.op == OCall && b.op == OCall && a.aux == b.aux && len(a.args) == len(b.args):
		for n := range a.args {
			if d := e.differ(a.args[n], b.args[n], pc, depth+1); d != "" {
				return d
			}
		}
		return ""
	}
	if isNum(a) && isNum(b) {
		bad, _ := e.forall(u.subP(a, b), pc, func(v *Poly, _ *T) []*Poly { return []*Poly{v, v.Neg()} })
		if bad == nil {
			return ""
		}
	}
	if e.infeasible(pc) {
		return ""
	}
	if os.Getenv("LIMCHECK_CUBES") != "" {
		for n, c := range u.cubes(pc) {
			if n < 3 && u.Feasible(c) {
				fmt.Println("CUBE")
				for _, l := range c {
					fmt.Println("  ", l.val, l.atom)
				}
			}
		}
	}
	return msg
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// knownEqual finds a name that the condition says is another term.
func knownEqual(u *U, pc *T) (v, by *T) {
	for pc.op == OIte {
		c, next := pc.args[0], pc.args[1]
		if pc.args[1] == u.tFalse {
			next = pc.args[2]
		}
		if c.op == OEQ && pc.args[2] == u.tFalse {
			p := u.polyOf(c.args[0])
			for _, m := range p.m {
				if len(m.vars) != 1 || m.vars[0].op != OSym || !m.c.IsInt() || !m.c.Num().IsInt64() {
					continue
				}
				if n := m.c.Num().Int64(); n != 1 && n != -1 {
					continue
				}
				v = m.vars[0]
				by := u.fromPoly(p.Scale(new(big.Rat).Neg(m.c)).Add(u.polyOf(v)))
				if !subterms(by)[v] {
					return v, by
				}
			}
		}
		if next == pc.args[1] && pc.args[2] != u.tFalse {
			break
		}
		pc = next
	}
	return nil, nil
}

// nestedCase finds a decision that the argument of a call in the term makes.
func nestedCase(t *T) *T {
	for x := range subterms(t) {
		if x.op != OCall {
			continue
		}
		for _, a := range x.args {
			if a.op == OIte {
				return a.args[0]
			}
		}
	}
	return nil
}

func isNum(t *T) bool {
	switch t.op {
	case OInt, OPoly, ODiv, OWrap, OTDiv, OTRem, OLen, OBit:
		return true
	}
	return t.rngd || t.typ != nil && intKind(t.typ) != ""
}

const coord = 1 << 20

// pixImage is a symbolic image of a type that keeps its pixels in a slice.
type pixImage struct {
	typ                    *types.Named
	ptr                    *T
	pix, stride            *T
	minx, miny, maxx, maxy *T
	sl                     types.Type // of Pix
	et                     types.Type
	wf                     *T // the slice holds the rectangle
	names                  map[string]*T
}

// pixTypes lists the image types of the root package with a slice of pixels.
func (r *Run) pixTypes() []*types.Named {
	var out []*types.Named
	sc := r.p.pkg("").Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		s, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		has := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			has[s.Field(i).Name()] = true
		}
		if has["Pix"] && has["Stride"] && has["Rect"] {
			out = append(out, nt)
		}
	}
	if len(out) < 3 {
		r.missing("three image types with Pix, Stride and Rect")
	}
	return out
}

func (e *Exec) rect(name string) (*T, [4]*T) {
	u := e.u
	var c [4]*T
	for i, n := range []string{"minx", "miny", "maxx", "maxy"} {
		c[i] = u.SymR(name+"."+n, -coord, coord)
	}
	return nil, c
}

// rectTerm makes an image.Rectangle.
func (e *Exec) rectTerm(rt types.Type, c [4]*T) *T {
	pt := rt.Underlying().(*types.Struct).Field(0).Type()
	p := func(x, y *T) *T { return e.u.mkT(OStruct, e.tkey(pt), pt, x, y) }
	return e.u.mkT(OStruct, e.tkey(rt), rt, p(c[0], c[1]), p(c[2], c[3]))
}

func (r *Run) pixImage(e *Exec, t *types.Named) *pixImage {
	u := e.u
	im := &pixImage{typ: t, names: map[string]*T{}}
	s := t.Underlying().(*types.Struct)
	var fs []*T
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		var v *T
		switch f.Name() {
		case "Pix":
			im.sl = f.Type()
			im.et = f.Type().Underlying().(*types.Slice).Elem()
			v = e.symbolic("Pix", f.Type())
			im.pix = v
		case "Stride":
			v = u.SymR("Stride", 0, coord)
			im.stride = v
		case "Rect":
			_, c := e.rect("Rect")
			im.minx, im.miny, im.maxx, im.maxy = c[0], c[1], c[2], c[3]
			v = e.rectTerm(f.Type(), c)
		default:
			v = e.symbolic(f.Name(), f.Type())
		}
		im.names[f.Name()] = v
		fs = append(fs, v)
	}
	o := e.newObj("img", t, u.mkT(OStruct, e.tkey(t), t, fs...))
	im.ptr = u.mk(OAddr, o.id)
	dx, dy := u.subP(im.maxx, im.minx), u.subP(im.maxy, im.miny)
	n := e.length(im.pix)
	n.lo, n.hi, n.rngd = new(big.Int), big.NewInt(1<<42), true
	im.wf = u.And(u.Le(dx, im.stride), u.Le(u.addP(u.mulP(u.addP(dy, u.Int(-1)), im.stride), dx), n))
	return im
}

func (im *pixImage) offset(u *U, x, y *T) *T {
	return u.addP(u.mulP(u.subP(y, im.miny), im.stride), u.subP(x, im.minx))
}

func in4(u *U, x, y *T, c [4]*T) *T {
	return u.And(u.And(u.Le(c[0], x), u.Lt(x, c[2])), u.And(u.Le(c[1], y), u.Lt(y, c[3])))
}

func (im *pixImage) inside(u *U, x, y *T) *T {
	return in4(u, x, y, [4]*T{im.minx, im.miny, im.maxx, im.maxy})
}

func (im *pixImage) at(e *Exec, mem *Mem, off *T) *T {
	return e.load(mem, e.elemAddr(im.pix, off, im.sl), im.et)
}

// methods by signature
func (r *Run) methodsOf(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		m, ok := ms.At(i).Obj().(*types.Func)
		if !ok || len(ms.At(i).Index()) != 1 {
			continue
		}
		f := r.p.prog.FuncValue(m)
		if f != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func sigIs(f *ssa.Function, params []string, result string) bool {
	s := f.Signature
	if s.Params().Len() != len(params) {
		return false
	}
	for i, p := range params {
		if p != "*" && types.TypeString(s.Params().At(i).Type(), nil) != p {
			return false
		}
	}
	switch s.Results().Len() {
	case 0:
		return result == ""
	case 1:
		return result == "*" || types.TypeString(s.Results().At(0).Type(), nil) == result
	}
	return false
}

// recv gives the receiver in the form the method takes.
func (im *pixImage) recv(e *Exec, st *State, f *ssa.Function) *T {
	if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
		return im.ptr
	}
	return e.load(st.mem, im.ptr, im.typ)
}

func (r *Run) noObligations(e *Exec, cn, file string) {
	bad := false
	for _, ob := range e.live() {
		bad = true
		r.viol(ob.kind, cn+" in "+fnName(ob.in), r.pos(ob.pos), "this can fail here ("+ob.kind+"): "+clip(fmt.Sprint(ob.t), 200))
	}
	if !bad {
		r.ok("no failure", cn)
	}
}

func ruleC07(r *Run) {
	for _, t := range r.pixTypes() {
		t := t
		name := t.Obj().Name()
		typed, setters := 0, 0
		for _, f := range r.methodsOf(t) {
			f := f
			et := types.TypeString(t.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem(), nil)
			cn := name + "." + f.Name()
			file := r.pos(f.Pos())
			r.guard("pixel", cn, func() {
				e := r.exec()
				u := e.u
				im := r.pixImage(e, t)
				x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
				in := im.inside(u, x, y)
				off := im.offset(u, x, y)
				st := e.start()
				st.pc = im.wf
				switch {
				case sigIs(f, []string{"int", "int"}, "int"): // PixOffset
					res, _ := e.call(st, f, []*T{im.recv(e, st, f), x, y}, nil)
					r.check(e.equiv(res, off, im.wf), "address", cn, file, cn+" is not the row-major address: "+e.differ(res, off, im.wf, 0))
				case sigIs(f, []string{"int", "int"}, et):
					typed++
					res, out := e.call(st, f, []*T{im.recv(e, st, f), x, y}, nil)
					d := e.differ(res, im.at(e, out.mem, off), u.And(im.wf, in), 0)
					r.check(d == "", "element read", cn, file, cn+" does not read the pixel of its point: "+d)
					d = e.differ(res, e.zero(im.et), u.And(im.wf, u.Not(in)), 0)
					r.check(d == "", "zero outside", cn, file, cn+" is not the zero colour outside the rectangle: "+d)
					r.noObligations(e, cn, file)
				case f.Name() == "At" && f.Signature.Params().Len() == 2:
					if p := im.names["Palette"]; p != nil {
						st.pc = u.And(st.pc, u.Not(e.equal(p, u.tNil, p.typ)))
					}
					pc := st.pc
					res, out := e.call(st, f, []*T{im.recv(e, st, f), x, y}, nil)
					px := im.at(e, out.mem, off)
					want := u.mk(OIface, e.tkey(im.et), px)
					if p := im.names["Palette"]; p != nil {
						want = r.paletted(e, out, im, px)
					}
					d := e.differ(res, want, u.And(pc, in), 0)
					r.check(d == "", "colour read", cn, file, cn+" is not the colour of the pixel at its point: "+d)
					if im.names["Palette"] == nil {
						d := e.differ(res, u.mk(OIface, e.tkey(im.et), e.zero(im.et)), u.And(pc, u.Not(in)), 0)
						r.check(d == "", "zero outside", cn, file, cn+" is not the zero colour outside the rectangle: "+d)
						r.noObligations(e, cn, file)
					} else {
						for _, ob := range e.live() {
							// an index beyond the palette is the caller's
							pal := ob.kind == "index" && len(ob.t) == 2 && ob.t[1] == e.length(im.names["Palette"])
							r.check(pal, ob.kind, cn+" in "+fnName(ob.in), r.pos(ob.pos), "this can fail here: "+clip(fmt.Sprint(ob.t), 200))
						}
					}
				case sigIs(f, []string{"int", "int", "*"}, ""):
					setters++
					pt := f.Signature.Params().At(2).Type()
					v := e.symbolic("v", pt)
					z := u.SymR("other", 0, 1<<42)
					before := im.at(e, st.mem, z)
					res, out := e.call(st, f, []*T{im.recv(e, st, f), x, y, v}, nil)
					_ = res
					want := v
					if types.TypeString(pt, nil) != et {
						want = r.asPixel(e, im, v)
					}
					d := e.differ(im.at(e, out.mem, off), want, u.And(im.wf, in), 0)
					r.check(d == "", "element written", cn, file, cn+" does not set the pixel of its point to its colour: "+d)
					d = e.differ(im.at(e, out.mem, z), before, u.And(u.And(im.wf, in), u.Not(u.EQ0(u.subP(z, off)))), 0)
					r.check(d == "", "nothing else written", cn, file, cn+" changes another pixel: "+d)
					d = e.differ(im.at(e, out.mem, z), before, u.And(im.wf, u.Not(in)), 0)
					r.check(d == "", "nothing written outside", cn, file, cn+" writes for a point outside the rectangle: "+d)
					for n, v := range im.names {
						i := fieldIndex(t, n)
						now := e.field(e.load(out.mem, im.ptr, t), i, t)
						r.check(e.equiv(now, v, out.pc), "nothing else written", cn+" "+n, file, cn+" changes the "+n+" of the image")
					}
					r.noObligations(e, cn, file)
				case sigIs(f, nil, "image.Rectangle"):
					res, _ := e.call(st, f, []*T{im.recv(e, st, f)}, nil)
					d := e.differ(res, im.names["Rect"], im.wf, 0)
					r.check(d == "", "bounds", cn, file, cn+" is not the rectangle of the image: "+d)
				case sigIs(f, nil, "image/color.Model"):
					res, _ := e.call(st, f, []*T{im.recv(e, st, f)}, nil)
					// the model converts to what the setter stores
					c := e.symbolic("c", r.stdType("image/color", "Color"))
					if im.names["Palette"] != nil {
						p := im.names["Palette"]
						r.check(e.equiv(res, u.mk(OIface, e.tkey(p.typ), p), im.wf), "colour model", cn, file, "the model of a paletted image is not its palette")
						return
					}
					if res.op != OIface {
						panic(tooComplex("a model of unknown type: " + res.String()))
					}
					m := r.p.method(e.typs[res.aux], "Convert")
					got, _ := e.call(e.start(), m, []*T{res.args[0], c}, nil)
					want := u.mk(OIface, e.tkey(im.et), r.asPixel(e, im, c))
					d := e.differ(got, want, u.tTrue, 0)
					r.check(d == "", "colour model", cn, file, "the model does not convert to the pixels of "+name+": "+d)
				default:
					return
				}
				r.analysed(f)
				r.noteFuncs(e)
			})
		}
		if typed == 0 || setters < 2 {
			r.missing("typed accessors of " + name)
		}
		// the constructor
		nf := r.p.fn("", "New"+name)
		if nf == nil {
			r.missing("New" + name)
			continue
		}
		r.guard("pixel", "New"+name, func() {
			e := r.exec()
			u := e.u
			_, c := e.rect("r")
			rt := nf.Signature.Params().At(0).Type()
			args := []*T{e.rectTerm(rt, c)}
			for i := 1; i < nf.Signature.Params().Len(); i++ {
				args = append(args, e.symbolic("p", nf.Signature.Params().At(i).Type()))
			}
			dx, dy := u.subP(c[2], c[0]), u.subP(c[3], c[1])
			st := e.start()
			st.pc = u.And(u.GE0(dx), u.GE0(dy))
			pc := st.pc
			res, out := e.call(st, nf, args, nil)
			cn := "New" + name
			v := e.load(out.mem, res, t)
			get := func(n string) *T { return e.field(v, fieldIndex(t, n), t) }
			chk := func(what string, got, want *T) {
				d := e.differ(got, want, pc, 0)
				r.check(d == "", "new image", cn+" "+what, r.pos(nf.Pos()), "the "+what+" of a new image: "+d)
			}
			chk("Rect", get("Rect"), args[0])
			chk("Stride", get("Stride"), dx)
			chk("number of pixels", e.length(get("Pix")), u.mulP(dx, dy))
			if fieldIndex(t, "Palette") >= 0 && len(args) > 1 {
				chk("Palette", get("Palette"), args[1])
			}
			z := u.SymR("z", 0, 1<<42)
			px := e.load(out.mem, e.elemAddr(get("Pix"), z, t.Underlying().(*types.Struct).Field(0).Type()), t.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem())
			chk("pixels", px, e.zero(t.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem()))
			r.noteFuncs(e)
		})
	}
}

func fieldIndex(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// paletted is the colour of a palette entry with an alpha.
func (r *Run) paletted(e *Exec, st *State, im *pixImage, px *T) *T {
	u := e.u
	pal := im.names["Palette"]
	pt := pal.typ
	et := pt.Underlying().(*types.Slice).Elem()
	c := e.load(st.mem, e.elemAddr(pal, e.field(px, fieldIndex(im.et, "I"), im.et), pt), et)
	ch := r.rgba(e, c)
	nt := r.stdType("image/color", "NRGBA")
	d := func(x *T) *T { return u.div(x, u.Int(256)) }
	return u.mk(OIface, e.tkey(nt), u.mkT(OStruct, e.tkey(nt), nt, d(ch[0]), d(ch[1]), d(ch[2]), e.field(px, fieldIndex(im.et, "A"), im.et)))
}

// rgba is what RGBA gives for a colour of unknown type.
func (r *Run) rgba(e *Exec, c *T) []*T {
	it := r.stdType("image/color", "Color").Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == "RGBA" {
			v := e.pureCall("invoke.RGBA", []*T{c}, m.Type().(*types.Signature).Results())
			return v.args
		}
	}
	panic(tooComplex("no RGBA"))
}

// nrgba is a colour of unknown type as the library reads it.
func (r *Run) nrgba(e *Exec, c *T) ([]*T, types.Type) {
	f := r.p.fn("internal", "ColourToNRGBA")
	if f == nil {
		panic(tooComplex("no internal.ColourToNRGBA"))
	}
	v, _ := e.call(e.start(), f, []*T{c}, nil)
	t := f.Signature.Results().At(0).Type()
	var out []*T
	for i := 0; i < 4; i++ {
		out = append(out, e.field(v, i, t))
	}
	return out, t
}

// asPixel is what a pixel image is to store for a colour.
func (r *Run) asPixel(e *Exec, im *pixImage, c *T) *T {
	u := e.u
	name := im.et.(*types.Named).Obj().Name()
	mk := func(vs ...*T) *T { return u.mkT(OStruct, e.tkey(im.et), im.et, vs...) }
	hi := func(x *T) *T { return u.div(x, u.Int(256)) }
	switch name {
	case "RGB":
		ch := r.rgba(e, c)
		return mk(hi(ch[0]), hi(ch[1]), hi(ch[2]))
	case "GrayAlpha":
		n, _ := r.nrgba(e, c)
		// luminance as color.GrayModel has it
		y := u.addP(u.addP(u.scale(n[0], 19595), u.scale(n[1], 38470)), u.addP(u.scale(n[2], 7471), u.Int(1<<15)))
		return mk(u.div(y, u.Int(1<<24)), hi(n[3]))
	case "IndexedAlpha":
		ch := r.rgba(e, c)
		f := r.p.method(im.names["Palette"].typ, "Index")
		i, _ := e.call(e.start(), f, []*T{im.names["Palette"], c}, nil)
		return mk(e.norm(e.start(), i, "u8", 0, nil), hi(ch[3]))
	}
	panic(tooComplex("pixels of type " + name))
}

func ruleC08(r *Run) {
	for _, t := range r.pixTypes() {
		t := t
		name := t.Obj().Name()
		r.guard("sub-image", name, func() {
			e := r.exec()
			u := e.u
			im := r.pixImage(e, t)
			f := r.p.method(types.NewPointer(t), "SubImage")
			if f == nil {
				r.missing(name + ".SubImage")
				return
			}
			pos := r.pos(f.Pos())
			_, c := e.rect("r")
			st := e.start()
			st.pc = im.wf
			res, out := e.call(st, f, []*T{im.recv(e, st, f), e.rectTerm(f.Signature.Params().At(0).Type(), c)}, nil)
			r.noObligations(e, name+".SubImage", pos)
			x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
			both := u.And(im.inside(u, x, y), in4(u, x, y, c))
			off := im.offset(u, x, y)
			bf := r.p.method(types.NewPointer(t), "Bounds")
			// a point is in the sub-image just if it is in both
			for _, l := range leaves(res) {
				pc := im.wf
				for _, q := range l.lits {
					pc = u.And(pc, e.lit(q))
				}
				if pc == u.tFalse || e.infeasible(pc) {
					continue
				}
				if l.t.op != OIface || !types.Identical(deref(e.typs[l.t.aux]), t) {
					r.viol("type of the sub-image", name, pos, "the sub-image is "+clip(l.t.String(), 100))
					continue
				}
				ptr := l.t.args[0]
				s2 := out.clone()
				s2.pc = pc
				b, _ := e.call(s2, bf, []*T{ptr}, nil)
				bt := bf.Signature.Results().At(0).Type()
				pt := bt.Underlying().(*types.Struct).Field(0).Type()
				co := func(i, j int) *T { return e.field(e.field(b, i, bt), j, pt) }
				inSub := in4(u, x, y, [4]*T{co(0, 0), co(0, 1), co(1, 0), co(1, 1)})
				bad := u.And(pc, u.And(both, u.Not(inSub)))
				r.check(bad == u.tFalse || e.infeasible(bad), "bounds of the sub-image", name+" lacks a point", pos, "a point of the image and the rectangle is not in the sub-image: "+clip(bad.String(), 300))
				bad = u.And(pc, u.And(inSub, u.Not(both)))
				r.check(bad == u.tFalse || e.infeasible(bad), "bounds of the sub-image", name+" has a point", pos, "a point of the sub-image is not in the image and the rectangle: "+clip(bad.String(), 300))
				in := u.And(pc, both)
				if in == u.tFalse || e.infeasible(in) {
					continue
				}
				for _, m := range r.methodsOf(t) {
					et := types.TypeString(im.et, nil)
					if !sigIs(m, []string{"int", "int"}, et) {
						continue
					}
					n := len(e.obl)
					s3 := out.clone()
					s3.pc = in
					v, _ := e.call(s3, m, []*T{ptr, x, y}, nil)
					d := e.differ(v, im.at(e, out.mem, off), in, 0)
					r.check(d == "", "same pixels", name+"."+m.Name(), pos, "the sub-image has another pixel than the image at the same point: "+d)
					live := e.live()
					for _, ob := range live {
						for _, o := range e.obl[n:] {
							if o == ob {
								r.viol("sub-image holds its rectangle", name+"."+m.Name()+" "+ob.kind, r.pos(ob.pos), "a point of the sub-image is beyond its pixels")
							}
						}
					}
				}
				// sharing: writing through the sub-image writes the image
				for _, m := range r.methodsOf(t) {
					if !sigIs(m, []string{"int", "int", types.TypeString(im.et, nil)}, "") {
						continue
					}
					s3 := out.clone()
					s3.pc = in
					v := e.symbolic("v", im.et)
					_, o3 := e.call(s3, m, []*T{ptr, x, y, v}, nil)
					d := e.differ(im.at(e, o3.mem, off), v, in, 0)
					r.check(d == "", "shared pixels", name+"."+m.Name(), pos, "what is set in the sub-image does not show in the image: "+d)
				}
				if n := fieldIndex(t, "Palette"); n >= 0 {
					d := e.differ(e.field(e.load(out.mem, ptr, t), n, t), im.names["Palette"], in, 0)
					r.check(d == "", "palette of the sub-image", name, pos, "the sub-image has another palette: "+d)
				}
			}
			r.analysed(f)
			r.noteFuncs(e)
		})
	}
	r.guard("sub-image", "Layer", func() { r.layerSub() })
}

// layerSub: a layer's sub-image shows the same colours at the same points.
func (r *Run) layerSub() {
	lt := r.p.named("", "Layer")
	f := r.p.method(lt, "SubImageLayer")
	if lt == nil || f == nil {
		r.missing("Layer.SubImageLayer")
		return
	}
	e := r.exec()
	u := e.u
	l, c, _ := r.layer(e, lt)
	_, rc := e.rect("r")
	pos := r.pos(f.Pos())
	st := e.start()
	res, out := e.call(st, f, []*T{l, e.rectTerm(f.Signature.Params().At(0).Type(), rc)}, nil)
	x, y := u.SymR("x", -coord, coord), u.SymR("y", -coord, coord)
	both := u.And(in4(u, x, y, c), in4(u, x, y, rc))
	at, bf := r.p.method(lt, "At"), r.p.method(lt, "Bounds")
	o2 := out.clone()
	o2.pc = both
	got, _ := e.call(o2, at, []*T{res, x, y}, nil)
	o3 := out.clone()
	o3.pc = both
	want, _ := e.call(o3, at, []*T{l, x, y}, nil)
	d := e.differ(got, want, both, 0)
	r.check(d == "", "same pixels", "Layer.SubImageLayer", pos, "the sub-image of a layer shows another colour than the layer at the same point: "+d)
	b, _ := e.call(out.clone(), bf, []*T{res}, nil)
	bt := bf.Signature.Results().At(0).Type()
	pt := bt.Underlying().(*types.Struct).Field(0).Type()
	co := func(i, j int) *T { return e.field(e.field(b, i, bt), j, pt) }
	inSub := in4(u, x, y, [4]*T{co(0, 0), co(0, 1), co(1, 0), co(1, 1)})
	for n, bad := range []*T{u.And(both, u.Not(inSub)), u.And(inSub, u.Not(both))} {
		r.check(bad == u.tFalse || e.infeasible(bad), "bounds of the sub-image", fmt.Sprint("Layer ", n), pos, "the bounds of the sub-image of a layer are not what the layer and the rectangle share: "+clip(bad.String(), 300))
	}
	for i := 0; i < lt.Underlying().(*types.Struct).NumFields(); i++ {
		n := lt.Underlying().(*types.Struct).Field(i).Name()
		if n == "Image" || n == "LayerBounds" {
			continue
		}
		d := e.differ(e.field(res, i, lt), e.field(l, i, lt), u.tTrue, 0)
		r.check(d == "", "layer settings kept", n, pos, "the sub-image of a layer has another "+n+": "+d)
	}
	// SubImage is the same thing
	if g := r.p.method(lt, "SubImage"); g != nil {
		v, _ := e.call(e.start(), g, []*T{l, e.rectTerm(f.Signature.Params().At(0).Type(), rc)}, nil)
		d := e.differ(v, u.mk(OIface, e.tkey(lt), res), u.tTrue, 0)
		r.check(d == "", "same pixels", "Layer.SubImage", r.pos(g.Pos()), "SubImage is not the sub-layer: "+d)
	}
	r.noObligations(e, "Layer.SubImageLayer", pos)
	r.noteFuncs(e)
	// Image.SubImage takes the sub-image of every layer
	it := r.p.named("", "Image")
	g := r.p.method(it, "SubImage")
	if g == nil {
		r.missing("Image.SubImage")
		return
	}
	r.guard("sub-image", "Image", func() {
		e := r.exec()
		u := e.u
		im := e.symbolic("image", it)
		_, rc := e.rect("r")
		rt := e.rectTerm(g.Signature.Params().At(0).Type(), rc)
		e.summary = func(st *State, fn *ssa.Function, args []*T) (*T, bool) {
			if fn == f {
				return u.mkT(OCall, "SubImageLayer", lt, args...), true
			}
			return nil, false
		}
		res, out := e.call(e.start(), g, []*T{im, rt}, nil)
		pos := r.pos(g.Pos())
		r.check(res.op == OIface && types.Identical(e.typs[res.aux], it), "type of the sub-image", "Image", pos, "the sub-image of an image is "+clip(res.String(), 100))
		ok, why := e.mapsEvery(out, res.args[0], im, func(k *T) *T {
			return u.mkT(OCall, "SubImageLayer", lt, e.load(newMem(), e.elemAddr(im, k, it), lt), rt)
		}, lt)
		r.check(ok, "every layer", "Image.SubImage", pos, "the sub-image does not hold the sub-image of every layer in its place: "+why)
		r.noObligations(e, "Image.SubImage", pos)
		r.noteFuncs(e)
	})
}

// mapsEvery: a loop stores f(k) to element k of dst for every element k of src.
func (e *Exec) mapsEvery(out *State, dst, src *T, f func(k *T) *T, et types.Type) (bool, string) {
	u := e.u
	for _, lp := range e.loops {
		lo, n := loopRange(e, lp)
		if lo == nil || !e.equiv(n, e.length(src), u.tTrue) || lo != u.zero {
			continue
		}
		early := u.And(out.pc, u.Lt(lp.kappa, n))
		if early != u.tFalse && !e.infeasible(early) {
			return false, "the loop can stop early"
		}
		for _, v := range lp.vars {
			if v.back != nil && v.obj == "" && v.cur == dst { // appended to
				b := v.back
				if b.op != OAppend || b.args[0] != v.cur || len(b.args) != 3 || b.args[1] != u.tTrue {
					return false, "the loop does something else: " + clip(b.String(), 200)
				}
				if d := e.differ(b.args[2], f(lp.kappa), lp.headPC, 0); d != "" {
					return false, d
				}
				if v.init == nil || !e.equiv(e.length(v.init), u.zero, u.tTrue) {
					return false, "not empty at first"
				}
				return true, ""
			}
			if v.obj == "" || v.back == nil {
				continue
			}
			id := ""
			if dst.op == OSlice && dst.args[0].op == OAddr {
				id = dst.args[0].aux
			}
			if v.obj != id {
				continue
			}
			b := v.back
			if b.op != OUpd || b.args[0] != v.cur {
				return false, "the loop does something else: " + clip(b.String(), 200)
			}
			want := f(b.args[1])
			if !e.equiv(b.args[1], lp.kappa, lp.headPC) && !e.equiv(b.args[1], u.subP(u.addP(n, u.Int(-1)), lp.kappa), lp.headPC) {
				return false, "element " + clip(b.args[1].String(), 80)
			}
			if !e.equiv(e.length(dst), n, u.tTrue) {
				return false, "another number of elements: " + clip(e.length(dst).String(), 100)
			}
			if d := e.differ(b.args[2], want, lp.headPC, 0); d != "" {
				return false, d
			}
			return true, ""
		}
	}
	return false, "no loop over all of it"
}

// loopRange: the loop runs for kappa from lo to the bound n, and leaves only then.
func loopRange(e *Exec, lp *Loop) (lo, n *T) {
	u := e.u
	// what holds when the body is entered bounds kappa from above: find n with
	// backPC => kappa < n, where kappa < n is the guard
	atoms, seen := map[*T]bool{}, map[*T]bool{}
	collectAtoms(lp.backPC, atoms, seen)
	var as []*T
	for a := range atoms {
		if a.op == OGE {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		c0, c1, c2, ok := split2(u.polyOf(a.args[0]), lp.kappa)
		if !ok || len(c2.m) > 0 {
			continue
		}
		cv, isc := c1.constVal()
		if !isc || cv.Cmp(negOne) != 0 && cv.Cmp(new(big.Rat).Neg(negOne)) != 0 {
			continue
		}
		t, bound := u.atom(a), c0.Add(intPoly(1)) // c0 - kappa >= 0, so kappa < c0 + 1
		if cv.Sign() > 0 {                        // not c0 + kappa >= 0, so kappa < -c0
			t, bound = u.Not(t), c0.Neg()
		}
		if e.infeasible(u.And(lp.backPC, u.Not(t))) && !e.infeasible(u.And(lp.headPC, u.Not(t))) {
			return u.zero, u.fromPoly(bound)
		}
	}
	return nil, nil
}

// layer makes a symbolic layer.
func (r *Run) layer(e *Exec, lt *types.Named) (*T, [4]*T, map[string]*T) {
	u := e.u
	s := lt.Underlying().(*types.Struct)
	var fs []*T
	var c [4]*T
	names := map[string]*T{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		var v *T
		switch f.Name() {
		case "LayerBounds":
			_, c = e.rect("bounds")
			v = e.rectTerm(f.Type(), c)
		default:
			v = e.symbolic(f.Name(), f.Type())
		}
		names[f.Name()] = v
		fs = append(fs, v)
	}
	return u.mkT(OStruct, e.tkey(lt), lt, fs...), c, names
}

func ruleC09(r *Run) {
	found := 0
	for _, t := range r.pixTypes() {
		t := t
		name := t.Obj().Name()
		f := r.p.method(types.NewPointer(t), "Opaque")
		if f == nil {
			continue
		}
		found++
		cn := name + ".Opaque"
		pos := r.pos(f.Pos())
		r.guard("opaque", cn, func() {
			e := r.exec()
			u := e.u
			e.noUnroll = true
			im := r.pixImage(e, t)
			st := e.start()
			st.pc = im.wf
			res, out := e.call(st, f, []*T{im.recv(e, st, f)}, nil)
			r.analysed(f)
			r.noteFuncs(e)
			ai := fieldIndex(im.et, "A")
			if ai < 0 { // pixels without alpha
				r.check(e.equiv(res, u.tTrue, out.pc), "always opaque", cn, pos, "an image without alpha is not opaque")
				a := r.alphaOf(e, im.et)
				r.check(e.equiv(a, u.Int(F), u.tTrue), "always opaque", cn+" alpha", pos, "the pixels have an alpha that is not full: "+clip(a.String(), 100))
				return
			}
			// false only where an alpha is not full, true only past the loop over all of them
			full := func(i *T) *T {
				return u.EQ0(u.subP(e.field(im.at(e, st.mem, i), ai, im.et), u.Int(255)))
			}
			trueC := u.And(out.pc, res)
			falseC := u.And(out.pc, u.Not(res))
			if len(e.loops) == 0 {
				r.viol("opaque looks at every pixel", cn, pos, "Opaque has no loop over the pixels")
				return
			}
			idx := map[*T]bool{}
			var scan func(t *T, seen map[*T]bool)
			scan = func(t *T, seen map[*T]bool) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.op == OElem && t.args[0].op == OBox {
					idx[t.args[1]] = true
				}
				for _, a := range t.args {
					scan(a, seen)
				}
			}
			covered := false
			why := ""
			inner := e.loops[len(e.loops)-1]
			scan(inner.backPC, map[*T]bool{})
			scan(falseC, map[*T]bool{})
			scan(trueC, map[*T]bool{})
			for i := range idx {
				// going on with the loop means that the pixel is opaque
				bad := u.And(inner.backPC, u.Not(full(i)))
				if bad != u.tFalse && !e.infeasible(bad) {
					why = "the loop goes past a pixel that is not opaque"
					continue
				}
				if ok, w := r.coversRect(e, im, inner, i); ok {
					covered = true
				} else {
					why = w
				}
				bad = u.And(falseC, full(i))
				r.check(bad == u.tFalse || e.infeasible(bad), "false for a reason", cn, pos, "Opaque is false though the pixel it stops at is opaque: "+clip(bad.String(), 200))
			}
			r.check(covered, "opaque looks at every pixel", cn, pos, "Opaque can be true though a pixel is not opaque: "+why)
			// true is returned past the loops only
			for _, lp := range e.loops {
				_, n := loopRange(e, lp)
				if n == nil {
					r.viol("opaque looks at every pixel", cn+" loop", r.pos(lp.pos), "the bounds of the loop are not understood")
					continue
				}
				bad := u.And(trueC, u.Lt(lp.kappa, n))
				if len(lp.outer) > 0 {
					continue
				}
				r.check(bad == u.tFalse || e.infeasible(bad), "true past the last pixel", cn, pos, "Opaque can be true before the last pixel: "+clip(bad.String(), 200))
			}
			r.noObligations(e, cn, pos)
		})
	}
	if found < 3 {
		r.missing("Opaque of three image types")
	}
}

// coversRect: the loop examines element i for all elements that hold a pixel.
func (r *Run) coversRect(e *Exec, im *pixImage, lp *Loop, i *T) (bool, string) {
	u := e.u
	_, n := loopRange(e, lp)
	if n == nil {
		return false, "the bounds of the loop are not understood"
	}
	if len(lp.outer) == 0 {
		// one loop, over the whole slice
		if (e.equiv(i, lp.kappa, lp.headPC) || e.equiv(i, u.subP(u.addP(n, u.Int(-1)), lp.kappa), lp.headPC)) && e.equiv(n, e.length(im.pix), im.wf) {
			return true, ""
		}
		return false, "elements " + clip(i.String(), 80) + " up to " + clip(n.String(), 80)
	}
	if len(lp.outer) == 1 {
		o := lp.outer[0]
		_, m := loopRange(e, o)
		if m == nil {
			return false, "the bounds of the outer loop are not understood"
		}
		dx, dy := u.subP(im.maxx, im.minx), u.subP(im.maxy, im.miny)
		pos := u.And(im.wf, u.And(u.GE0(dx), u.GE0(dy)))
		if e.equiv(i, u.addP(u.mulP(o.kappa, im.stride), lp.kappa), lp.headPC) && e.equiv(n, dx, pos) && e.equiv(m, dy, pos) {
			return true, ""
		}
		return false, "elements " + clip(i.String(), 80)
	}
	return false, "three loops"
}

// alphaOf is the alpha of a colour type.
func (r *Run) alphaOf(e *Exec, t types.Type) *T {
	f := r.p.method(t, "RGBA")
	v, _ := e.call(e.start(), f, []*T{e.symbolic("c", t)}, nil)
	if v.op != OTuple {
		panic(tooComplex("RGBA gives " + v.String()))
	}
	return v.args[3]
}

func ruleC06(r *Run) {
	sc := r.p.pkg("lcolor").Pkg.Scope()
	n := 0
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		rf, nf := r.p.method(t, "RGBA"), r.p.method(t, "ToNRGBA")
		if rf == nil {
			continue
		}
		n++
		if nf == nil {
			r.missing("lcolor." + nm + ".ToNRGBA")
			continue
		}
		r.guard("colour", nm, func() {
			e := r.exec()
			u := e.u
			pos := r.pos(rf.Pos())
			c := e.symbolic("c", t)
			v, _ := e.call(e.start(), rf, []*T{c}, nil)
			w, _ := e.call(e.start(), nf, []*T{c}, nil)
			r.analysed(rf)
			r.analysed(nf)
			r.noteFuncs(e)
			nt := nf.Signature.Results().At(0).Type()
			a := e.field(w, 3, nt)
			d := e.differ(v.args[3], a, u.tTrue, 0)
			r.check(d == "", "alpha agrees", nm, pos, "RGBA and ToNRGBA of "+nm+" differ in alpha: "+d)
			if i := fieldIndex(t, "A"); i >= 0 {
				x := e.field(c, i, t)
				if intKind(x.typ) == "u8" {
					x = u.scale(x, 257)
				}
				d := e.differ(a, x, u.tTrue, 0)
				r.check(d == "", "alpha kept", nm, pos, "the alpha of "+nm+" is not its A: "+d)
			} else {
				d := e.differ(a, u.Int(F), u.tTrue, 0)
				r.check(d == "", "alpha kept", nm, pos, nm+" has no alpha, yet is not opaque: "+d)
			}
			if nm == "HSVA" || nm == "HSLA" {
				// RGBA is that of ToNRGBA
				std := r.p.method(nt, "RGBA")
				want, _ := e.call(e.start(), std, []*T{w}, nil)
				d := e.differ(v, want, u.tTrue, 0)
				r.check(d == "", "RGBA premultiplies ToNRGBA", nm, pos, "RGBA of "+nm+" is not its ToNRGBA times alpha: "+d)
				return
			}
			for i := 0; i < 3; i++ {
				s := e.field(w, i, nt)
				fi := i
				if fieldIndex(t, "Y") >= 0 {
					fi = fieldIndex(t, "Y")
				}
				d := e.differ(s, u.scale(e.field(c, fi, t), 257), u.tTrue, 0)
				r.check(d == "", "channel kept", fmt.Sprint(nm, " ", "RGB"[i:i+1]), pos, "ToNRGBA of "+nm+" changes a channel: "+d)
				bad, _ := e.forall(u.Uncut(v.args[i]), u.tTrue, func(p *Poly, _ *T) []*Poly {
					return near(p, u.polyOf(s).Mul(u.polyOf(a)), k(F), 1)
				})
				r.check(bad == nil, "RGBA premultiplies ToNRGBA", fmt.Sprint(nm, " ", "RGB"[i:i+1]), pos, "RGBA of "+nm+" is not ToNRGBA times alpha: "+clip(fmt.Sprint(bad), 200))
				bad, _ = e.forall(u.subP(v.args[3], v.args[i]), u.tTrue, func(p *Poly, _ *T) []*Poly { return []*Poly{p} })
				r.check(bad == nil, "within alpha", fmt.Sprint(nm, " ", "RGB"[i:i+1]), pos, "a channel of "+nm+" exceeds alpha: "+clip(fmt.Sprint(bad), 200))
			}
			r.noObligations(e, nm, pos)
		})
	}
	if n < 4 {
		r.missing("four colour types in lcolor")
	}
	// the models leave colours of their own type alone
	for _, m := range []struct{ glob, typ string }{{"RGBModel", "RGB"}, {"GrayAlphaModel", "GrayAlpha"}} {
		r.guard("model", m.glob, func() {
			e := r.exec()
			u := e.u
			g, _ := r.p.pkg("lcolor").Members[m.glob].(*ssa.Global)
			t := r.p.named("lcolor", m.typ)
			if g == nil || t == nil {
				r.missing("lcolor." + m.glob)
				return
			}
			pos := r.pos(g.Pos())
			mv := e.load(newMem(), e.globalAddr(g), g.Type().Underlying().(*types.Pointer).Elem())
			if mv.op != OIface {
				panic(tooComplex("a model of unknown type: " + mv.String()))
			}
			conv := r.p.method(e.typs[mv.aux], "Convert")
			c := e.symbolic("c", t)
			own := u.mk(OIface, e.tkey(t), c)
			v, _ := e.call(e.start(), conv, []*T{mv.args[0], own}, nil)
			d := e.differ(v, own, u.tTrue, 0)
			r.check(d == "", "own colours kept", m.glob, pos, m.glob+" changes a colour that is of its type already: "+d)
			// any colour becomes one of the type
			x := e.symbolic("any", r.stdType("image/color", "Color"))
			w, _ := e.call(e.start(), conv, []*T{mv.args[0], x}, nil)
			for _, l := range leaves(w) {
				r.check(l.t.op == OIface && types.Identical(e.typs[l.t.aux], t), "type of the model", m.glob, pos, m.glob+" gives "+clip(l.t.String(), 80))
			}
			// of a straight colour: alpha and channels by their high bytes
			p, col := e.pixel(r, "p")
			w, _ = e.call(e.start(), conv, []*T{mv.args[0], col}, nil)
			cl := w
			if cl.op == OIface {
				cl = cl.args[0]
			}
			if m.typ == "GrayAlpha" {
				d := e.differ(e.field(cl, fieldIndex(t, "A"), t), u.div(p.c[3], u.Int(256)), u.tTrue, 0)
				r.check(d == "", "alpha of the model", m.glob, pos, m.glob+" changes alpha: "+d)
				y := e.field(cl, fieldIndex(t, "Y"), t)
				got := map[*T]bool{}
				freeSyms(u.Uncut(y), got, map[*T]bool{})
				r.check(!got[p.c[3]], "colour apart from alpha", m.glob, pos, "the gray of "+m.glob+" depends on alpha: "+clip(y.String(), 200))
			}
			r.noObligations(e, m.glob, pos)
			r.noteFuncs(e)
		})
	}
	r.guard("straight", "ColourToNRGBA", func() { r.straightRule() })
	r.guard("palette", "AlphaPalette", func() { r.alphaPalette() })
}

// straightRule: what internal.ColourToNRGBA makes of each type of colour.
func (r *Run) straightRule() {
	f := r.p.fn("internal", "ColourToNRGBA")
	if f == nil {
		r.missing("internal.ColourToNRGBA")
		return
	}
	pos := r.pos(f.Pos())
	nt := f.Signature.Results().At(0).Type()
	for _, s := range []struct {
		pkg, name string
		mul       int64
	}{{"image/color", "NRGBA64", 1}, {"image/color", "NRGBA", 257}, {"lcolor", "RGB", 0}, {"lcolor", "GrayAlpha", 0}} {
		r.guard("straight", s.name, func() {
			e := r.exec()
			u := e.u
			var t types.Type
			if s.pkg == "lcolor" {
				t = r.p.named("lcolor", s.name)
			} else {
				t = r.stdType(s.pkg, s.name)
			}
			c := e.symbolic("c", t)
			v, _ := e.call(e.start(), f, []*T{u.mk(OIface, e.tkey(t), c)}, nil)
			for i := 0; i < 4; i++ {
				var want *T
				if s.mul > 0 {
					want = u.scale(e.field(c, i, t), s.mul)
				} else {
					m := r.p.method(t, "ToNRGBA")
					w, _ := e.call(e.start(), m, []*T{c}, nil)
					want = e.field(w, i, nt)
				}
				d := e.differ(e.field(v, i, nt), want, u.tTrue, 0)
				r.check(d == "", "straight channels", fmt.Sprint(s.name, " ", "RGBA"[i:i+1]), pos, "a colour of type "+s.name+" is read wrongly: "+d)
			}
			r.noObligations(e, "ColourToNRGBA "+s.name, pos)
			r.noteFuncs(e)
		})
	}
	// premultiplied colours: alpha kept, the others divided by it
	r.guard("straight", "other colours", func() {
		e := r.exec()
		u := e.u
		c := e.symbolic("c", r.stdType("image/color", "RGBA64"))
		t := r.stdType("image/color", "RGBA64")
		a := e.field(c, 3, t)
		st := e.start()
		for i := 0; i < 3; i++ {
			st.pc = u.And(st.pc, u.Le(e.field(c, i, t), a))
		}
		pc := st.pc
		v, _ := e.call(st, f, []*T{u.mk(OIface, e.tkey(t), c)}, nil)
		d := e.differ(e.field(v, 3, nt), a, pc, 0)
		r.check(d == "", "straight channels", "RGBA64 A", pos, "a premultiplied colour loses its alpha: "+d)
		pos1 := u.And(pc, u.GE0(u.addP(a, u.Int(-1))))
		for i := 0; i < 3; i++ {
			bad, _ := e.forall(u.Uncut(e.field(v, i, nt)), pos1, func(p *Poly, _ *T) []*Poly {
				return near(p, u.polyOf(e.field(c, i, t)).Scale(big.NewRat(F, 1)), u.polyOf(a), 1)
			})
			r.check(bad == nil, "straight channels", fmt.Sprint("RGBA64 ", "RGB"[i:i+1]), pos, "a premultiplied colour is read wrongly: "+clip(fmt.Sprint(bad), 200))
		}
		r.noteFuncs(e)
	})
}

// alphaPalette: the nearest entry goes by colour alone, and alpha is kept.
func (r *Run) alphaPalette() {
	t := r.p.named("lcolor", "AlphaPalette")
	if t == nil {
		r.missing("lcolor.AlphaPalette")
		return
	}
	conv, index := r.p.method(t, "Convert"), r.p.method(t, "Index")
	e := r.exec()
	u := e.u
	pal := e.symbolic("palette", t)
	p, c := e.pixel(r, "p")
	for _, f := range []*ssa.Function{conv, index} {
		v, _ := e.call(e.start(), f, []*T{pal, c}, nil)
		r.analysed(f)
		v = u.Uncut(v)
		if f == conv {
			if v.op != OIface {
				panic(tooComplex("a colour of unknown type: " + v.String()))
			}
			vt := e.typs[v.aux]
			a := e.field(v.args[0], fieldIndex(vt, "A"), vt)
			r.check(e.within(a, p.c[3], u.tTrue, 0), "alpha kept", "AlphaPalette.Convert", r.pos(f.Pos()), "converting to a palette changes alpha: "+clip(a.String(), 200))
			v = u.mk(OTuple, "", e.field(v.args[0], 0, vt), e.field(v.args[0], 1, vt), e.field(v.args[0], 2, vt))
		}
		got := map[*T]bool{}
		freeSyms(v, got, map[*T]bool{})
		r.check(!got[p.c[3]], "nearest by colour alone", "AlphaPalette."+f.Name(), r.pos(f.Pos()), "which entry is nearest depends on alpha: "+clip(v.String(), 300))
		for i := 0; i < 3; i++ {
			r.check(got[p.c[i]], "nearest by colour alone", fmt.Sprint("AlphaPalette.", f.Name(), " ", "RGB"[i:i+1]), r.pos(f.Pos()), "which entry is nearest does not depend on a channel")
		}
		cs := 0
		for x := range subterms(v) {
			if x.op == OCall && (x.aux == "(image/color.Palette).Convert" || x.aux == "(image/color.Palette).Index") {
				cs++
			}
		}
		_ = cs
	}
	r.noteFuncs(e)
}
