package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "", "Value graphs of the writer of a layer's XML element and of its reader, put together: the reader is evaluated on every combination of attributes the writer can give, with symbolic values, and each field of the layer compared with the one that was written; the names of the modes compared with the OpenRaster list.", ruleC15)
}

// reach gives the repository functions called from f, nearest first, with
// whether each can call itself.
func (r *Run) reach(f *ssa.Function) (order []*ssa.Function, rec map[*ssa.Function]bool) {
	callees := map[*ssa.Function][]*ssa.Function{}
	calls := func(f *ssa.Function) []*ssa.Function {
		if cs, ok := callees[f]; ok {
			return cs
		}
		var cs []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && r.p.inRepo(g) {
						cs = append(cs, g)
					}
				}
			}
		}
		callees[f] = cs
		return cs
	}
	from := func(f *ssa.Function) []*ssa.Function {
		seen := map[*ssa.Function]bool{}
		q := append([]*ssa.Function{}, calls(f)...)
		var out []*ssa.Function
		for len(q) > 0 {
			g := q[0]
			q = q[1:]
			if seen[g] {
				continue
			}
			seen[g] = true
			out = append(out, g)
			q = append(q, calls(g)...)
		}
		return out
	}
	order = append([]*ssa.Function{f}, from(f)...)
	rec = map[*ssa.Function]bool{}
	for _, g := range order {
		for _, h := range from(g) {
			if h == g {
				rec[g] = true
			}
		}
	}
	return
}

func paramOf(f *ssa.Function, typ string) int {
	for i, p := range f.Params {
		if types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() }) == typ {
			return i
		}
	}
	return -1
}

func resultOf(f *ssa.Function, typ string) int {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.TypeString(rs.At(i).Type(), func(p *types.Package) string { return p.Name() }) == typ {
			return i
		}
	}
	return -1
}

// oraRoles finds the functions that write and read a layer, by what they take
// and give: each goes down into groups by calling itself.
type oraRoles struct {
	encode, decode, config *ssa.Function
	element                *ssa.Function // writes the element of a layer
	data                   *ssa.Function // writes the pixels of a layer
	read                   *ssa.Function // reads a layer from its start element
	stack                  *ssa.Function // reads the layers of a group
}

func (r *Run) ora() *oraRoles {
	o := &oraRoles{encode: r.p.fn("ora", "Encode"), decode: r.p.fn("ora", "Decode"), config: r.p.fn("ora", "DecodeConfig")}
	if o.encode == nil || o.decode == nil || o.config == nil {
		r.missing("ora.Encode, ora.Decode and ora.DecodeConfig")
		return nil
	}
	order, rec := r.reach(o.encode)
	for _, f := range order {
		if !rec[f] || paramOf(f, "limage.Layer") < 0 && paramOf(f, "*limage.Layer") < 0 {
			continue
		}
		if o.element == nil && paramOf(f, "*xml.Encoder") >= 0 {
			o.element = f
		}
		if o.data == nil && paramOf(f, "*zip.Writer") >= 0 {
			o.data = f
		}
	}
	order, rec = r.reach(o.decode)
	for _, f := range order {
		if !rec[f] {
			continue
		}
		if o.read == nil && (paramOf(f, "xml.StartElement") >= 0 || paramOf(f, "*xml.StartElement") >= 0) && resultOf(f, "limage.Layer") >= 0 {
			o.read = f
		}
		if o.stack == nil && resultOf(f, "limage.Image") >= 0 {
			o.stack = f
		}
	}
	for what, f := range map[string]*ssa.Function{"a function that writes a layer's element": o.element, "a function that writes a layer's data": o.data, "a function that reads a layer from its element": o.read, "a function that reads a stack": o.stack} {
		if f == nil {
			r.missing(what)
			return nil
		}
	}
	return o
}

// args makes symbolic arguments; pointers to structs get an object.
func (e *Exec) args(f *ssa.Function, given map[int]*T) []*T {
	var as []*T
	for i, p := range f.Params {
		if t := given[i]; t != nil {
			as = append(as, t)
			continue
		}
		as = append(as, e.symbolic(p.Name(), p.Type()))
	}
	return as
}

// layerArg is a symbolic layer as a function's parameter.
func (e *Exec) layerArg(r *Run, f *ssa.Function, name string) (arg, val *T, at int) {
	lt := r.p.named("", "Layer")
	l := e.symbolic(name, lt)
	if i := paramOf(f, "limage.Layer"); i >= 0 {
		return l, l, i
	}
	i := paramOf(f, "*limage.Layer")
	o := e.newObj("layer", lt, l)
	return e.u.mk(OAddr, o.id), l, i
}

type gattr struct{ cond, name, value *T }

// attrs decodes a list of xml.Attr.
func (e *Exec) attrs(r *Run, mem *Mem, t *T) []gattr {
	at := r.stdType("encoding/xml", "Attr")
	nt := r.stdType("encoding/xml", "Name")
	u := e.u
	if t.op == OSlice {
		t = e.reify(mem, t, types.NewSlice(at))
	}
	one := func(c, x *T) gattr {
		return gattr{c, e.field(e.field(x, 0, at), 1, nt), e.field(x, 1, at)}
	}
	switch t.op {
	case ONil:
		return nil
	case OSeq:
		var out []gattr
		for _, x := range t.args {
			out = append(out, one(u.tTrue, x))
		}
		return out
	case OAppend:
		out := e.attrs(r, mem, t.args[0])
		for i := 1; i+1 < len(t.args); i += 2 {
			out = append(out, one(t.args[i], t.args[i+1]))
		}
		return out
	}
	panic(tooComplex("list of attributes " + clip(t.String(), 200)))
}

type xtoken struct {
	ev    *Event
	pc    *T
	kind  string // StartElement, EndElement
	name  *T
	attrs []gattr
}

// tokens gives what is written to XML encoders, in order.
func (e *Exec) tokens(r *Run) []xtoken {
	var out []xtoken
	nt := r.stdType("encoding/xml", "Name")
	for _, ev := range e.events {
		if ev.kind != "call" || !strings.HasPrefix(ev.fn, "(*encoding/xml.Encoder).Encode") {
			continue
		}
		for _, l := range leaves(e.u.Uncut(ev.args[1])) {
			pc := ev.pc
			for _, q := range l.lits {
				pc = e.u.And(pc, e.lit(q))
			}
			if pc == e.u.tFalse {
				continue
			}
			if l.t.op != OIface {
				panic(tooComplex("token " + clip(l.t.String(), 200)))
			}
			typ := e.typs[l.t.aux]
			k := typ.(*types.Named).Obj().Name()
			tk := xtoken{ev: ev, pc: pc, kind: k}
			switch k {
			case "StartElement":
				tk.name = e.field(e.field(l.t.args[0], 0, typ), 1, nt)
				al := e.u.Restrict(e.field(l.t.args[0], 1, typ), pc)
				ls := leaves(al)
				for _, m := range ls {
					p2 := pc
					for _, q := range m.lits {
						p2 = e.u.And(p2, e.lit(q))
					}
					if p2 == e.u.tFalse {
						continue
					}
					t2 := tk
					t2.pc = p2
					t2.attrs = e.attrs(r, ev.mem, m.t)
					out = append(out, t2)
				}
				continue
			case "EndElement":
				tk.name = e.field(e.field(l.t.args[0], 0, typ), 1, nt)
			}
			out = append(out, tk)
		}
	}
	return out
}

// The names OpenRaster has for the modes.
var oraOps = map[string]string{
	"svg:src-over": "Normal", "svg:multiply": "Multiply", "svg:screen": "Screen", "svg:overlay": "Overlay",
	"svg:darken": "DarkenOnly", "svg:lighten": "LightenOnly", "svg:color-dodge": "Dodge", "svg:color-burn": "Burn",
	"svg:hard-light": "HardLight", "svg:soft-light": "SoftLight", "svg:difference": "Difference", "svg:color": "Color",
	"svg:luminosity": "Luminosity", "svg:hue": "Hue", "svg:saturation": "Saturation", "svg:plus": "Plus",
	"svg:dst-in": "DestinationIn", "svg:dst-out": "DestinationOut", "svg:src-atop": "SourceAtop", "svg:dst-atop": "DestinationAtop",
}

// startElement makes a start element with the given attributes.
func (e *Exec) startElement(r *Run, name string, as []gattr) *T {
	se, at, nt := r.stdType("encoding/xml", "StartElement"), r.stdType("encoding/xml", "Attr"), r.stdType("encoding/xml", "Name")
	u := e.u
	mkName := func(n *T) *T { return e.setField(e.zero(nt), 1, n, nt) }
	var els []*T
	for _, a := range as {
		els = append(els, e.setField(e.setField(e.zero(at), 0, mkName(a.name), at), 1, a.value, at))
	}
	list := u.mkT(OSeq, "", types.NewSlice(at), els...)
	return e.setField(e.setField(e.zero(se), 0, mkName(u.Str(name)), se), 1, list, se)
}

// readElement evaluates the layer reader on an element.
func (e *Exec) readElement(r *Run, o *oraRoles, el, pc *T) (layer, err *T, out *State) {
	i := paramOf(o.read, "xml.StartElement")
	given := map[int]*T{}
	if i >= 0 {
		given[i] = el
	} else {
		i = paramOf(o.read, "*xml.StartElement")
		ob := e.newObj("element", r.stdType("encoding/xml", "StartElement"), el)
		given[i] = e.u.mk(OAddr, ob.id)
	}
	st := e.start()
	st.pc = pc
	res, out := e.call(st, o.read, e.args(o.read, given), nil)
	if out == nil {
		panic(tooComplex("the reader does not return"))
	}
	return e.nth(res, resultOf(o.read, "limage.Layer"), o.read), e.nth(res, resultOf(o.read, "error"), o.read), out
}

func (e *Exec) nth(res *T, i int, f *ssa.Function) *T {
	if f.Signature.Results().Len() == 1 {
		return res
	}
	typ := f.Signature.Results().At(i).Type()
	return e.u.lift1(func(t *T) *T {
		if t.op == OTuple {
			return t.args[i]
		}
		return e.opq(e.u.mkT(OExtract, fmt.Sprint(i), typ, t), typ)
	}, res)
}

var errorT = types.Universe.Lookup("error").Type()

func ruleC15(r *Run) {
	o := r.ora()
	lt := r.p.named("", "Layer")
	if o == nil || lt == nil {
		return
	}
	modes := r.modes()
	for _, m := range oraOps {
		if _, ok := modes[m]; !ok {
			r.missing("the mode " + m)
			return
		}
	}
	e := r.exec()
	u := e.u
	arg, lay, at := e.layerArg(r, o.element, "layer")
	res, _ := e.call(e.start(), o.element, e.args(o.element, map[int]*T{at: arg}), nil)
	if res == nil {
		panic(tooComplex("the writer does not return"))
	}
	r.noteFuncs(e)
	pos := r.pos(o.element.Pos())
	fi := func(n string) int {
		i := fieldIndex(lt, n)
		if i < 0 {
			panic(tooComplex("Layer has no field " + n))
		}
		return i
	}
	fld := func(l *T, n string) *T { return e.field(l, fi(n), lt) }
	toks := e.tokens(r)
	// the length of a name and its being empty are one thing
	nameT := fld(lay, "Name")
	noName := e.equal(nameT, u.Str(""), types.Typ[types.String])
	starts := 0
	kinds := map[string]bool{}
	for _, tk := range toks {
		if tk.kind != "StartElement" {
			continue
		}
		tk := tk
		if tk.name.op != OStr {
			panic(tooComplex("element of unknown name"))
		}
		starts++
		kinds[tk.name.aux] = true
		r.guard("attributes of a layer", tk.name.aux, func() {
			// which attributes can be there, in every combination
			var opt []gattr
			for _, a := range tk.attrs {
				opt = append(opt, a)
			}
			n := 0
			var rec func(i int, pc *T, have []gattr)
			rec = func(i int, pc *T, have []gattr) {
				if pc == u.tFalse || e.infeasible(pc) {
					return
				}
				if i < len(opt) {
					rec(i+1, u.And(pc, opt[i].cond), append(append([]gattr{}, have...), opt[i]))
					rec(i+1, u.And(pc, u.Not(opt[i].cond)), have)
					return
				}
				n++
				if n > 4096 {
					panic(tooComplex("too many combinations of attributes"))
				}
				r.readBack(e, o, tk, have, pc, lay, lt, modes, noName)
			}
			rec(0, tk.pc, nil)
			r.ok("every combination of attributes", fmt.Sprint(tk.name.aux, ": ", n, " combinations"))
		})
	}
	if !kinds["layer"] || !kinds["stack"] {
		r.viol("attributes of a layer", "elements", pos, "no element is written for a layer or for a group")
	}
	r.noteFuncs(e)
	// the names of the modes: what is written for each mode, and read for each name
	byMode := map[int64]string{}
	var names []string
	for op, m := range oraOps {
		byMode[modes[m]] = op
		names = append(names, op)
	}
	sort.Strings(names)
	modeT := fld(lay, "Mode")
	for _, tk := range toks {
		if tk.kind != "StartElement" {
			continue
		}
		for mn, k := range modes {
			at := func(t *T) *T {
				return u.Map(u.Uncut(t), func(x *T) *T {
					if x == modeT {
						return u.Int(k)
					}
					return nil
				})
			}
			want, ok := byMode[k]
			if at(tk.pc) == u.tFalse {
				continue
			}
			var got *T
			for _, a := range tk.attrs {
				if a.name.op == OStr && a.name.aux == "composite-op" {
					c := u.Restrict(at(a.cond), at(tk.pc))
					switch {
					case c == u.tFalse:
					case c == u.tTrue:
						got = u.Restrict(at(a.value), at(tk.pc))
					default:
						panic(tooComplex("when a mode is written: " + clip(c.String(), 200)))
					}
				}
			}
			switch {
			case !ok: // no name for it: nothing, or nothing known
				r.check(got == nil || got.op == OStr && oraOps[got.aux] == "", "name of a mode", mn+" of a "+tk.name.aux, pos, "OpenRaster has no name for it, but it is written as "+fmt.Sprint(got))
			case got == nil:
				r.check(k == 0, "name of a mode", mn+" of a "+tk.name.aux, pos, "it is not written")
			default:
				r.check(got.op == OStr && got.aux == want, "name of a mode", mn+" of a "+tk.name.aux, pos, "it is written as "+fmt.Sprint(got)+", not "+want)
			}
		}
	}
	for _, op := range append(names, "no such mode") {
		op := op
		r.guard("mode of a name", op, func() {
			e := r.exec()
			u := e.u
			l, err, out := e.readElement(r, o, e.startElement(r, "layer", []gattr{{u.tTrue, u.Str("composite-op"), u.Str(op)}}), u.tTrue)
			pc := u.And(out.pc, e.equal(err, u.tNil, errorT))
			d := e.differ(e.field(l, fi("Mode"), lt), u.Int(modes[oraOps[op]]), pc, 0)
			r.check(d == "" && pc != u.tFalse, "mode of a name", op, r.pos(o.read.Pos()), "it is not read as "+oraOps[op]+": "+d)
		})
	}
	// opacities other programs write
	for _, v := range []float64{-1, 0, 0.25, 0.5, 0.75, 1, 2, 1e300} {
		v := v
		r.guard("opacity of other programs", fmt.Sprint(v), func() {
			e := r.exec()
			u := e.u
			s := u.Sym("opacity", types.Typ[types.String])
			l, err, out := e.readElement(r, o, e.startElement(r, "layer", []gattr{{u.tTrue, u.Str("opacity"), s}}), u.tTrue)
			pc := u.And(out.pc, e.equal(err, u.tNil, errorT))
			tr := u.Map(u.Restrict(u.Uncut(e.field(l, fi("Transparency"), lt)), pc), func(x *T) *T {
				if x.op == OExtract && len(x.args) > 0 && x.args[0].op == OCall && x.args[0].aux == "strconv.ParseFloat" && x.aux == "0" {
					return u.Float(v)
				}
				return nil
			})
			n, ok := tr.intVal()
			c := v
			if c < 0 {
				c = 0
			} else if c > 1 {
				c = 1
			}
			dd := float64(n) - 255*(1-c)
			r.check(ok && dd <= 1 && dd >= -1, "opacity of other programs", fmt.Sprint(v), r.pos(o.read.Pos()), "the transparency is "+clip(tr.String(), 200))
		})
	}
}

// readBack checks that the reader gives back the fields of the layer whose
// attributes were written.
func (r *Run) readBack(e *Exec, o *oraRoles, tk xtoken, have []gattr, pc, lay *T, lt types.Type, modes map[string]int64, noName *T) {
	u := e.u
	pos := r.pos(o.read.Pos())
	mark := e.mark()
	defer e.rollback(mark)
	got, err, out := e.readElement(r, o, e.startElement(r, tk.name.aux, have), u.tTrue)
	// no attribute that was written is refused
	good := u.And(u.And(out.pc, pc), e.equal(err, u.tNil, errorT))
	if good == u.tFalse {
		r.viol("attributes are read back", tk.name.aux, pos, "an element that was written cannot be read")
		return
	}
	for _, q := range e.events {
		_ = q
	}
	bad := u.And(u.And(out.pc, pc), u.Not(e.equal(err, u.tNil, errorT)))
	bad = u.Restrict(u.Uncut(err), bad)
	for _, l := range leaves(bad) {
		if l.t.op == OExtract && l.t.args[0].op == OCall && strings.HasPrefix(l.t.args[0].aux, "strconv.") {
			r.viol("attributes are read back", tk.name.aux+" refused", pos, "what was written may be refused: "+clip(l.t.String(), 200))
		}
	}
	same := func(field, what string, a, b *T) {
		d := e.differ(a, b, good, 0)
		r.check(d == "", "attributes are read back", field+" of a "+tk.name.aux, pos, what+" is read back as another: "+d)
	}
	f := func(l *T, path ...string) *T {
		t := types.Type(lt)
		for _, n := range path {
			i := fieldIndex(t, n)
			st := t.Underlying().(*types.Struct)
			l = e.field(l, i, t)
			t = st.Field(i).Type()
		}
		return l
	}
	// a name that is not written is empty
	a, b := f(got, "Name"), f(lay, "Name")
	if a.op == OStr && a.aux == "" {
		bad := u.And(good, u.Not(noName))
		r.check(bad == u.tFalse || e.infeasible(bad), "attributes are read back", "Name of a "+tk.name.aux, pos, "a name is not written")
	} else {
		same("Name", "the name", a, b)
	}
	same("X", "the offset", f(got, "LayerBounds", "Min", "X"), f(lay, "LayerBounds", "Min", "X"))
	same("Y", "the offset", f(got, "LayerBounds", "Min", "Y"), f(lay, "LayerBounds", "Min", "Y"))
	same("Invisible", "the visibility", f(got, "Invisible"), f(lay, "Invisible"))
	// the finite ones, value by value
	each := func(field string, of *T, k int64, want int64) {
		at := func(t *T) *T {
			return u.Map(t, func(x *T) *T {
				if x == of {
					return u.Int(k)
				}
				return nil
			})
		}
		p := at(u.Uncut(good))
		if p == u.tFalse {
			return
		}
		v := u.Restrict(at(u.Uncut(f(got, field))), p)
		n, ok := v.intVal()
		r.check(ok && n == want, "attributes are read back", fmt.Sprint(field, " ", k, " of a ", tk.name.aux), pos, fmt.Sprint(field, " ", k, " is read back as ", clip(v.String(), 200)))
	}
	tr := f(lay, "Transparency")
	if v := u.Uncut(f(got, "Transparency")); v == u.zero {
		bad := u.And(good, u.Not(u.EQ0(tr)))
		r.check(bad == u.tFalse || e.infeasible(bad), "attributes are read back", "Transparency of a "+tk.name.aux, pos, "a transparency is not written")
	} else if v != tr {
		for k := int64(0); k < 256; k++ {
			each("Transparency", tr, k, k)
		}
	}
	if f(got, "Mode") != f(lay, "Mode") {
		named := map[int64]bool{}
		for _, m := range oraOps {
			named[modes[m]] = true
		}
		for _, k := range modes {
			if named[k] {
				each("Mode", f(lay, "Mode"), k, k)
			} else {
				each("Mode", f(lay, "Mode"), k, modes["Normal"])
			}
		}
	}
}
