package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "", "Value graphs of the functions that read a stack and a layer, and of Decode and DecodeConfig: the recurrence of the loop over the XML tokens (which tokens become layers, in what order, which are skipped to their end and where the stack ends), which part of the archive is opened for a layer, the image, offset and bounds a layer gets, and what Decode makes of the mimetype, of the size and of the outermost stack.", ruleC19)
}

const tokenFn = "(*encoding/xml.Decoder).Token"

// skipped shows that, wherever the condition holds, an element whose start
// has been read was read up to its end, and no further. The events are those
// after it; the loop is the one this is done in, if any.
func (e *Exec) skipped(evs []*Event, outer []*Loop, cond *T, r *Run) string {
	u := e.u
	done := u.tFalse
	var whys []string
	for _, ev := range evs {
		if ev.kind != "call" {
			continue
		}
		if ev.fn == "(*encoding/xml.Decoder).Skip" && sameLoops(ev.loops, outer) {
			done = u.Or(done, ev.pc)
			continue
		}
		if ev.fn != tokenFn || len(ev.loops) != len(outer)+1 || !sameLoops(ev.loops[:len(outer)], outer) {
			continue
		}
		lp := ev.loops[len(ev.loops)-1]
		at := u.And(cond, lp.entryPC)
		if !e.can(at) {
			continue
		}
		if why := e.balanced(lp, ev, cond, r); why != "" {
			whys = append(whys, why)
			continue
		}
		done = u.Or(done, lp.entryPC)
	}
	if e.always(cond, done) {
		return ""
	}
	return "the rest of an element is not skipped " + strings.Join(whys, "; ")
}

func sameLoops(a, b []*Loop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// balanced: a loop that reads tokens until the end of the element it is in.
func (e *Exec) balanced(lp *Loop, tk *Event, cond *T, r *Run) string {
	u := e.u
	tok := first(tk)
	start := e.isType(tok, r.stdType("encoding/xml", "StartElement"))
	end := e.isType(tok, r.stdType("encoding/xml", "EndElement"))
	why := "there is no count of the elements that are open"
	for _, v := range lp.vars {
		if v.back == nil || v.cur == nil || v.init == nil || v.cur.typ != nil && intKind(v.cur.typ) == "" {
			continue
		}
		c0, isc := v.init.intVal()
		if !isc {
			continue
		}
		for _, s := range []int64{1, -1} {
			step := func(c *T, n int64) bool {
				return e.differ(v.back, u.addP(v.cur, u.Int(n*s)), u.And(lp.backPC, c), 0) == ""
			}
			if !step(start, 1) || !step(end, -1) || !step(u.And(u.Not(start), u.Not(end)), 0) {
				continue
			}
			// never below the count at the start, going on
			rel := u.mulP(u.Int(s), u.subP(v.cur, u.Int(c0)))
			back := u.mulP(u.Int(s), u.subP(v.back, u.Int(c0)))
			left := u.And(cond, lp.entryPC)
			// stops right at the end token
			inv := u.GE0(rel)
			if !e.can(u.And(u.And(lp.backPC, inv), u.Not(u.GE0(back)))) {
				if !e.can(u.And(u.And(left, inv), u.Not(u.And(end, u.EQ0(rel))))) && !e.can(u.And(lp.backPC, u.And(end, u.EQ0(rel)))) {
					return ""
				}
			}
			// stops at the head of the next round
			below := u.EQ0(u.addP(rel, u.Int(1)))
			inv = u.GE0(u.addP(rel, u.Int(1)))
			if !e.can(u.And(u.And(lp.backPC, inv), u.Not(u.GE0(u.addP(back, u.Int(1)))))) {
				if !e.can(u.And(u.And(left, inv), u.Not(below))) && !e.can(u.And(lp.backPC, below)) {
					return ""
				}
			}
			why = "it does not stop at the end of the element"
		}
	}
	return why
}

// zipOpen recognises the opening of a part of an archive and gives its name.
func (e *Exec) zipOpen(r *Run, ev *Event) *T {
	switch ev.fn {
	case "(*archive/zip.File).Open", "(*archive/zip.File).OpenRaw":
		return e.partName(r, ev.mem, ev.args[0])
	case "(*archive/zip.Reader).Open":
		return ev.args[1]
	}
	return nil
}

func (e *Exec) partName(r *Run, mem *Mem, f *T) *T {
	ft, ht := r.stdType("archive/zip", "File"), r.stdType("archive/zip", "FileHeader")
	return e.field(e.field(e.load(mem, f, ft), fieldIndex(ft, "FileHeader"), ft), fieldIndex(ht, "Name"), ht)
}

// named shows that a file has a name wherever the condition holds.
func (e *Exec) named(r *Run, mem *Mem, f, pc, want *T, depth int) string {
	u := e.u
	for _, l := range leaves(u.Restrict(u.Uncut(f), pc)) {
		at := pc
		for _, q := range l.lits {
			at = u.And(at, e.lit(q))
		}
		if !e.can(at) || l.t.op == ONil {
			continue
		}
		if v, lp := e.loopVar(l.t); v != nil && depth < 3 {
			if d := e.named(r, mem, v.init, lp.entryPC, want, depth+1); d != "" {
				return d
			}
			var back *T
			if v.back != nil {
				back = u.Restrict(u.Uncut(v.back), lp.backPC)
			}
			for _, b := range leaves(back) {
				if b.t == l.t {
					continue
				}
				bp := lp.backPC
				for _, q := range b.lits {
					bp = u.And(bp, e.lit(q))
				}
				if d := e.named(r, mem, b.t, bp, want, depth+1); d != "" {
					return d
				}
			}
			continue
		}
		if nm := e.partName(r, mem, l.t); !e.always(at, e.equal(nm, want, types.Typ[types.String])) {
			return clip(nm.String(), 100) + " need not be " + want.String()
		}
	}
	return ""
}

func (e *Exec) loopVar(t *T) (*LoopVar, *Loop) {
	for _, lp := range e.loops {
		for _, v := range lp.vars {
			if v.cur == t {
				return v, lp
			}
		}
	}
	return nil, nil
}

func (e *Exec) leafPC(pc *T, l Leaf) *T {
	for _, q := range l.lits {
		pc = e.u.And(pc, e.lit(q))
	}
	return pc
}

// startOf: the token is a start element; named: with one of the names.
func (e *Exec) startOf(r *Run, tok *T, names ...string) (start, named *T) {
	se, nt := r.stdType("encoding/xml", "StartElement"), r.stdType("encoding/xml", "Name")
	start = e.isType(tok, se)
	nm := e.field(e.field(e.payload(se, tok), 0, se), 1, nt)
	named = e.u.tFalse
	for _, n := range names {
		named = e.u.Or(named, e.equal(nm, e.u.Str(n), types.Typ[types.String]))
	}
	return start, e.u.And(start, named)
}

// passedOn: what the functions that read share is given on unchanged: the
// archive, the XML, the size of the canvas.
func (r *Run) passedOn(e *Exec, f, g *ssa.Function, ev *Event, key, pos string) {
	var walk func(t types.Type, v *T, out map[string][]*T)
	walk = func(t types.Type, v *T, out map[string][]*T) {
		k := types.TypeString(t, nil)
		switch k {
		case "*archive/zip.Reader", "*encoding/xml.Decoder":
			out[k] = append(out[k], v)
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if types.TypeString(s.Field(i).Type(), nil) == "image.Point" {
					out["image.Point"] = append(out["image.Point"], e.field(v, i, t))
					continue
				}
				walk(s.Field(i).Type(), e.field(v, i, t), out)
			}
		}
	}
	have, given := map[string][]*T{}, map[string][]*T{}
	for _, p := range f.Params {
		if !strings.HasSuffix(types.TypeString(p.Type(), nil), "xml.StartElement") {
			v, t := e.symbolic(p.Name(), p.Type()), p.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok && isRepoPath(pkgOf(pt.Elem())) {
				v, t = e.load(newMem(), v, pt.Elem()), pt.Elem()
			}
			walk(t, v, have)
		}
	}
	for i, p := range g.Params {
		if !strings.HasSuffix(types.TypeString(p.Type(), nil), "xml.StartElement") {
			v, t := ev.args[i], p.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok && isRepoPath(pkgOf(pt.Elem())) {
				v, t = e.load(ev.mem, v, pt.Elem()), pt.Elem()
			}
			walk(t, v, given)
		}
	}
	for k, vs := range given {
		ok := len(have[k]) == len(vs) && len(vs) > 0
		for i := range vs {
			ok = ok && e.differ(vs[i], have[k][i], ev.pc, 0) == ""
		}
		r.check(ok, "read from the same file", key+" "+k, pos, "another "+k+" is given on")
	}
}

func pkgOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func ruleC19(r *Run) {
	o := r.ora()
	if o == nil {
		return
	}
	r.guard("layers of a stack", fnName(o.stack), func() { r.stackLayers(o) })
	for _, k := range []string{"layer", "stack"} {
		k := k
		r.guard("a layer", k, func() { r.readLayer(o, k) })
	}
	r.guard("the file", "Decode", func() { r.decodeFile(o, o.decode) })
	r.guard("the file", "DecodeConfig", func() { r.decodeFile(o, o.config) })
	r.guard("the size", "Decode", func() { r.decodeSize(o, o.decode) })
	r.guard("the size", "DecodeConfig", func() { r.decodeSize(o, o.config) })
}

// mainToken is the token event of the round of a loop.
func mainToken(evs []*Event, loops []*Loop) (tk *Event, n int) {
	for _, ev := range evs {
		if ev.kind == "call" && ev.fn == tokenFn && sameLoops(ev.loops, loops) {
			tk = ev
			n++
		}
	}
	return
}

// stackLayers: the layers of a stack are its layer and stack elements.
func (r *Run) stackLayers(o *oraRoles) {
	f := o.stack
	e := r.exec()
	u := e.u
	e.opaque = func(g *ssa.Function) bool { return g == o.read }
	res, out := e.call(e.start(), f, e.args(f, nil), nil)
	if out == nil {
		panic(tooComplex("it does not return"))
	}
	r.noteFuncs(e)
	good := e.success(f, res, out)
	pos := r.pos(f.Pos())
	rule := "layers of a stack"
	if !r.check(e.can(good), rule, "readable", pos, "no stack can be read") {
		return
	}
	var calls []*Event
	for _, ev := range e.events {
		if ev.sf == o.read {
			calls = append(calls, ev)
		}
	}
	if !r.check(len(calls) > 0, rule, "read", pos, "no layer is read") {
		return
	}
	loops := calls[0].loops
	if !r.check(len(loops) == 1, rule, "loop", pos, "the layers are not read in a loop over the tokens") {
		return
	}
	lp := loops[0]
	tk, n := mainToken(e.events, loops)
	if !r.check(n == 1, rule, "tokens", pos, fmt.Sprint(n, " tokens are read in a round")) {
		return
	}
	tok := first(tk)
	start, want := e.startOf(r, tok, "stack", "layer")
	done := u.And(lp.backPC, want)
	called := u.tFalse
	li := resultOf(o.read, "limage.Layer")
	se := r.stdType("encoding/xml", "StartElement")
	for i, ev := range calls {
		r.check(sameLoops(ev.loops, loops), rule, fmt.Sprint("read ", i), pos, "layers are read in more than one place")
		r.check(!e.can(u.And(ev.pc, u.Not(want))), rule, "only layers", pos, "something else is read as a layer")
		r.check(!e.can(u.And(ev.pc, called)), rule, "once", pos, "an element is read twice")
		called = u.Or(called, ev.pc)
		el := paramOf(o.read, "xml.StartElement")
		var given *T
		if el >= 0 {
			given = ev.args[el]
		} else {
			el = paramOf(o.read, "*xml.StartElement")
			given = e.load(ev.mem, ev.args[el], se)
		}
		d := e.differ(given, e.payload(se, tok), ev.pc, 0)
		r.check(d == "", rule, "element", pos, "it is not the element that was met that is read: "+d)
		if a, b := paramOf(f, "image.Point"), paramOf(o.read, "image.Point"); r.check(a >= 0 && b >= 0, rule, "offset", pos, "there is no offset") {
			d := e.differ(ev.args[b], e.symbolic(f.Params[a].Name(), f.Params[a].Type()), ev.pc, 0)
			r.check(d == "", rule, "offset", pos, "a layer is not placed by the offset of its stack: "+d)
		}
		r.passedOn(e, f, o.read, ev, "layers", pos)
	}
	r.check(e.always(done, called), rule, "every one", pos, "a layer or stack element can be passed over")
	for _, lp2 := range e.loops {
		for _, ev := range e.events {
			if ev.fn == tokenFn && sameLoops(ev.loops, []*Loop{lp2}) && lp2 != lp {
				r.viol(rule, "another loop", pos, "tokens are read before or after the layers")
			}
		}
	}
	for _, ev := range e.events {
		if (ev.fn == tokenFn || strings.HasSuffix(ev.fn, "Decoder).Skip")) && len(ev.loops) == 0 {
			r.viol(rule, "another token", pos, "a token is read before or after the layers")
		}
	}
	// others are skipped to their end
	var evs []*Event
	for _, ev := range e.events {
		if ev != tk {
			evs = append(evs, ev)
		}
	}
	other := u.And(lp.backPC, u.And(start, u.Not(want)))
	r.check(e.can(other), rule, "others", pos, "an element that is not known is refused")
	why := e.skipped(evs, loops, other, r)
	r.check(why == "", rule, "others", pos, why)
	for _, ev := range evs {
		if ev.fn == tokenFn || strings.HasSuffix(ev.fn, "Decoder).Skip") {
			r.check(!e.can(u.And(ev.pc, u.Not(u.And(start, u.Not(want))))), rule, "only others", pos, "tokens are passed over after something else than another element")
		}
	}
	// until the end of the stack
	end := e.isType(tok, r.stdType("encoding/xml", "EndElement"))
	left := u.And(good, lp.entryPC)
	r.check(!e.can(u.And(left, u.Not(end))), rule, "to the end", pos, "the stack can end before its end")
	r.check(!e.can(u.And(lp.backPC, end)), rule, "end", pos, "the end of the stack can be passed over")
	// in order
	v, why := e.listOf(res, resultOf(f, "limage.Image"), f, good, out, lp)
	if !r.check(v != nil, rule, "list", pos, why) {
		return
	}
	none := v.init
	for _, l := range leaves(u.Restrict(u.Uncut(none), lp.entryPC)) {
		r.check(l.t.op == ONil || e.length(l.t) == u.zero, rule, "list", pos, "the list does not start empty: "+clip(l.t.String(), 100))
	}
	added := u.tFalse
	for _, l := range leaves(u.Restrict(u.Uncut(v.back), lp.backPC)) {
		at := e.leafPC(lp.backPC, l)
		if !e.can(at) || l.t == v.cur {
			continue
		}
		if !r.check(l.t.op == OAppend && l.t.args[0] == v.cur, rule, "list", pos, "the list is not added to: "+clip(l.t.String(), 100)) {
			continue
		}
		for i := 1; i+1 < len(l.t.args); i += 2 {
			c := u.And(at, l.t.args[i])
			if !e.can(c) {
				continue
			}
			r.check(!e.can(u.And(c, added)), rule, "once", pos, "a layer is added twice")
			added = u.Or(added, c)
			r.check(!e.can(u.And(c, u.Not(called))), rule, "list", pos, "something is added that was not read")
			for _, ev := range calls {
				d := e.differ(l.t.args[i+1], e.nth(ev.res, li, o.read), u.And(c, ev.pc), 0)
				r.check(d == "", rule, "layer", pos, "it is not the layer that was read that is added: "+d)
			}
		}
	}
	r.check(e.always(u.And(lp.backPC, called), added), rule, "every one", pos, "a layer that was read is not added")
}

// listOf finds the variable of a loop that a function gives as a list, or
// gives a copy of.
func (e *Exec) listOf(res *T, i int, f *ssa.Function, good *T, out *State, lp *Loop) (*LoopVar, string) {
	u := e.u
	var v *LoopVar
	for _, l := range leaves(u.Restrict(u.Uncut(e.nth(res, i, f)), good)) {
		if !e.can(e.leafPC(good, l)) {
			continue
		}
		t := l.t
		for k := 0; k < 4; k++ {
			if t.op == OConcat && t.args[0].op == OSeq && len(t.args[0].args) == 0 {
				t = t.args[1]
			}
			if t.op == OSlice && t.args[0].op == OAddr && t.args[1] == u.zero {
				c := e.content(out.mem, t.args[0].aux)
				for _, m := range leaves(u.Restrict(u.Uncut(c), good)) {
					if m.t.op == OBox && m.t.aux == "backing" && e.length(m.t.args[0]) == t.args[2] {
						t = m.t.args[0]
						break
					}
				}
			}
		}
		var found *LoopVar
		for _, x := range lp.vars {
			if x.cur == t {
				found = x
			}
		}
		if found == nil || v != nil && v != found {
			return nil, "what is given is not the list of what was read: " + clip(l.t.String(), 200)
		}
		v = found
	}
	if v == nil {
		return nil, "no list is given"
	}
	return v, ""
}

// readLayer: what a layer is made of.
func (r *Run) readLayer(o *oraRoles, kind string) {
	f := o.read
	e := r.exec()
	u := e.u
	it := r.p.named("", "Image")
	lt := r.p.named("", "Layer")
	str := types.Typ[types.String]
	bt := r.stdType("image", "Rectangle")
	pt := r.stdType("image", "Point")
	box := e.symbolic("bounds", bt)
	var boxOf []*T
	e.opaque = func(g *ssa.Function) bool { return g == o.stack }
	e.summary = func(st *State, g *ssa.Function, args []*T) (*T, bool) {
		if g.Name() == "Bounds" && len(args) == 1 && types.Identical(g.Signature.Results().At(0).Type(), bt) && (types.Identical(g.Params[0].Type(), it) || types.Identical(g.Params[0].Type(), ptrTo(it))) {
			boxOf = append(boxOf, args[0])
			return box, true
		}
		return nil, false
	}
	as := []gattr{{nil, u.Str("x"), u.Sym("x", str)}, {nil, u.Str("y"), u.Sym("y", str)}}
	src := u.Sym("src", str)
	if kind == "layer" {
		as = append(as, gattr{nil, u.Str("src"), src})
	}
	lay, er, out := e.readElement(r, o, e.startElement(r, kind, as), u.tTrue)
	r.noteFuncs(e)
	good := u.And(out.pc, e.equal(er, u.tNil, errorT))
	pos := r.pos(f.Pos())
	rule := "a layer"
	if !r.check(e.can(good), rule, kind+" readable", pos, "it cannot be read") {
		return
	}
	img := e.imageOf(lay, lt)
	if i := paramOf(f, "image.Point"); !r.check(i >= 0, rule, kind+" offset", pos, "there is no offset") {
		return
	}
	off := e.symbolic(f.Params[paramOf(f, "image.Point")].Name(), pt)
	lb := e.field(lay, fieldIndex(lt, "LayerBounds"), lt)
	min, max := e.field(lb, 0, bt), e.field(lb, 1, bt)
	if kind == "stack" {
		var calls []*Event
		for _, ev := range e.events {
			if ev.sf == o.stack {
				calls = append(calls, ev)
			}
			if ev.fn == tokenFn || strings.HasSuffix(ev.fn, "Decoder).Skip") {
				r.check(!e.can(u.And(good, ev.pc)), rule, "stack tokens", pos, "tokens are read after the end of a stack")
			}
		}
		if !r.check(len(calls) == 1 && e.always(good, calls[0].pc) && len(calls[0].loops) == 0, rule, "stack read", pos, "the layers of a stack are not read once") {
			return
		}
		ev := calls[0]
		at := u.And(good, ev.pc)
		list := e.nth(ev.res, resultOf(o.stack, "limage.Image"), o.stack)
		d := e.differ(img, u.mkT(OIface, e.tkey(it), img.typ, list), at, 0)
		r.check(d == "", rule, "stack image", pos, "the image of a group is not what was read: "+d)
		i := paramOf(o.stack, "image.Point")
		if r.check(i >= 0, rule, "stack offset", pos, "there is no offset") {
			for n := 0; n < 2; n++ {
				d := e.differ(e.field(ev.args[i], n, pt), u.addP(e.field(off, n, pt), e.field(min, n, pt)), at, 0)
				r.check(d == "", rule, fmt.Sprint("stack offset ", n), pos, "the layers of a group are not offset by the place of the group: "+d)
			}
		}
		r.passedOn(e, f, o.stack, ev, "stack", pos)
		r.check(len(boxOf) > 0, rule, "stack bounds", pos, "the size of a group is not that of its layers")
		for _, b := range boxOf {
			r.check(b == list || e.differ(b, list, at, 0) == "", rule, "stack bounds", pos, "the bounds are those of something else")
		}
	} else {
		var opens, decs []*Event
		for _, ev := range e.events {
			if !e.can(u.And(good, ev.pc)) {
				continue
			}
			switch {
			case strings.HasPrefix(ev.fn, "(*archive/zip.") && e.zipOpen(r, ev) != nil:
				opens = append(opens, ev)
			case ev.fn == "image.Decode" || ev.fn == "image/png.Decode":
				decs = append(decs, ev)
			}
		}
		if !r.check(len(opens) == 1 && len(decs) == 1, rule, "layer image", pos, fmt.Sprint(len(opens), " parts are opened and ", len(decs), " images are read for a layer")) {
			return
		}
		op, dec := opens[0], decs[0]
		r.check(e.always(good, op.pc) && e.always(good, dec.pc), rule, "layer image", pos, "a layer can be without its image")
		nm := e.zipOpen(r, op)
		r.check(e.always(op.pc, e.equal(nm, src, str)), rule, "layer part", pos, "it is not the part that src names that is read: "+clip(nm.String(), 100))
		d := e.differ(dec.args[0], first(op), u.And(good, dec.pc), 0)
		r.check(d == "", rule, "layer part", pos, "it is not the part that was opened that is read: "+d)
		d = e.differ(img, first(dec), u.And(good, dec.pc), 0)
		r.check(d == "", rule, "layer image", pos, "the image of a layer is not the one that was read: "+d)
		why := e.skipped(e.events, nil, good, r)
		r.check(why == "", rule, "layer end", pos, why)
		// the bounds are those of the image
		box = nil
		for _, p := range boundsOf(max, img) {
			box = p
		}
		if !r.check(box != nil, rule, "layer bounds", pos, "the bounds are not those of the image: "+clip(max.String(), 200)) {
			return
		}
	}
	// cut off at the far edges of the canvas
	lim := (*T)(nil)
	for _, p := range f.Params {
		t, v := p.Type(), e.symbolic(p.Name(), p.Type())
		if q, ok := t.Underlying().(*types.Pointer); ok && isRepoPath(pkgOf(q.Elem())) {
			t, v = q.Elem(), e.load(newMem(), v, q.Elem())
		}
		if s, ok := t.Underlying().(*types.Struct); ok && isRepoPath(pkgOf(t)) {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), pt) {
					lim = e.field(v, i, t)
				}
			}
		}
	}
	if !r.check(lim != nil, rule, kind+" canvas", pos, "the size of the canvas is not known") {
		return
	}
	for n, ax := range []string{"X", "Y"} {
		lo := e.field(min, n, pt)
		hi := u.addP(e.field(e.field(box, 1, bt), n, pt), lo)
		edge := u.subP(e.field(lim, n, pt), e.field(off, n, pt))
		want := e.maxT(e.minT(hi, edge), lo)
		d := e.differ(e.field(max, n, pt), want, good, 0)
		r.check(d == "", rule, kind+" bounds "+ax, pos, "the bounds of a layer are not those of its image at its place, up to the edge of the canvas: "+d)
	}
}

func (e *Exec) minT(a, b *T) *T { return e.u.Ite(e.u.Lt(a, b), a, b) }
func (e *Exec) maxT(a, b *T) *T { return e.u.Ite(e.u.Lt(a, b), b, a) }

// boundsOf finds calls of Bounds on an image in a term.
func boundsOf(t, img *T) []*T {
	var out []*T
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if strings.HasSuffix(x.aux, "Bounds") && len(x.args) > 0 {
			out = append(out, x)
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// decodeFile: the parts of the archive that Decode looks at.
func (r *Run) decodeFile(o *oraRoles, f *ssa.Function) {
	e := r.exec()
	u := e.u
	e.opaque = func(g *ssa.Function) bool { return g == o.stack || g == o.read }
	res, out := e.call(e.start(), f, e.args(f, nil), nil)
	if out == nil {
		panic(tooComplex("it does not return"))
	}
	r.noteFuncs(e)
	good := e.success(f, res, out)
	pos := r.pos(f.Pos())
	nm := f.Name()
	rule := "the file"
	if !r.check(e.can(good), rule, nm+" readable", pos, "nothing can be read") {
		return
	}
	// the stack
	var nd []*Event
	for _, ev := range e.events {
		if ev.fn == "encoding/xml.NewDecoder" && e.can(u.And(good, ev.pc)) {
			nd = append(nd, ev)
		}
	}
	if !r.check(len(nd) == 1 && e.always(good, nd[0].pc), rule, nm+" XML", pos, fmt.Sprint(len(nd), " parts are read as XML, not one")) {
		return
	}
	var st *Event
	for _, ev := range e.events {
		if ev.res != nil && first(ev) == nd[0].args[0] {
			st = ev
		}
	}
	if !r.check(st != nil && (st.fn == "(*archive/zip.File).Open" || st.fn == "(*archive/zip.Reader).Open"), rule, nm+" XML", pos, "what is read as XML is not a part of the archive") {
		return
	}
	var d string
	if st.fn == "(*archive/zip.Reader).Open" {
		d = e.differ(st.args[1], u.Str("stack.xml"), st.pc, 0)
	} else {
		d = e.named(r, st.mem, st.args[0], st.pc, u.Str("stack.xml"), 0)
	}
	r.check(d == "", rule, nm+" stack.xml", pos, "the part that is read is not stack.xml: "+d)
	for _, ev := range e.events {
		if ev.fn == tokenFn {
			d := e.differ(ev.args[0], first(nd[0]), ev.pc, 0)
			r.check(d == "", rule, nm+" XML", pos, "tokens are read from something else: "+d)
		}
	}
	// the mimetype
	files := e.fileLoops(r, f)
	checked := u.tFalse
	seen := false
	for _, fl := range files {
		name := e.partName(r, newMem(), fl.file)
		called := func(t *T, s string) *T {
			return u.Map(u.Uncut(t), func(x *T) *T {
				if x == name {
					return u.Str(s)
				}
				return nil
			})
		}
		at := called(fl.lp.backPC, "mimetype")
		lit := u.tFalse
		for _, a := range atomsOf(at) {
			if a.op == OSame && isText(a, "image/openraster") {
				lit = u.Or(lit, u.atom(a))
			}
		}
		if lit == u.tFalse || !e.always(at, lit) {
			continue
		}
		// what is compared was read from the part
		var op *Event
		rd := u.tFalse
		for _, ev := range e.events {
			if ev.fn == "(*archive/zip.File).Open" && sameLoops(ev.loops, []*Loop{fl.lp}) && e.differ(ev.args[0], fl.file, ev.pc, 0) == "" {
				op = ev
			}
			if op != nil && len(ev.args) > 0 && ev.args[0] == first(op) && (ev.fn == "io.ReadFull" || ev.fn == "io.ReadAll" || ev.fn == "io.ReadAtLeast") {
				rd = u.Or(rd, u.And(ev.pc, e.equal(e.errOf(ev), u.tNil, errorT)))
			}
		}
		if !e.always(at, called(rd, "mimetype")) {
			continue
		}
		seen = true
		// all parts are looked at
		r.check(!e.can(u.And(u.And(good, fl.lp.entryPC), u.Lt(fl.lp.kappa, fl.n))), rule, nm+" all parts", pos, "the parts can go unlooked at")
		checked = u.Or(checked, fl.lp.entryPC)
		// no stack is overlooked
		if v, lp := e.loopVar(st.args[0]); v != nil && lp == fl.lp {
			isS := called(lp.backPC, "stack.xml")
			for _, l := range leaves(u.Restrict(called(v.back, "stack.xml"), isS)) {
				if e.can(e.leafPC(isS, l)) {
					r.check(l.t != v.cur || v.cur.op == ONil, rule, nm+" stack is found", pos, "a part named stack.xml can be passed over")
				}
			}
		}
	}
	r.check(seen && e.always(good, checked), rule, nm+" mimetype", pos, "an archive with another mimetype is not refused")
	if f != o.decode {
		return
	}
	// the outermost stack
	rule = "the outermost stack"
	var calls []*Event
	for _, ev := range e.events {
		if ev.sf == o.stack {
			calls = append(calls, ev)
		}
		if ev.sf == o.read {
			r.viol(rule, "layer", pos, "a layer is read outside of a stack")
		}
	}
	if !r.check(len(calls) == 1 && len(calls[0].loops) == 0 && e.always(good, calls[0].pc), rule, "read", pos, "the outermost stack is not read once") {
		return
	}
	ev := calls[0]
	pt := r.stdType("image", "Point")
	if i := paramOf(o.stack, "image.Point"); r.check(i >= 0, rule, "offset", pos, "there is no offset") {
		for n := 0; n < 2; n++ {
			d := e.differ(e.field(ev.args[i], n, pt), u.zero, ev.pc, 0)
			r.check(d == "", rule, fmt.Sprint("offset ", n), pos, "it is not placed at the origin: "+d)
		}
	}
	list := e.nth(ev.res, resultOf(o.stack, "limage.Image"), o.stack)
	d = e.differ(e.nth(res, resultOf(f, "limage.Image"), f), list, good, 0)
	r.check(d == "", rule, "given", pos, "what was read is not what is given: "+d)
	// found: the first stack element
	var tk *Event
	for _, t := range e.events {
		if t.fn == tokenFn && t.n < ev.n && len(t.loops) > 0 {
			if _, is := e.startOf(r, first(t), "stack"); !e.can(u.And(ev.pc, u.Not(is))) {
				tk = t
			}
		}
	}
	if !r.check(tk != nil, rule, "found", pos, "something else is read as the outermost stack") {
		return
	}
	lp := tk.loops[0]
	start, isStack := e.startOf(r, first(tk), "stack")
	for i, l := range tk.loops {
		r.check(!e.can(u.And(l.backPC, isStack)), rule, "found first", pos, "a stack can be passed over")
		if i > 0 {
			r.check(!e.can(u.And(l.backPC, start)), rule, "others", pos, "an element can be passed over without its end")
		}
	}
	var evs []*Event
	for _, t := range e.events {
		if t != tk {
			evs = append(evs, t)
		}
	}
	other := u.And(lp.backPC, start)
	if e.can(other) {
		why := e.skipped(evs, tk.loops[:1], other, r)
		r.check(why == "", rule, "others", pos, why)
	}
}

func isText(a *T, s string) bool {
	for _, x := range a.args {
		if x.op == OStr && x.aux == s {
			return true
		}
	}
	return false
}

// atomsOf gives the conditions a condition is made of.
func atomsOf(c *T) []*T {
	var out []*T
	seen := map[*T]bool{}
	var walk func(*T)
	walk = func(t *T) {
		if t.op != OIte || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t.args[0])
		walk(t.args[1])
		walk(t.args[2])
	}
	walk(c)
	return out
}

type fileLoop struct {
	lp      *Loop
	file, n *T
}

// fileLoops finds the loops over the parts of the archive.
func (e *Exec) fileLoops(r *Run, f *ssa.Function) []fileLoop {
	i := paramOf(f, "*zip.Reader")
	if i < 0 {
		panic(tooComplex("no archive goes in"))
	}
	rt, ft := r.stdType("archive/zip", "Reader"), r.stdType("archive/zip", "File")
	files := e.field(e.load(newMem(), e.symbolic(f.Params[i].Name(), f.Params[i].Type()), rt), fieldIndex(rt, "File"), rt)
	var out []fileLoop
	for _, lp := range e.loops {
		if len(lp.outer) > 0 {
			continue
		}
		at := e.load(newMem(), e.elemAddr(files, lp.kappa, ptrTo(ft)), ptrTo(ft))
		out = append(out, fileLoop{lp, at, e.length(files)})
	}
	return out
}

// decodeSize: the size is that of the image element.
func (r *Run) decodeSize(o *oraRoles, f *ssa.Function) {
	u0 := [2]string{"w", "h"}
	pos := r.pos(f.Pos())
	for _, c := range []struct {
		name  string
		attrs string
		ok    bool
	}{{"image", "wh", true}, {"image", "hw", true}, {"image", "xwyh", true}, {"image", "w", false}, {"image", "h", false}, {"image", "", false}, {"stack", "wh", false}, {"imag", "wh", false}} {
		e := r.exec()
		u := e.u
		e.opaque = func(g *ssa.Function) bool { return g == o.stack || g == o.read }
		site := ""
		str := types.Typ[types.String]
		e.summary = func(st *State, g *ssa.Function, args []*T) (*T, bool) {
			if g.String() != tokenFn {
				return nil, false
			}
			at := "" // the first place where a token is read
			for _, i := range e.sites {
				at += fmt.Sprintf(" %p", i)
			}
			if site == "" {
				site = at
			}
			if at != site {
				return nil, false
			}
			var as []gattr
			for _, a := range c.attrs {
				as = append(as, gattr{nil, u.Str(string(a)), u.Sym("attr "+string(a), str)})
			}
			se := r.stdType("encoding/xml", "StartElement")
			el := e.startElement(r, c.name, as)
			return u.mkT(OTuple, "", nil, u.mkT(OIface, e.tkey(se), g.Signature.Results().At(0).Type(), el), u.tNil), true
		}
		res, out := e.call(e.start(), f, e.args(f, nil), nil)
		if out == nil {
			panic(tooComplex("it does not return"))
		}
		good := e.success(f, res, out)
		key := fmt.Sprint(f.Name(), " ", c.name, " ", c.attrs)
		if !c.ok {
			r.check(!e.can(good), "the size", key, pos, "an image without a size is not refused")
			continue
		}
		if !r.check(e.can(good), "the size", key, pos, "the size cannot be read") {
			continue
		}
		var w [2]*T
		if f == o.config {
			ct := r.stdType("image", "Config")
			cf := e.nth(res, resultOf(f, "image.Config"), f)
			w[0], w[1] = e.field(cf, fieldIndex(ct, "Width"), ct), e.field(cf, fieldIndex(ct, "Height"), ct)
			model := u.Restrict(u.Uncut(e.field(cf, fieldIndex(ct, "ColorModel"), ct)), good)
			g, _ := r.p.prog.ImportedPackage("image/color").Members["NRGBAModel"].(*ssa.Global)
			d := e.differ(model, e.load(out.mem, e.globalAddr(g), deref(g.Type())), good, 0)
			r.check(d == "", "the size", key+" model", pos, "the colour model is another: "+d)
		} else {
			pt := r.stdType("image", "Point")
			for _, ev := range e.events {
				if ev.sf != o.stack {
					continue
				}
				for i, p := range o.stack.Params {
					t, v := p.Type(), ev.args[i]
					if q, ok := t.Underlying().(*types.Pointer); ok && isRepoPath(pkgOf(q.Elem())) {
						t, v = q.Elem(), e.load(ev.mem, v, q.Elem())
					}
					if s, ok := t.Underlying().(*types.Struct); ok && isRepoPath(pkgOf(t)) {
						for k := 0; k < s.NumFields(); k++ {
							if types.Identical(s.Field(k).Type(), pt) {
								sz := e.field(v, k, t)
								w[0], w[1] = e.field(sz, 0, pt), e.field(sz, 1, pt)
							}
						}
					}
				}
			}
		}
		for i, a := range u0 {
			if !r.check(w[i] != nil, "the size", key+" "+a, pos, "the size is not given on") {
				continue
			}
			want := u.Sym("attr "+a, str)
			v := u.Restrict(u.Uncut(w[i]), good)
			ok := v.op == OExtract && v.aux == "0" && v.args[0].op == OCall && strings.HasPrefix(v.args[0].aux, "strconv.") && v.args[0].args[0] == want
			r.check(ok, "the size", key+" "+a, pos, "it is not that of the image: "+clip(v.String(), 200))
			r.check(!e.can(u.And(good, u.Lt(w[i], u.zero))), "the size", key+" negative "+a, pos, "a negative size is not refused")
		}
	}
}
