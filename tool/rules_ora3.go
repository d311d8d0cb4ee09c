package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "", "Typestate of the archive over every path through ora.Encode: the parts in the order they are made, what is written to each and when, the XML tokens on the way to a successful return, and the closing of the archive on every return.", ruleC17)
	register("C18", "", "Path conditions: for each call that can fail in the ORA codec, no path on which it failed goes on to a nil error or to another round of a loop; and each part that was opened is closed on every path to a return.", ruleC18)
}

// textOf is the text a call writes, if it is known.
func textOf(t *T) (string, bool) {
	if t.op == OStr {
		return t.aux, true
	}
	if t.op == OBox && t.aux == "bytes" && t.args[0].op == OStr {
		return t.args[0].aux, true
	}
	return "", false
}

// writesTo recognises a write of a text to a writer.
func writesTo(ev *Event) (w, text *T) {
	switch {
	case ev.fn == "io.WriteString":
		return ev.args[0], ev.args[1]
	case strings.HasSuffix(ev.fn, ".Write") && len(ev.args) == 2, strings.HasSuffix(ev.fn, ".WriteString") && len(ev.args) == 2:
		return ev.args[0], ev.args[1]
	}
	return nil, nil
}

func ruleC17(r *Run) {
	o := r.ora()
	lt, it := r.p.named("", "Layer"), r.p.named("", "Image")
	if o == nil || lt == nil || it == nil {
		return
	}
	r.guard("archive", "Encode", func() { r.container(o) })
	r.guard("elements nest", fnName(o.element), func() {
		e := r.exec()
		u := e.u
		arg, _, at := e.layerArg(r, o.element, "layer")
		res, out := e.call(e.start(), o.element, e.args(o.element, map[int]*T{at: arg}), nil)
		r.noteFuncs(e)
		good := e.success(o.element, res, out)
		pos := r.pos(o.element.Pos())
		toks := e.tokens(r)
		// each start has its end, with what is inside between them
		for _, tk := range toks {
			if tk.kind != "StartElement" {
				r.check(tk.kind == "EndElement", "elements nest", tk.kind, pos, "a "+tk.kind+" among the layers")
				continue
			}
			name := tk.name.String()
			r.check(len(tk.ev.loops) == 0, "elements nest", "start of "+name, pos, "it is started in a loop")
			closed := u.tFalse
			for _, end := range toks {
				if end.kind == "EndElement" && end.name == tk.name && end.ev.n > tk.ev.n && e.can(u.And(tk.pc, end.pc)) {
					r.check(!e.can(u.And(closed, end.pc)), "elements nest", "end of "+name, pos, "it is ended twice")
					closed = u.Or(closed, end.pc)
				}
			}
			r.check(e.always(u.And(good, tk.pc), closed), "elements nest", "end of "+name, pos, "it is not always ended")
			for _, ev := range e.events {
				if ev.sf != o.element || !e.can(u.And(ev.pc, tk.pc)) {
					continue
				}
				r.check(ev.n > tk.ev.n, "elements nest", "inside "+name, pos, "a layer comes before its group is begun")
				for _, end := range toks {
					if end.kind == "EndElement" && e.can(u.And(end.pc, u.And(ev.pc, tk.pc))) {
						r.check(ev.n < end.ev.n, "elements nest", "inside "+name, pos, "a layer comes after its group is ended")
					}
				}
			}
		}
		for _, end := range toks {
			if end.kind != "EndElement" {
				continue
			}
			begun := u.tFalse
			for _, tk := range toks {
				if tk.kind == "StartElement" && tk.name == end.name && tk.ev.n < end.ev.n {
					begun = u.Or(begun, tk.pc)
				}
			}
			r.check(e.always(end.pc, begun) || len(end.ev.loops) == 0 && e.always(u.And(good, end.pc), begun), "elements nest", "start of "+end.name.String(), pos, "it is ended but not begun")
		}
	})
}

func (r *Run) container(o *oraRoles) {
	it := r.p.named("", "Image")
	lt := r.p.named("", "Layer")
	e := r.exec()
	u := e.u
	e.opaque = func(f *ssa.Function) bool { return f == o.data || f == o.element }
	args := e.args(o.encode, nil)
	res, out := e.call(e.start(), o.encode, args, nil)
	r.noteFuncs(e)
	good := e.success(o.encode, res, out)
	pos := r.pos(o.encode.Pos())
	wi, mi := paramOf(o.encode, "io.Writer"), paramOf(o.encode, "image.Image")
	if wi < 0 || mi < 0 {
		panic(tooComplex("parameters of Encode"))
	}
	m := args[mi]
	b := e.pureCall("invoke.Bounds", []*T{m}, r.stdType("image", "Rectangle"))
	rt := r.stdType("image", "Rectangle")
	pt := r.stdType("image", "Point")
	co := func(i, j int) *T { return e.field(e.field(b, i, rt), j, pt) }
	dx, dy := u.subP(co(1, 0), co(0, 0)), u.subP(co(1, 1), co(0, 1))

	// the archive
	var zw *Event
	for _, ev := range e.events {
		if ev.fn == "archive/zip.NewWriter" {
			r.check(zw == nil, "one archive", "Encode", pos, "there is more than one archive")
			zw = ev
		}
	}
	if zw == nil || !r.check(e.differ(zw.args[0], args[wi], zw.pc, 0) == "" && e.always(good, zw.pc), "one archive", "Encode", pos, "the archive is not written to the writer that was given") {
		r.check(zw != nil, "one archive", "Encode", pos, "no archive is written")
		return
	}
	type part struct {
		ev   *Event // nil: the parts of the layers
		name string
		uses []*Event
	}
	var parts []*part
	by := map[string]*part{}
	enc := map[*T]*part{}
	var flushed, tokensAt []*Event
	var encPart *part
	use := func(w *T, ev *Event) *part {
		for _, p := range parts {
			if p.ev != nil && e.differ(w, first(p.ev), ev.pc, 0) == "" {
				return p
			}
		}
		if p := enc[w]; p != nil {
			return p
		}
		return nil
	}
	for _, ev := range e.events {
		if len(ev.loops) > 0 && (strings.Contains(ev.fn, "zip.") || ev.sf == o.data || ev.sf == o.element) {
			panic(tooComplex("the archive is written in a loop"))
		}
		if n, meth := e.zipCreate(r, ev); n != nil {
			n = u.Restrict(n, ev.pc)
			if n.op != OStr {
				panic(tooComplex("name of a part: " + clip(n.String(), 100)))
			}
			if p := by[n.aux]; p != nil {
				r.check(!e.can(u.And(p.ev.pc, ev.pc)), "each part once", n.aux, pos, "the part is made twice")
			}
			p := &part{ev: ev, name: n.aux}
			if e.always(good, ev.pc) || by[n.aux] == nil {
				by[n.aux] = p
			}
			if n.aux == "mimetype" {
				r.check(len(parts) == 0, "mimetype", "first", pos, "it is not the first part")
				v, ok := u.Restrict(meth, ev.pc).intVal()
				r.check(ok && v == 0, "mimetype", "stored", pos, "it is compressed")
			}
			parts = append(parts, p)
			continue
		}
		if ev.sf == o.data {
			parts = append(parts, &part{ev: nil, name: "data", uses: []*Event{ev}})
			zi := paramOf(o.data, "*zip.Writer")
			r.check(e.differ(ev.args[zi], zw.res, ev.pc, 0) == "", "one archive", "data", pos, "the layers go to another archive")
			continue
		}
		var p *part
		switch {
		case ev.fn == "encoding/xml.NewEncoder":
			p = use(ev.args[0], ev)
			if p != nil {
				enc[ev.res] = p
				encPart = p
			}
		case strings.HasPrefix(ev.fn, "(*encoding/xml.Encoder)."):
			p = use(ev.args[0], ev)
			if strings.HasSuffix(ev.fn, ".Flush") || strings.HasSuffix(ev.fn, ".Close") {
				flushed = append(flushed, ev)
			} else if strings.Contains(ev.fn, ".Encode") {
				tokensAt = append(tokensAt, ev)
			}
		case ev.sf == o.element:
			p = use(ev.args[paramOf(o.element, "*xml.Encoder")], ev)
			tokensAt = append(tokensAt, ev)
		default:
			if w, _ := pngEncode(ev); w != nil {
				p = use(w, ev)
			} else if w, _ := writesTo(ev); w != nil {
				p = use(w, ev)
			} else {
				continue
			}
		}
		if p == nil {
			r.viol("written to a part", ev.fn, r.pos(ev.pos), "what is written does not go to a part of the archive")
			continue
		}
		p.uses = append(p.uses, ev)
		// only the part that was made last can be written
		for _, q := range parts {
			pc := ev.pc
			if q.ev != nil {
				pc = u.And(pc, q.ev.pc)
			} else {
				pc = u.And(pc, q.uses[0].pc)
			}
			later := false
			for _, x := range parts {
				later = later || x == p
				if later && x == q && x != p && e.can(pc) {
					r.viol("written while open", p.name, r.pos(ev.pos), "the part is written after "+q.name+" was begun")
				}
			}
		}
		r.ok("written while open", p.name+": "+ev.fn)
	}
	for _, n := range []string{"mimetype", "stack.xml", "mergedimage.png", "Thumbnails/thumbnail.png"} {
		p := by[n]
		r.check(p != nil && e.always(good, p.ev.pc), "each part once", n, pos, "the part can be missing")
	}
	for _, p := range parts {
		switch p.name {
		case "mimetype", "stack.xml", "mergedimage.png", "Thumbnails/thumbnail.png", "data":
		default:
			r.viol("each part once", p.name, pos, "a part that OpenRaster does not know")
		}
	}
	if by["mimetype"] == nil || by["stack.xml"] == nil || by["mergedimage.png"] == nil || by["Thumbnails/thumbnail.png"] == nil {
		return
	}
	// mimetype
	text := ""
	for _, ev := range by["mimetype"].uses {
		_, t := writesTo(ev)
		s, ok := "", false
		if t != nil {
			s, ok = textOf(t)
		}
		if !ok || !e.always(good, ev.pc) {
			panic(tooComplex("what is written to mimetype"))
		}
		text += s
	}
	r.check(text == "image/openraster", "mimetype", "content", pos, "it says "+text)
	// stack.xml
	st := by["stack.xml"]
	r.check(encPart == st, "stack.xml", "encoder", pos, "the elements do not go to it")
	text = ""
	tokens := false
	for _, ev := range st.uses {
		if w, t := writesTo(ev); w != nil {
			s, ok := textOf(t)
			if !ok {
				panic(tooComplex("what is written to stack.xml"))
			}
			r.check(!tokens || strings.TrimSpace(s) == "", "stack.xml", "header first", pos, "text is written to it past the encoder")
			text += s
		}
		for _, t := range tokensAt {
			tokens = tokens || t == ev
		}
	}
	r.check(text == "" || strings.HasPrefix(text, "<?xml version=\"1.0\"") && strings.HasSuffix(strings.TrimSpace(text), "?>"), "stack.xml", "header", pos, "it begins with "+text)
	done := u.tFalse
	for _, f := range flushed {
		last := true
		for _, t := range tokensAt {
			if t.n > f.n && e.can(u.And(t.pc, f.pc)) {
				last = false
			}
		}
		if last {
			done = u.Or(done, f.pc)
		}
	}
	r.check(e.always(good, done), "stack.xml", "flushed", pos, "the encoder may keep back the end of it")
	// its tokens
	level := 0
	stacks := 0
	for _, ev := range tokensAt {
		if ev.sf == o.element {
			r.check(level == 1 && e.always(good, ev.pc), "stack.xml", "layers", pos, "the layers are not in the image")
			stacks++
			l := ev.args[e.layerParam(o.element)]
			im := e.imageOf(l, lt)
			bad := u.And(good, u.And(u.Not(e.isType(im, it)), u.Not(e.isType(im, ptrTo(it)))))
			r.check(!e.can(bad), "stack.xml", "root stack", pos, "what is in the image is not always a stack: "+clip(im.String(), 200))
			continue
		}
		for _, tk := range e.tokens(r) {
			if tk.ev != ev || !e.can(u.And(good, tk.pc)) {
				continue
			}
			switch tk.kind {
			case "StartElement":
				level++
				r.check(level == 1 && tk.name.op == OStr && tk.name.aux == "image" && e.always(good, tk.pc), "stack.xml", "image", pos, "the root is not one image: "+tk.name.String())
				for _, a := range []struct {
					n    string
					want *T
				}{{"w", dx}, {"h", dy}} {
					n := 0
					for _, x := range tk.attrs {
						if x.name.op == OStr && x.name.aux == a.n {
							n++
							want := e.pureCall("strconv.Itoa", []*T{a.want}, x.value.typ)
							d := e.differ(x.value, want, u.And(good, tk.pc), 0)
							r.check(d == "" && e.always(good, x.cond), "stack.xml", "size "+a.n, pos, "it is not that of the image: "+d)
						}
					}
					r.check(n == 1, "stack.xml", "size "+a.n, pos, "it is not there once")
				}
			case "EndElement":
				r.check(level == 1 && tk.name.op == OStr && tk.name.aux == "image" && stacks == 1 && e.always(good, tk.pc), "stack.xml", "end", pos, "the image is not ended after the layers: "+tk.name.String())
				level--
			}
		}
	}
	r.check(level == 0 && stacks == 1, "stack.xml", "whole", pos, "it is not one image with one stack")
	// the pictures
	for _, n := range []string{"mergedimage.png", "Thumbnails/thumbnail.png"} {
		var one *Event
		for _, ev := range by[n].uses {
			w, im := pngEncode(ev)
			if w == nil {
				r.viol("pictures", n, pos, "it has more than a picture in it")
				continue
			}
			r.check(one == nil || !e.can(u.And(one.pc, ev.pc)), "pictures", n, pos, "it has more than one picture in it")
			one = ev
			at := u.And(good, ev.pc)
			if n == "mergedimage.png" {
				d := e.differ(im, m, at, 0)
				r.check(d == "", "pictures", n, pos, "it is not the picture of the image: "+d)
				continue
			}
			small := u.And(u.Not(u.Lt(u.Int(256), dx)), u.Not(u.Lt(u.Int(256), dy)))
			d := e.differ(im, m, u.And(at, small), 0)
			r.check(d == "", "pictures", "small thumbnail", pos, "the thumbnail of a small image is not the image: "+d)
			for _, l := range leaves(u.Restrict(u.Uncut(im), at)) {
				c := u.And(at, u.Not(small))
				for _, q := range l.lits {
					c = u.And(c, e.lit(q))
				}
				r.check(l.t != m || !e.can(c), "pictures", "large thumbnail", pos, "the thumbnail of a large image is the image")
			}
		}
		cover := u.tFalse
		for _, ev := range by[n].uses {
			cover = u.Or(cover, ev.pc)
		}
		r.check(e.always(good, cover), "pictures", n, pos, "it can be without a picture")
	}
	// the end
	ended := u.tFalse
	for i, ev := range e.events {
		if ev.fn != "(*archive/zip.Writer).Close" {
			continue
		}
		r.check(!e.can(u.And(ended, ev.pc)), "closed", "once", pos, "the archive is closed twice")
		ended = u.Or(ended, ev.pc)
		for _, x := range e.events[i+1:] {
			if e.can(u.And(ev.pc, x.pc)) && (strings.Contains(x.fn, "zip.") || strings.Contains(x.fn, "xml.Enc") || strings.Contains(x.fn, "png") || x.sf == o.data || x.sf == o.element) && x.fn != ev.fn {
				r.viol("closed", "last", r.pos(x.pos), "the archive is written after it was closed")
			}
		}
		lost := u.And(good, u.And(ev.pc, u.Not(e.equal(e.errOf(ev), u.tNil, errorT))))
		r.check(!e.can(lost), "closed", "error", pos, "the archive could not be finished, but no error is given")
	}
	r.check(e.always(u.And(out.pc, zw.pc), ended), "closed", "always", pos, "the archive is not closed on every way out")
}

// noLostErrors checks what a function makes of the errors it is given.
func (r *Run) noLostErrors(e *Exec, f *ssa.Function, res *T, out *State, evs []*Event, ignore func(*Event) bool) {
	u := e.u
	good := e.success(f, res, out)
	n := map[string]int{}
	for _, ev := range evs {
		if ev.kind != "call" && ev.kind != "pure" || ignore(ev) {
			continue
		}
		er := e.errOf(ev)
		if er == nil {
			continue
		}
		name := fmt.Sprint(fnName(f), ": ", ev.fn)
		n[name]++
		if n[name] > 1 {
			name += fmt.Sprint(" (", n[name], ")")
		}
		failed := u.And(ev.pc, u.Not(e.equal(er, u.tNil, errorT)))
		bad := u.And(good, failed)
		ok := !e.can(bad)
		for _, lp := range ev.loops {
			ok = ok && (!e.can(u.And(lp.backPC, failed)) || e.carriesError(lp, er, failed, good))
		}
		r.check(ok, "no error is lost", name, r.pos(ev.pos), "it may have failed, but no error is given")
	}
}

// closes checks that what was opened is closed.
func (r *Run) closes(e *Exec, f *ssa.Function, out *State, evs []*Event) {
	u := e.u
	for _, ev := range evs {
		if ev.fn != "(*archive/zip.File).Open" {
			continue
		}
		opened := u.And(ev.pc, e.equal(e.errOf(ev), u.tNil, errorT))
		closed := u.tFalse
		for _, c := range evs {
			if strings.HasSuffix(c.fn, ".Close") && len(c.args) > 0 && c.args[0] == first(ev) {
				closed = u.Or(closed, c.pc)
			}
		}
		ok := e.always(u.And(opened, out.pc), closed)
		for _, lp := range ev.loops {
			ok = ok && e.always(u.And(opened, lp.backPC), closed)
		}
		r.check(ok, "what is opened is closed", fnName(f), r.pos(ev.pos), "a part of the archive is left open")
	}
}

func ruleC18(r *Run) {
	o := r.ora()
	if o == nil {
		return
	}
	ignore := func(ev *Event) bool { // closing what was only read
		return strings.HasSuffix(ev.fn, ".Close") && !strings.Contains(ev.fn, "Writer")
	}
	own := map[*ssa.Function]bool{o.data: true, o.element: true, o.read: true, o.stack: true}
	for _, f := range []*ssa.Function{o.encode, o.data, o.element, o.decode, o.config, o.stack, o.read} {
		f := f
		r.guard("no error is lost", fnName(f), func() {
			e := r.exec()
			e.opaque = func(g *ssa.Function) bool { return own[g] && g != f }
			given := map[int]*T{}
			if f == o.data || f == o.element {
				arg, _, at := e.layerArg(r, f, "layer")
				given[at] = arg
			}
			res, out := e.call(e.start(), f, e.args(f, given), nil)
			if out == nil {
				panic(tooComplex("it does not return"))
			}
			r.noteFuncs(e)
			r.check(resultOf(f, "error") >= 0, "no error is lost", fnName(f), r.pos(f.Pos()), "it cannot say that it failed")
			r.noLostErrors(e, f, res, out, append(append([]*Event{}, e.events...), e.pures...), ignore)
			r.closes(e, f, out, e.events)
		})
	}
}

// carriesError: an error met in a round of a loop is kept in a variable with
// which there is neither another whole round nor success.
func (e *Exec) carriesError(lp *Loop, er, failed, good *T) bool {
	u := e.u
	at := u.And(lp.backPC, failed)
	for _, v := range lp.vars {
		if v.back == nil || v.cur == nil || v.cur.typ != nil && !types.Identical(v.cur.typ, errorT) {
			continue
		}
		if e.differ(v.back, er, at, 0) != "" {
			continue
		}
		set := u.Not(e.equal(v.cur, u.tNil, errorT))
		if !e.can(u.And(good, u.And(lp.entryPC, set))) && !e.can(u.And(lp.backPC, set)) {
			return true
		}
	}
	return false
}
