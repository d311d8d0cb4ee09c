package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "", "Value graphs of the function that writes a layer's pixels and of the one that writes its element, side by side for the same layer and number: the name of the part and the src attribute compared, what goes into the part, and the number that goes on to the next layer; over groups by the recurrence of the loop over the layers, any number of them.", ruleC16)
}

// errOf is the error result of a call event.
func (e *Exec) errOf(ev *Event) *T {
	if ev.res == nil {
		return nil
	}
	if ev.res.op == OTuple {
		for i := len(ev.res.args) - 1; i >= 0; i-- {
			if t := ev.res.args[i].typ; t != nil && types.Identical(t, errorT) {
				return ev.res.args[i]
			}
		}
		return nil
	}
	if t := ev.res.typ; t != nil && types.Identical(t, errorT) {
		return ev.res
	}
	return nil
}

// success is the condition under which a function returns a nil error.
func (e *Exec) success(f *ssa.Function, res *T, out *State) *T {
	if out == nil {
		return e.u.tFalse
	}
	i := resultOf(f, "error")
	if i < 0 {
		return out.pc
	}
	return e.u.And(out.pc, e.equal(e.nth(res, i, f), e.u.tNil, errorT))
}

func (e *Exec) can(c *T) bool { return c != e.u.tFalse && !e.infeasible(c) }

// always reports that a event happens wherever the condition holds.
func (e *Exec) always(c, pc *T) bool { return !e.can(e.u.And(c, e.u.Not(pc))) }

// eachElement shows that what the event does in a loop is done for every
// element of a list, in order: each round that is completed does it, the
// element is that of the round, and the rounds are over only when the list is.
// It gives the loop.
func (e *Exec) eachElement(ev *Event, n, good *T) (*Loop, string) {
	u := e.u
	if len(ev.loops) == 0 {
		return nil, "it is not done for each element"
	}
	lp := ev.loops[len(ev.loops)-1]
	if len(ev.loops) > 1 {
		return nil, "it is done in a loop within a loop"
	}
	if e.can(u.And(lp.backPC, u.Not(ev.pc))) {
		return nil, "a round of the loop can go without it"
	}
	c := u.And(good, u.And(lp.entryPC, u.Lt(lp.kappa, n)))
	if e.can(c) {
		return nil, "the loop can end before the last element where " + clip(c.String(), 200)
	}
	return lp, ""
}

// zipCreate recognises the making of a part of an archive and gives its name.
func (e *Exec) zipCreate(r *Run, ev *Event) (name, method *T) {
	if ev.kind != "call" || !strings.HasPrefix(ev.fn, "(*archive/zip.Writer).Create") {
		return nil, nil
	}
	switch ev.fn {
	case "(*archive/zip.Writer).Create":
		return e.strip(ev.args[1]), e.u.Int(8)
	case "(*archive/zip.Writer).CreateHeader":
		ht := r.stdType("archive/zip", "FileHeader")
		h := e.load(ev.mem, ev.args[1], ht)
		return e.field(h, fieldIndex(ht, "Name"), ht), e.field(h, fieldIndex(ht, "Method"), ht)
	}
	panic(tooComplex(ev.fn))
}

func (e *Exec) strip(t *T) *T { return e.u.Uncut(t) }

// pngEncode recognises the writing of a PNG and gives where to and what.
func pngEncode(ev *Event) (w, m *T) {
	switch ev.fn {
	case "image/png.Encode":
		return ev.args[0], ev.args[1]
	case "(*image/png.Encoder).Encode":
		return ev.args[1], ev.args[2]
	}
	return nil, nil
}

// first is the first result of a call event.
func first(ev *Event) *T {
	if ev.res != nil && ev.res.op == OTuple {
		return ev.res.args[0]
	}
	return ev.res
}

// walker is one of the functions that go down the layers.
type walker struct {
	f    *ssa.Function
	evs  []*Event
	res  *T
	out  *State
	good *T
	li   int // the parameter that is the layer
	ni   int // the parameter that is the number
	nr   int // the result that is the number
}

func ruleC16(r *Run) {
	o := r.ora()
	lt, it := r.p.named("", "Layer"), r.p.named("", "Image")
	if o == nil || lt == nil || it == nil {
		return
	}
	r.guard("numbers of the layers", "writers", func() {
		e := r.exec()
		u := e.u
		var lay *T
		num := u.Sym("num", types.Typ[types.Int])
		run := func(f *ssa.Function) *walker {
			w := &walker{f: f, ni: paramOf(f, "int"), nr: resultOf(f, "int")}
			if w.ni < 0 || w.nr < 0 {
				panic(tooComplex("no number goes through " + fnName(f)))
			}
			arg, l, at := e.layerArg(r, f, "layer")
			lay = l
			w.li = at
			n := len(e.events)
			w.res, w.out = e.call(e.start(), f, e.args(f, map[int]*T{at: arg, w.ni: num}), nil)
			w.evs = e.events[n:]
			w.good = e.success(f, w.res, w.out)
			r.analysed(f)
			return w
		}
		d := run(o.data)
		s := run(o.element)
		r.noteFuncs(e)
		img := e.field(lay, fieldIndex(lt, "Image"), lt)
		ptr := types.NewPointer(it)
		isImg, isPtr := u.atom(u.mk(OIs, e.tkey(it), img)), u.atom(u.mk(OIs, e.tkey(ptr), img))
		leaf := u.And(u.Not(isImg), u.Not(isPtr))
		dpos, spos := r.pos(o.data.Pos()), r.pos(o.element.Pos())

		// a leaf: one part, with the pixels in it
		var creates, encs []*Event
		for _, ev := range d.evs {
			if !e.can(u.And(ev.pc, leaf)) {
				continue
			}
			if n, _ := e.zipCreate(r, ev); n != nil {
				creates = append(creates, ev)
			} else if w, _ := pngEncode(ev); w != nil {
				encs = append(encs, ev)
			} else if strings.Contains(ev.fn, "archive/zip.") || ev.fn == fnName(o.data) || ev.sf == o.data {
				r.viol("one part", "leaf "+ev.fn, dpos, "the data of a layer that is not a group is written with more than a part of its own")
			}
		}
		if !r.check(len(creates) == 1 && e.always(leaf, creates[0].pc) && len(creates[0].loops) == 0, "one part", "leaf", dpos, fmt.Sprint("a layer that is not a group does not have just one part: ", len(creates))) {
			return
		}
		cr := creates[0]
		made := u.And(leaf, e.equal(e.errOf(cr), u.tNil, errorT))
		if r.check(len(encs) == 1 && e.always(made, encs[0].pc) && len(encs[0].loops) == 0, "the pixels", "leaf", dpos, "the image of a layer is not written once") {
			w, m := pngEncode(encs[0])
			at := u.And(leaf, encs[0].pc)
			dd := e.differ(w, first(cr), at, 0)
			r.check(dd == "", "the pixels", "where to", dpos, "the image is not written to the part that was made for it: "+dd)
			dd = e.differ(m, img, at, 0)
			r.check(dd == "", "the pixels", "what", dpos, "it is not the image of the layer that is written: "+dd)
		}
		name, _ := e.zipCreate(r, cr)
		name = u.Restrict(name, leaf)
		// distinct numbers make distinct names
		var parts []*T
		parts = append(parts, name)
		if name.op == OBox && name.aux == "strcat" {
			parts = name.args
		}
		nums, consts := 0, true
		var x *T
		for _, p := range parts {
			switch {
			case p.op == OCall && p.aux == "strconv.Itoa":
				nums++
				x = p.args[0]
			case p.op == OStr:
			default:
				consts = false
			}
		}
		inj := false
		if nums == 1 && consts {
			_, inj = u.subP(x, num).intVal()
		}
		r.check(inj, "a name of its own", "leaf", dpos, "the name of the part is not the number between constants: "+clip(name.String(), 200))
		gd, gs := u.And(d.good, leaf), u.And(s.good, leaf)
		nd, ns := e.nth(d.res, d.nr, d.f), e.nth(s.res, s.nr, s.f)
		stays := u.And(gd, u.Lt(nd, u.addP(num, u.Int(1))))
		r.check(!e.can(stays), "a name of its own", "next number", dpos, "the next layer can have the same number")
		// the element names the part
		var srcs []*T
		starts := 0
		save := e.events
		e.events = s.evs
		toks := e.tokens(r)
		e.events = save
		cover := u.tFalse
		for _, tk := range toks {
			if tk.kind != "StartElement" || !e.can(u.And(tk.pc, leaf)) {
				continue
			}
			starts++
			cover = u.Or(cover, tk.pc)
			n := 0
			for _, a := range tk.attrs {
				at := u.And(u.And(tk.pc, leaf), a.cond)
				if a.name.op != OStr || a.name.aux != "src" || !e.can(at) {
					continue
				}
				n++
				srcs = append(srcs, a.value)
				r.check(e.always(u.And(tk.pc, leaf), a.cond), "the element names the part", "always", spos, "an element can be without src")
				dd := e.differ(a.value, name, at, 0)
				r.check(dd == "", "the element names the part", "src", spos, "src is not the name of the part that holds the pixels: "+dd)
			}
			r.check(n == 1, "the element names the part", "once", spos, fmt.Sprint("an element has ", n, " src attributes"))
			r.check(tk.name.op == OStr && tk.name.aux == "layer", "the element names the part", "kind", spos, "the element of a layer is called "+tk.name.String())
			r.check(len(tk.ev.loops) == 0, "the element names the part", "one", spos, "a layer can have more than one element")
		}
		r.check(starts > 0 && e.always(gs, cover), "the element names the part", "there", spos, "a layer can be without an element")
		dd := e.differ(nd, ns, u.And(gd, gs), 0)
		r.check(dd == "", "numbers agree", "leaf", dpos, "after a layer the two count differently: "+dd)

		// groups
		for _, w := range []*walker{d, s} {
			w := w
			pos := r.pos(w.f.Pos())
			for _, c := range []struct {
				what string
				cond *T
				list *T
			}{
				{"group", isImg, e.payload(it, img)},
				{"pointer to a group", isPtr, e.load(newMem(), e.payload(ptr, img), it)},
			} {
				c := c
				key := fnName(w.f) + " " + c.what
				good := u.And(w.good, c.cond)
				if !r.check(e.can(good), "every layer of a group", key, pos, "a group cannot be written") {
					continue
				}
				var calls []*Event
				for _, ev := range w.evs {
					if !e.can(u.And(ev.pc, c.cond)) {
						continue
					}
					if n, _ := e.zipCreate(r, ev); n != nil {
						r.viol("every layer of a group", key+" part", pos, "a group has a part of its own")
					}
					if ev.sf == w.f {
						calls = append(calls, ev)
					}
				}
				nr := e.nth(w.res, w.nr, w.f)
				if !r.check(len(calls) == 1, "every layer of a group", key, pos, fmt.Sprint(len(calls), " ways down to the layers of a group, not one")) {
					continue
				}
				ev := calls[0]
				at := u.And(ev.pc, c.cond)
				given := ev.args[w.li]
				if _, ok := w.f.Params[w.li].Type().Underlying().(*types.Pointer); ok {
					given = e.load(ev.mem, given, lt)
				}
				same := func(i int) bool { // the other parameters go through
					return i == w.li || i == w.ni || e.differ(ev.args[i], e.symbolic(w.f.Params[i].Name(), w.f.Params[i].Type()), at, 0) == ""
				}
				for i := range w.f.Params {
					r.check(same(i), "every layer of a group", key+" same archive", pos, "the layers of a group are written elsewhere")
				}
				if len(ev.loops) == 0 { // the same list in another form
					dd := e.differ(e.imageOf(given, lt), u.mkT(OIface, e.tkey(it), img.typ, c.list), at, 0)
					dd += e.differ(ev.args[w.ni], num, at, 0)
					dd += e.differ(nr, e.nth(ev.res, w.nr, w.f), good, 0)
					r.check(dd == "" && c.cond != isImg, "every layer of a group", key, pos, "a group is not written layer by layer: "+dd)
					continue
				}
				n := e.length(c.list)
				lp, why := e.eachElement(ev, n, good)
				if !r.check(why == "", "every layer of a group", key, pos, why) {
					continue
				}
				l := e.load(newMem(), e.elemAddr(c.list, lp.kappa, it), lt)
				var dd string
				if w == d {
					dd = e.differ(e.imageOf(given, lt), e.imageOf(l, lt), at, 0)
				} else {
					dd = e.differ(given, l, at, 0)
				}
				r.check(dd == "", "every layer of a group", key+" in order", pos, "it is not the next layer that is written: "+dd)
				var v *LoopVar
				for _, x := range lp.vars {
					if e.differ(x.cur, ev.args[w.ni], at, 0) == "" {
						v = x
					}
				}
				if !r.check(v != nil, "numbers agree", key, pos, "the number is not carried from layer to layer: "+clip(ev.args[w.ni].String(), 100)) {
					continue
				}
				dd = e.differ(v.init, num, c.cond, 0)
				r.check(dd == "", "numbers agree", key+" first", pos, "the first layer of a group does not go on from the last number: "+dd)
				dd = e.differ(v.back, e.nth(ev.res, w.nr, w.f), u.And(lp.backPC, c.cond), 0)
				r.check(dd == "", "numbers agree", key+" next", pos, "a layer of a group does not go on from the one before it: "+dd)
				dd = e.differ(nr, v.cur, good, 0)
				r.check(dd == "", "numbers agree", key+" last", pos, "what comes after a group does not go on from its last layer: "+dd)
				failed := u.And(lp.backPC, u.Not(e.equal(e.errOf(ev), u.tNil, errorT)))
				r.check(!e.can(failed) || e.carriesError(lp, e.errOf(ev), failed, w.good), "every layer of a group", key+" errors", pos, "the loop goes on when a layer could not be written")
			}
		}
	})
	r.guard("numbers of the layers", "Encode", func() {
		e := r.exec()
		u := e.u
		e.opaque = func(f *ssa.Function) bool { return f == o.data || f == o.element }
		res, out := e.call(e.start(), o.encode, e.args(o.encode, nil), nil)
		good := e.success(o.encode, res, out)
		pos := r.pos(o.encode.Pos())
		var ds, ss []*Event
		for _, ev := range e.events {
			switch ev.sf {
			case o.data:
				ds = append(ds, ev)
			case o.element:
				ss = append(ss, ev)
			}
		}
		r.noteFuncs(e)
		if !r.check(len(ds) == 1 && len(ss) == 1 && len(ds[0].loops) == 0 && len(ss[0].loops) == 0 && e.always(good, ds[0].pc) && e.always(good, ss[0].pc), "the same layers", "Encode", pos, "the data and the elements are not each written once") {
			return
		}
		d, s := ds[0], ss[0]
		dl, sl := d.args[e.layerParam(o.data)], s.args[e.layerParam(o.element)]
		im := func(ev *Event, f *ssa.Function, l *T) *T {
			if _, ok := f.Params[e.layerParam(f)].Type().Underlying().(*types.Pointer); ok {
				l = e.load(ev.mem, l, lt)
			}
			return e.imageOf(l, lt)
		}
		dd := e.differ(im(d, o.data, dl), im(s, o.element, sl), good, 0)
		r.check(dd == "", "the same layers", "Encode", pos, "the elements are not of the layers whose data is written: "+dd)
		ni, mi := paramOf(o.data, "int"), paramOf(o.element, "int")
		dd = e.differ(d.args[ni], s.args[mi], good, 0)
		r.check(dd == "", "numbers agree", "Encode", pos, "the two do not start with the same number: "+dd)
		_ = u
	})
}

func (e *Exec) layerParam(f *ssa.Function) int {
	for _, t := range []string{"limage.Layer", "*limage.Layer", "image.Image"} {
		if i := paramOf(f, t); i >= 0 {
			return i
		}
	}
	panic(tooComplex("no layer goes into " + fnName(f)))
}

// imageOf is the image of a layer, or what is given in its place.
func (e *Exec) imageOf(l *T, lt types.Type) *T {
	if l.typ != nil && types.IsInterface(l.typ) {
		return l
	}
	return e.field(l, fieldIndex(lt, "Image"), lt)
}

// payload is what an interface value holds, taken to be of the type.
func (e *Exec) payload(t types.Type, x *T) *T {
	return e.u.lift1(func(x *T) *T {
		if x.op == OIface {
			return x.args[0]
		}
		return e.opq(e.u.mkT(OPayload, e.tkey(t), t, x), t)
	}, x)
}

// isType is the condition that a value has a dynamic type.
func (e *Exec) isType(x *T, t types.Type) *T {
	return e.u.lift1(func(x *T) *T {
		switch x.op {
		case ONil:
			return e.u.tFalse
		case OIface:
			return e.u.Bool(types.Identical(e.typs[x.aux], t))
		}
		return e.u.atom(e.u.mk(OIs, e.tkey(t), x))
	}, x)
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }
