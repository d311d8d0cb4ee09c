package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "", "Value graphs of Decode, DecodeCompressed and DecodeConfig on a symbolic file of each version: the position of every read counted along, what is read from it, how wide the pointers are and where they lead; a file whose header is not of the format is refused before anything else is read.", ruleC21)
}

const xcfMagic = "gimp xcf "

// header gives the reader the first bytes of the file.
func header(e *Exec, ghost **Obj, text string) func(st *State, f *ssa.Function, args []*T) (*T, bool) {
	u := e.u
	return func(st *State, f *ssa.Function, args []*T) (*T, bool) {
		if *ghost == nil || pkgPathOf(f) != bio || f.Signature.Recv() == nil {
			return nil, false
		}
		at := u.mk(OAddr, (*ghost).id)
		pos, ok := e.load(st.mem, at, types.Typ[types.Int]).intVal()
		k, known := xsize(f.Name())
		if !ok || !known || pos >= int64(len(text)) || !strings.HasPrefix(f.Name(), "Read") {
			return nil, false
		}
		move := func(n int64) { e.store(st, at, u.Int(pos+n), types.Typ[types.Int]) }
		if k > 0 {
			if pos+k > int64(len(text)) {
				return nil, false
			}
			v := new(big.Int).SetBytes([]byte(text[pos : pos+k]))
			move(k)
			return u.BigInt(v), true
		}
		n, ok := e.length(args[1]).intVal()
		if !ok || pos+n > int64(len(text)) {
			return nil, false
		}
		bt := types.NewSlice(types.Typ[types.Uint8])
		for i := int64(0); i < n; i++ {
			e.store(st, e.elemAddr(args[1], u.Int(i), bt), u.Int(int64(text[pos+i])), types.Typ[types.Uint8])
		}
		move(n)
		return u.mk(OTuple, "", u.Int(n), u.tNil), true
	}
}

// handlesStream: the function is given the file, or what reads it.
func (r *Run) handlesStream(f *ssa.Function) bool {
	var is func(t types.Type) bool
	is = func(t types.Type) bool {
		switch s := types.TypeString(t, nil); s {
		case "io.ReaderAt", "*io.SectionReader", "*" + bio + ".StickyBigEndianReader", bio + ".StickyBigEndianReader":
			return true
		}
		if p, ok := t.(*types.Pointer); ok {
			return is(p.Elem())
		}
		if s, ok := t.Underlying().(*types.Struct); ok && pkgOf(t) == modPath+"/xcf" {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() && is(s.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	for _, p := range f.Params {
		if is(p.Type()) {
			return true
		}
	}
	for _, p := range f.FreeVars {
		if is(p.Type()) || is(deref(p.Type())) {
			return true
		}
	}
	return false
}

// readsPixels: it is given where the tiles are, and reads them.
func (r *Run) readsPixels(f *ssa.Function) bool {
	given := false
	for _, p := range f.Params {
		given = given || types.TypeString(p.Type(), nil) == "[]uint64"
	}
	if !given {
		return false
	}
	order, _ := r.reach(f)
	for _, g := range append([]*ssa.Function{f}, order...) {
		for _, h := range callees(g) {
			if k, ok := xsize(h.Name()); ok && k >= 4 && pkgPathOf(h) == bio {
				return false
			}
		}
		for _, a := range g.AnonFuncs {
			if r.handlesStream(a) {
				return false
			}
		}
	}
	return true
}

// xcfRun is a function that reads a file of some version.
type xcfRun struct {
	e      *Exec
	ghost  *Obj
	res    *T
	out    *State
	first  int // of the events of what is done at the same time
	pixels []*Event
}

func (r *Run) xcfFile(f *ssa.Function, text string) *xcfRun {
	e := r.exec()
	x := &xcfRun{e: e}
	head := header(e, &x.ghost, text)
	x.ghost = r.stream(e, true, func(st *State, f *ssa.Function, args []*T) (*T, bool) {
		if pkgPathOf(f) == modPath+"/xcf" && r.readsPixels(f) && r.keepsReader(f) {
			ev := e.event(st, "call", f.String(), f, args, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
			ev.res = e.result("r"+itoa(ev.n), resultType(f.Signature))
			e.store(st, e.u.mk(OAddr, x.ghost.id), e.u.Unknown("pixels"+itoa(ev.n), types.Typ[types.Int]), types.Typ[types.Int])
			x.pixels = append(x.pixels, ev)
			return ev.res, true
		}
		return head(st, f, args)
	})
	e.opaque = func(g *ssa.Function) bool {
		return pkgPathOf(g) == modPath+"/xcf" && g.Parent() == nil && (!r.handlesStream(g) || r.readsPixels(g))
	}
	x.res, x.out = e.call(e.start(), f, e.args(f, nil), nil)
	// what is done at the same time
	x.first = len(e.events)
	for i := 0; i < len(e.events); i++ {
		ev := e.events[i]
		if ev.kind != "go" || len(ev.args) == 0 || ev.args[0].op != OFunc {
			continue
		}
		st := &State{pc: ev.pc, mem: ev.mem.clone()}
		e.call(st, e.funcs[ev.args[0].aux], ev.args[1:], ev.args[0].args)
	}
	return x
}

// keepsReader: nothing is stored in a reader or a decoder.
func (r *Run) keepsReader(f *ssa.Function) bool {
	order, _ := r.reach(f)
	for _, g := range append([]*ssa.Function{f}, order...) {
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				st, ok := x.(*ssa.Store)
				if !ok {
					continue
				}
				t := deref(st.Addr.Type())
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					t = deref(fa.X.Type())
				} else if _, ok := st.Addr.(*ssa.Alloc); ok {
					continue
				}
				if pkgOf(t) == modPath+"/xcf" && r.holdsReader(t) {
					return false
				}
			}
		}
	}
	return true
}

func (r *Run) holdsReader(t types.Type) bool {
	rt := r.p.named("xcf", "reader")
	if types.Identical(t, rt) {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && r.holdsReader(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// read finds what is read so far from a place, in so many bytes.
func (x *xcfRun) read(from *T, off, size int64, first int) *Event {
	for _, ev := range x.e.events[first:] {
		if len(ev.loops) == 0 && isRead(ev, size) && x.where(ev) == x.e.u.addP(from, x.e.u.Int(off)) {
			return ev
		}
	}
	return nil
}

// where an event finds the file. A reader that has failed reads nothing, so it
// is a place of one that has not.
func (x *xcfRun) where(ev *Event) *T {
	e, pc := x.e, ev.pc
	if er := e.keptErr(ev); er != nil {
		if ok := e.u.And(pc, e.equal(er, e.u.tNil, errorT)); e.can(ok) {
			pc = ok
		}
	}
	return e.u.unwrapped(e.u.Restrict(e.u.Uncut(ev.mem.at(x.ghost.id)), pc))
}

// keptErr is the error that a big-endian reader has kept when it is called.
func (e *Exec) keptErr(ev *Event) *T {
	if ev.sf == nil || len(ev.args) == 0 || !strings.HasPrefix(ev.fn, "(*"+bio+".StickyBigEndian") {
		return nil
	}
	t := deref(ev.sf.Signature.Recv().Type())
	return e.load(ev.mem, e.addrAdd(ev.args[0], e.u.Int(int64(fieldIndex(t, "Err"))), t), errorT)
}

// entered is the condition under which a loop is entered by a reader that has
// not failed.
func (e *Exec) entered(lp *Loop) *T {
	for _, ev := range e.eventsIn(lp) {
		er := e.keptErr(ev)
		if er == nil {
			continue
		}
		er = e.u.Map(er, func(t *T) *T {
			for _, v := range lp.vars {
				if t == v.cur {
					return v.init
				}
			}
			return nil
		})
		if ok := e.u.And(lp.entryPC, e.equal(er, e.u.tNil, errorT)); e.can(ok) {
			return ok
		}
		break
	}
	return lp.entryPC
}

const (
	ruleHead = "the header is read and judged"
	rulePtr  = "pointers are as wide as the version says and lead to where they point"
)

var xcfVersions = []string{"file", "v001", "v002", "v003", "v004", "v005", "v006", "v007", "v008", "v009", "v010", "v011", "v012", "v013"}

func ruleC21(r *Run) {
	read := []string{"Decode", "DecodeCompressed", "DecodeConfig"}
	for _, name := range read {
		f := r.p.fn("xcf", name)
		if f == nil {
			r.missing("xcf." + name)
			continue
		}
		for n, v := range xcfVersions {
			if name == "DecodeCompressed" && r.tier == "quick" && n != 3 && n != 13 {
				continue
			}
			r.guard(ruleHead, v+" "+fnName(f), func() { r.version(f, n, v) })
		}
		// files that are not of the format
		for _, bad := range []string{xcfMagic + "v014\x00", xcfMagic + "v1\x000\x00", xcfMagic + "vile\x00", xcfMagic + "v003\x01", xcfMagic + "v011 ", "gimp xcf\x00v003\x00", "GIMP xcf v003\x00", "gimq xcf v003\x00", xcfMagic + "V003\x00", xcfMagic + "v\x0003\x00"} {
			key := fmt.Sprintf("%q %s", bad, fnName(f))
			bad := bad
			r.guard(ruleHead, key, func() {
				x := r.xcfFile(f, bad)
				for _, ev := range x.e.events {
					if ev.kind == "call" && isRead(ev, 4) {
						r.viol(ruleHead, key, r.pos(ev.pos), "the file is read although its header is not that of an XCF file")
						return
					}
				}
				r.check(x.out != nil && !x.e.can(x.e.success(f, x.res, x.out)), ruleHead, key, r.pos(f.Pos()), "no error is given for such a header")
			})
		}
	}
}

// version checks how a file of one version is read.
func (r *Run) version(f *ssa.Function, n int, v string) {
	x := r.xcfFile(f, xcfMagic+v+"\x00")
	e, u := x.e, x.e.u
	r.noteFuncs(e)
	key := v + " " + fnName(f)
	pos := r.pos(f.Pos())
	if x.out == nil || !r.check(e.can(e.success(f, x.res, x.out)), ruleHead, key, pos, "a file of this version is always refused") {
		return
	}
	for _, ev := range e.events {
		if ev.fn == "io.NewSectionReader" {
			to, ok := ev.args[2].intVal()
			r.check(ev.args[1] == u.zero && ok && to >= 1<<62, rulePtr, "range of the file, "+key, r.pos(ev.pos), "a part of the file is out of reach")
		}
	}
	var words [3]*Event
	for i := range words {
		words[i] = x.read(u.zero, int64(14+4*i), 4, 0)
		if words[i] == nil || !e.always(u.tTrue, words[i].pc) {
			r.viol(ruleHead, key, pos, "the width, the height and the base type are not read from after the header")
			return
		}
	}
	r.ok(ruleHead, key)
	var list *Loop
	for _, lp := range e.loops {
		if id, _ := e.propLoop(lp); id != nil && len(lp.outer) == 0 && lp.cellOf(x.ghost.id) != nil {
			list = lp
			break
		}
	}
	if list == nil {
		r.viol(ruleHead, "properties, "+key, pos, "the properties of the image are not read")
		return
	}
	begin := int64(26)
	if n >= 4 {
		begin = 30
	}
	at, _ := u.unwrapped(u.Restrict(list.cellOf(x.ghost.id).init, list.entryPC)).intVal()
	r.check(at == begin, ruleHead, "properties, "+key, r.pos(list.pos), fmt.Sprintf("the properties are read from byte %d, not %d", at, begin))
	if f.Name() == "DecodeConfig" {
		r.config(x, f, words, key)
		return
	}
	width := int64(4)
	if n >= 11 {
		width = 8
	}
	end := u.addP(list.cellOf(x.ghost.id).cur, u.Int(8))
	var ptr *T
	var ptrs *Loop
	read1 := map[*T]bool{}
	for _, ev := range e.events[:x.first] {
		if !isRead(ev, width) {
			continue
		}
		at := x.where(ev)
		if k := len(ev.loops); k == 0 && at == end {
			read1[ev.res] = true
		} else if k == 1 && ev.loops[0] != list {
			lp := ev.loops[0]
			at := u.subP(at, u.addP(end, u.mulP(u.Int(width), lp.kappa)))
			if at == u.zero {
				ptr, ptrs = ev.res, lp
			} else if at == u.Int(width) {
				for _, v := range lp.vars {
					if v.back == ev.res && read1[u.Restrict(v.init, lp.entryPC)] {
						ptr, ptrs = v.cur, lp
					}
				}
			}
		}
	}
	if !r.check(ptr != nil, rulePtr, "layers, "+key, pos, fmt.Sprintf("the list of layers is not read as pointers of %d bytes from after the properties", width)) {
		return
	}
	at1 := r.pos(ptrs.pos)
	var lists []*T
	for _, lv := range ptrs.vars {
		if lv.back == nil {
			continue
		}
		for _, l := range leaves(u.Restrict(lv.back, ptrs.backPC)) {
			if l.t.op == OAppend {
				if !r.check(len(l.t.args) == 3 && l.t.args[0] == lv.cur && e.always(ptrs.backPC, l.t.args[1]) && l.t.args[2] == ptr, rulePtr, "layers, "+key, at1, "what is put in the list of layers is not the pointer read") {
					return
				}
				lists = append(lists, lv.cur)
			}
		}
	}
	r.check(!e.can(u.And(ptrs.backPC, u.EQ0(ptr))), rulePtr, "end of layers, "+key, at1, "the list of layers does not end with a pointer of zero")
	after := u.tFalse
	for _, ev := range e.events[:x.first] {
		if ev.kind == "go" {
			after = u.Or(after, ev.pc)
		}
	}
	r.check(!e.can(u.And(after, u.Not(u.EQ0(ptr)))), rulePtr, "end of layers, "+key, at1, "the list of layers ends before a pointer of zero")
	seek := func(ev *Event) bool {
		return ev.fn == "(*io.SectionReader).Seek" && ev.args[2] == u.zero
	}
	var layer *T
	for _, ev := range e.events[x.first:] {
		if seek(ev) && layer == nil {
			vs := map[*T]bool{}
			u.deepVarsT(ev.args[1], vs)
			for _, l := range lists {
				if ev.args[1].op == OElem && (vs[l] || contains(ev.args[1], l)) {
					layer = ev.args[1]
				}
			}
		}
	}
	if !r.check(layer != nil, rulePtr, "layer, "+key, pos, "no layer is read from where a pointer of the list leads") {
		return
	}
	known := map[*T]bool{layer: true}
	want := func(what string, from *T, off, size int64) *Event {
		ev := x.read(from, off, size, x.first)
		p := pos
		if ev != nil {
			p = r.pos(ev.pos)
		}
		if !r.check(ev != nil && e.can(ev.pc), rulePtr, what+", "+key, p, fmt.Sprintf("no number of %d bytes is read from %d bytes behind its beginning", size, off)) {
			panic(tooComplex("the rest of " + what))
		}
		return ev
	}
	// numbers of four bytes, then a list of properties behind a string
	record := func(what string, from *T, words int64) *T {
		for i := int64(0); i <= words; i++ {
			want(what, from, 4*i, 4)
		}
		name := x.read(from, 4*words, 4, x.first)
		for _, lp := range e.loops {
			if id, _ := e.propLoop(lp); id == nil || len(lp.outer) > 0 || lp.cellOf(x.ghost.id) == nil {
				continue
			}
			c := lp.cellOf(x.ghost.id)
			good, mine, in := true, false, e.entered(lp)
			for _, l := range leaves(u.unwrapped(u.Restrict(u.Uncut(c.init), in))) {
				pc := in
				for _, y := range l.lits {
					pc = u.And(pc, e.lit(y))
				}
				if !contains(l.t, from) {
					good = false
					continue
				}
				mine = true
				d := u.subP(l.t, u.addP(from, u.Int(4*words+4)))
				if pc = u.And(pc, u.GE0(u.subP(u.Int(maxName), name.res))); e.can(pc) && !e.same(pc, d, name.res) {
					good = false
				}
			}
			if mine && good {
				return u.addP(c.cur, u.Int(8))
			}
		}
		r.viol(rulePtr, what+", "+key, pos, "its properties are not read from behind its name")
		panic(tooComplex("the rest of " + what))
	}
	pixels := 0
	hierarchy := func(what string, from *T) {
		known[from] = true
		for i := int64(0); i < 3; i++ {
			want(what, from, 4*i, 4)
		}
		level := want(what, from, 12, width).res
		known[level] = true
		want(what, level, 0, 4)
		want(what, level, 4, 4)
		var tiles *Loop
		for _, ev := range e.events[x.first:] {
			if k := len(ev.loops); k > 0 && isRead(ev, width) && x.where(ev) == u.addP(u.addP(level, u.Int(8)), u.mulP(u.Int(width), ev.loops[k-1].kappa)) {
				tiles = ev.loops[k-1]
			}
		}
		if !r.check(tiles != nil, rulePtr, "tiles of "+what+", "+key, pos, fmt.Sprintf("no list of tiles of %d bytes each is read from 8 bytes behind the beginning of the level", width)) {
			return
		}
		pixels++
	}
	end = record("layer", layer, 3)
	h, m := want("layer", end, 0, width), want("layer", end, width, width)
	hierarchy("picture of a layer", h.res)
	known[m.res] = true
	end = record("mask", m.res, 2)
	hierarchy("picture of a mask", want("mask", end, 0, width).res)
	r.check(len(x.pixels) > 0, rulePtr, "pixels, "+key, pos, "no pixels are read")
	for _, ev := range e.events[x.first:] {
		if seek(ev) {
			for _, l := range leaves(ev.args[1]) {
				r.check(known[l.t], rulePtr, "seek in "+fnName(ev.in)+", "+key, r.pos(ev.pos), "the place gone to is not one that was read as a pointer")
			}
		}
	}
	for k := range known {
		found := false
		for _, ev := range e.events[x.first:] {
			found = found || seek(ev) && contains(ev.args[1], k)
		}
		r.check(found, rulePtr, "pointer followed, "+key, pos, "a pointer is read and not followed")
	}
}

const maxName = 1 << 24

// contains: one term is a part of another.
func contains(t, part *T) bool {
	seen := map[*T]bool{}
	var in func(t *T) bool
	in = func(t *T) bool {
		if t == part {
			return true
		}
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if in(a) {
				return true
			}
		}
		return false
	}
	return in(t)
}

// config checks what DecodeConfig says.
func (r *Run) config(x *xcfRun, f *ssa.Function, words [3]*Event, key string) {
	e, u := x.e, x.e.u
	t := r.stdType("image", "Config")
	ok := e.success(f, x.res, x.out)
	c := u.Restrict(e.nth(x.res, 0, f), ok)
	const rule = "DecodeConfig tells the size and the colours of the image"
	for i, n := range []string{"Width", "Height"} {
		r.check(e.differ(e.field(c, fieldIndex(t, n), t), words[i].res, ok, 0) == "", rule, n+", "+key, r.pos(f.Pos()), "it is not what the file says")
	}
	for b, model := range []string{"image/color.NRGBAModel", modPath + "/lcolor.GrayAlphaModel", ""} {
		is := func(t *T) *T {
			return u.Map(u.Uncut(t), func(x *T) *T {
				if x == words[2].res {
					return u.Int(int64(b))
				}
				return nil
			})
		}
		pc := is(ok)
		key := fmt.Sprint("colours ", b, ", ", key)
		if !r.check(e.can(pc), rule, key, r.pos(f.Pos()), "there is always an error") {
			continue
		}
		got := u.Restrict(is(e.field(c, fieldIndex(t, "ColorModel"), t)), pc)
		if model == "" {
			for _, l := range leaves(got) {
				lpc := pc
				for _, y := range l.lits {
					lpc = u.And(lpc, e.lit(y))
				}
				r.check(!e.can(lpc) || e.always(lpc, e.isType(l.t, r.p.named("lcolor", "AlphaPalette"))), rule, key, r.pos(f.Pos()), "it is not the colour map of the file")
			}
			continue
		}
		i := strings.LastIndex(model, ".")
		g := r.p.prog.ImportedPackage(model[:i]).Var(model[i+1:])
		want := e.load(x.out.mem, e.globalAddr(g), deref(g.Type()))
		r.check(e.differ(got, want, pc, 0) == "", rule, key, r.pos(f.Pos()), "it is not that of the base type")
	}
}
