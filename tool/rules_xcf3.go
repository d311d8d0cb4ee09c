package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trip writes a file and reads it again: what is read from a place is what
// was written there.
type trip struct {
	r       *Run
	e       *Exec
	u       *U
	ghost   *Obj
	pics    map[*T]*Event // a picture that is read, and how it was written
	model   *T            // of the image that is written
	bound   *T
	palette []*T
	size    *T // of the canvas
	small   bool
	deep    bool // with the pixels
	faults  bool // reading, writing and seeking can fail
	failAt  int  // which of them does
	count   *Obj // of the accesses
	broken  *T   // the error
	where   string
	force   map[*T]*T    // numbers that are read from a place whatever was written
	at      map[*T][]int // the events of what is written at each place
	read    map[*Event]bool
}

// badTrip is a way in which the reading of what was written fails.
type badTrip struct {
	text string
	pos  string
}

const maxPic = 1 << 20

func (t *trip) fail(text string) {
	pos := t.r.pos(t.r.p.fn("xcf", "Encode").Pos())
	if n := len(t.e.sites); n > 0 {
		pos = t.r.pos(t.e.sites[n-1].Pos())
		for i := n - 1; i >= 0; i-- {
			if in := t.e.sites[i].Parent(); in != nil && isRepoPath(pkgPathOf(in)) {
				pos = t.r.pos(t.e.sites[i].Pos())
				break
			}
		}
	}
	panic(badTrip{text, pos})
}

func (r *Run) newTrip() *trip {
	e := r.exec()
	t := &trip{r: r, e: e, u: e.u, pics: map[*T]*Event{}, read: map[*Event]bool{}, at: map[*T][]int{}}
	t.ghost = e.newObj("ghost", types.Typ[types.Int], e.u.zero)
	t.count = e.newObj("accesses", types.Typ[types.Int], e.u.zero)
	e.recur, e.maxDepth, e.lean, e.roundMax = 8, 60, true, 1000
	e.summary = t.summary
	e.invoke = t.invoke
	e.progress = func(st *State) *T { return e.content(st.mem, t.ghost.id) }
	e.goNow = func(st *State) func(*State) {
		was := e.content(st.mem, t.ghost.id)
		return func(st *State) { st.mem.set(t.ghost.id, was) }
	}
	return t
}

// invoke is the writing at a place of the file.
func (t *trip) invoke(st *State, m *types.Func, recv *T, args []*T) (*T, bool) {
	if m.Name() != "WriteAt" || len(args) != 2 {
		return nil, false
	}
	p := args[0]
	if t.fails(st, "writing") {
		return t.u.mk(OTuple, "", t.u.zero, t.broken), true
	}
	n := t.e.length(p)
	val, typ := p, ""
	if p.op == OSlice && p.args[0].op == OAddr && p.args[1] == t.u.zero {
		if c := t.e.content(st.mem, p.args[0].aux); c.op == OBox && strings.HasPrefix(c.aux, "enc") {
			val, typ = c.args[0], c.aux[3:]
		}
	}
	if k, ok := n.intVal(); t.deep && typ == "" && ok && p.op == OSlice && k > 64 && k < 1<<16 {
		bt := types.NewSlice(types.Typ[types.Uint8])
		for i := int64(0); i < k; i++ {
			b := t.e.load(st.mem, t.e.elemAddr(p, t.u.Int(i), bt), types.Typ[types.Uint8])
			t.put(st, t.u.addP(args[1], t.u.Int(i)), t.u.one, b, t.e.tkey(types.Typ[types.Uint8]))
		}
		return t.u.mk(OTuple, "", n, t.u.tNil), true
	}
	if typ == "" {
		val = t.e.reify(st.mem, p, p.typ)
	}
	t.put(st, args[1], n, val, typ)
	return t.u.mk(OTuple, "", n, t.u.tNil), true
}

func (t *trip) put(st *State, at, n, val *T, typ string) {
	e := t.e
	var ins ssa.Instruction
	if k := len(e.sites); k > 0 {
		ins = e.sites[k-1]
	}
	if typ == "" {
		one := e.tkey(types.Typ[types.Uint8])
		switch {
		case val.op == OSeq:
			for i, b := range val.args {
				t.put(st, t.u.addP(at, t.u.Int(int64(i))), t.u.one, b, one)
			}
			return
		case val.op == OStr || val.op == OBox && val.aux == "bytes" && val.args[0].op == OStr:
			b, _ := constBytes(val)
			for i, c := range b {
				t.put(st, t.u.addP(at, t.u.Int(int64(i))), t.u.one, t.u.Int(int64(c)), one)
			}
			return
		case val.op == OAppend:
			whole := true
			for i := 1; i < len(val.args); i += 2 {
				whole = whole && val.args[i] == t.u.tTrue
			}
			if whole {
				head := val.args[0]
				k := e.length(head)
				if k != t.u.zero {
					t.put(st, at, k, head, "")
				}
				for i := 2; i < len(val.args); i += 2 {
					t.put(st, t.u.addP(at, t.u.addP(k, t.u.Int(int64(i/2-1)))), t.u.one, val.args[i], one)
				}
				return
			}
		}
	}
	args := []*T{t.clean(at, st.pc), t.clean(n, st.pc), val}
	var ev *Event
	if ins == nil { // it is given
		e.nevt++
		ev = &Event{n: e.nevt, kind: "item", pc: st.pc, fn: typ, args: args, mem: newMem()}
		e.events = append(e.events, ev)
	} else {
		ev = e.event(st, "item", typ, nil, args, nil, ins, e.stack[len(e.stack)-1])
	}
	t.at[ev.args[0]] = append(t.at[ev.args[0]], len(e.events)-1)
}

func (t *trip) clean(v, pc *T) *T { return t.u.unwrapped(t.u.Restrict(t.u.Uncut(v), pc)) }

// picture: the function writes or reads the pixels of an image. The one is
// given the image, its bounds and the number of channels, the other the width,
// the height and the kind of an image, which is its result.
func (t *trip) picture(f *ssa.Function, writes bool) bool {
	if pkgPathOf(f) != modPath+"/xcf" || f.Parent() != nil || len(f.Params) == 0 {
		return false
	}
	im := t.r.stdType("image", "Image")
	rt, _ := r2(t.r)
	images, bounds, ints := 0, 0, 0
	for _, p := range f.Params[1:] {
		switch ty := p.Type(); {
		case types.Identical(ty, im):
			images++
		case types.Identical(ty, rt):
			bounds++
		case intKind(ty) != "":
			ints++
		case writes && strings.Contains(types.TypeString(ty, nil), modPath+"."):
			return false
		}
	}
	first, rs := deref(f.Params[0].Type()), f.Signature.Results()
	if !writes {
		return rs.Len() > 0 && types.Identical(rs.At(0).Type(), im) && t.over(first, "StickyBigEndianReader") && ints == 3 && len(f.Params) == 4
	}
	return rs.Len() == 0 && t.over(first, "StickyBigEndianWriter") && images == 1 && bounds == 1 && ints == 1
}

// over: a struct of the package that has a big-endian reader or writer, not
// one that is no more than that.
func (t *trip) over(typ types.Type, name string) bool {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok || pkgOf(typ) != modPath+"/xcf" {
		return false
	}
	want := t.r.p.named(bio, name)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if ft := deref(f.Type()); types.Identical(ft, want) || t.over(ft, name) {
				return true
			}
		}
	}
	return false
}

// image gives what image the pixels of were written.
func (t *trip) image(pic *Event) *T {
	im := t.r.stdType("image", "Image")
	for i, p := range pic.sf.Params {
		if types.Identical(p.Type(), im) {
			return pic.args[i+1]
		}
	}
	panic(tooComplex("what is written of an image"))
}

func (t *trip) summary(st *State, f *ssa.Function, args []*T) (*T, bool) {
	e, u := t.e, t.u
	name := f.String()
	switch name {
	case "(" + modPath + ".Image).ColorModel":
		return t.model, true
	case "(" + modPath + ".Image).Bounds":
		if t.bound == nil {
			return nil, false
		}
		return t.bound, true
	case "errors.Is":
		a, b := u.Restrict(args[0], st.pc), u.Restrict(args[1], st.pc)
		named := func(v *T) bool { return v.op == OSym && strings.HasPrefix(v.aux, "global:io.") || v.op == ONil }
		if t.deep && (a == b || named(a) && named(b)) {
			return u.Bool(a == b), true
		}
		return nil, false
	case "io.CopyN":
		if !t.deep {
			return nil, false
		}
		to := u.Restrict(args[0], st.pc)
		n, ok := t.clean(args[2], st.pc).intVal()
		if to.op != OIface || !ok || !t.reads(st, u.Restrict(args[1], st.pc)) {
			panic(tooComplex("what is copied"))
		}
		if t.faults {
			src := u.Restrict(args[1], st.pc)
			buf := make([]*T, n)
			for i := range buf {
				buf[i] = u.zero
			}
			was := e.content(st.mem, t.ghost.id)
			res, out := e.static(st, e.p.method(e.typs[src.aux], "Read"), []*T{src.args[0], t.fixed(types.NewSlice(types.Typ[types.Uint8]), buf)}, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
			if out == nil {
				t.fail("it is not read")
			}
			*st = *out
			if er := u.Restrict(second(u, res), st.pc); er.op != ONil {
				return u.mk(OTuple, "", u.zero, er), true
			}
			st.mem.set(t.ghost.id, was)
		}
		bs := t.bytesAt(st, e.content(st.mem, t.ghost.id), n)
		if p := pkgOf(deref(e.typs[to.aux])); t.faults && p != memio && !isRepoPath(p) {
			bs = nil // what it is, is not looked at
		}
		for len(bs) > 0 {
			k := min(len(bs), 64)
			_, out := e.static(st, e.p.method(e.typs[to.aux], "Write"), []*T{to.args[0], t.fixed(types.NewSlice(types.Typ[types.Uint8]), bs[:k])}, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
			if out == nil {
				t.fail("it is not copied")
			}
			*st = *out
			bs = bs[k:]
		}
		st.mem.set(t.ghost.id, t.clean(u.addP(e.content(st.mem, t.ghost.id), u.Int(n)), st.pc))
		return u.mk(OTuple, "", u.Int(n), u.tNil), true
	case "math/bits.Mul64":
		a, ok := t.clean(args[0], st.pc).intVal()
		b, ok2 := t.clean(args[1], st.pc).intVal()
		if hi, lo := bits.Mul64(uint64(a), uint64(b)); ok && ok2 && a >= 0 && b >= 0 && hi == 0 && lo < 1<<63 {
			return u.mk(OTuple, "", u.zero, u.Int(int64(lo))), true
		}
		return nil, false
	case "(image/color.Palette).Index":
		return t.nearest(st, args)
	case "unicode/utf8.Valid":
		return u.tTrue, true // names are texts
	case "io.NewSectionReader":
		return e.symbolic("section"+itoa(e.nevt), resultType(f.Signature)), true
	case "(*io.SectionReader).Seek":
		if t.fails(st, "seeking") {
			return u.mk(OTuple, "", u.zero, t.broken), true
		}
		at := u.mk(OAddr, t.ghost.id)
		to := args[1]
		switch args[2] {
		case u.zero:
		case u.one:
			to = u.addP(e.load(st.mem, at, types.Typ[types.Int]), to)
		default:
			t.fail("a seek from the end of the file")
		}
		st.mem.set(t.ghost.id, t.clean(to, st.pc))
		return u.mk(OTuple, "", to, u.tNil), true
	case "io.ReadFull":
		if t.deep && t.buffered(st, args[0]) {
			return nil, false
		}
		if t.faults {
			src := u.Restrict(args[0], st.pc)
			res, out := e.static(st, e.p.method(e.typs[src.aux], "Read"), []*T{src.args[0], args[1]}, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
			if out == nil {
				t.fail("it is not read")
			}
			*st = *out
			return res, true
		}
		t.readBytes(st, args[1])
		return u.mk(OTuple, "", e.length(args[1]), u.tNil), true
	}
	k, known := xsize(f.Name())
	sticky := strings.HasPrefix(name, "(*"+bio+".StickyBigEndian")
	if sticky && t.deep {
		bt := deref(f.Signature.Recv().Type())
		for _, n := range []string{"Reader", "Writer"} {
			if i := fieldIndex(bt, n); i >= 0 && t.buffered(st, e.field(e.load(st.mem, args[0], bt), i, bt)) {
				return nil, false
			}
		}
	}
	if sticky && known && t.faults {
		if er := t.stuck(st, f, args[0], !strings.HasPrefix(f.Name(), "Write")); er != nil {
			switch rt := resultType(f.Signature).(type) {
			case nil:
				return nil, true
			case *types.Tuple:
				if rt.Len() == 2 {
					return u.mk(OTuple, "", u.zero, er), true
				}
				return nil, true
			}
			return u.zero, true
		}
	}
	switch {
	case sticky && known && strings.HasPrefix(f.Name(), "Write"):
		if er := t.write(st, f, args, k); er != nil && f.Name() == "Write" {
			return u.mk(OTuple, "", u.zero, er), true
		}
		if f.Name() == "Write" {
			return u.mk(OTuple, "", e.length(args[1]), u.tNil), true
		}
		return nil, true
	case sticky && known && f.Name() == "Read":
		t.readBytes(st, args[1])
		return u.mk(OTuple, "", e.length(args[1]), u.tNil), true
	case sticky && known:
		rt := resultType(f.Signature)
		v := t.readNumber(st, k, rt)
		if _, ok := rt.(*types.Tuple); ok {
			return u.mk(OTuple, "", v, u.tNil), true
		}
		return v, true
	case !t.deep && t.picture(f, true):
		return nil, t.writePicture(st, f, args)
	case !t.deep && t.picture(f, false):
		return t.readPicture(st, f, args), true
	}
	return nil, false
}

// fails says whether this is the one that fails.
func (t *trip) fails(st *State, what string) bool {
	if !t.faults {
		return false
	}
	n, ok := t.u.Restrict(t.e.content(st.mem, t.count.id), st.pc).intVal()
	if !ok {
		panic(tooComplex("what was accessed before"))
	}
	n++
	st.mem.set(t.count.id, t.u.Int(n))
	if int(n) != t.failAt {
		return false
	}
	for i := len(t.e.stack) - 1; i >= 0; i-- {
		if isRepoPath(pkgPathOf(t.e.stack[i])) {
			t.where = what + " in " + fnName(t.e.stack[i])
			break
		}
	}
	return true
}

// stuck gives the error that keeps a reader or writer from doing anything.
func (t *trip) stuck(st *State, f *ssa.Function, p *T, reads bool) *T {
	e, u := t.e, t.u
	typ := deref(f.Signature.Recv().Type())
	i := fieldIndex(typ, "Err")
	v := e.load(st.mem, p, typ)
	er := u.Restrict(e.field(v, i, typ), st.pc)
	switch {
	case er.op == OIte:
		panic(tooComplex("there may be an error"))
	case er.op != ONil:
		return er
	case reads && t.fails(st, "reading"):
		e.store(st, p, e.setField(v, i, t.broken, typ), typ)
		return t.broken
	}
	return nil
}

// write hands on what a big-endian writer is given.
func (t *trip) write(st *State, f *ssa.Function, args []*T, k int64) (er *T) {
	e, u := t.e, t.u
	wt := deref(f.Signature.Recv().Type())
	w := e.load(st.mem, args[0], wt)
	if er := u.Restrict(e.field(w, fieldIndex(wt, "Err"), wt), st.pc); er.op != ONil {
		t.fail("it is written although there may be an error")
	}
	to := u.Restrict(e.field(w, fieldIndex(wt, "Writer"), wt), st.pc)
	if to.op != OIface {
		panic(tooComplex("where it is written to"))
	}
	p := args[1]
	if k > 0 {
		bt := types.NewSlice(types.Typ[types.Uint8])
		vt := f.Params[1].Type()
		o := e.newObj("enc", bt, u.mkT(OBox, "enc"+e.tkey(vt), bt, args[1]))
		st.mem.set(o.id, o.init)
		p = u.mkT(OSlice, "", bt, u.mk(OAddr, o.id), u.zero, u.Int(k))
	}
	m := e.p.method(e.typs[to.aux], "Write")
	if m == nil {
		panic(tooComplex("where it is written to"))
	}
	res, out := e.static(st, m, []*T{to.args[0], p}, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
	if out == nil {
		t.fail("it is not written")
	}
	*st = *out
	if p != args[1] && p.op == OSlice {
		st.mem.del(p.args[0].aux)
	}
	if t.faults {
		if er = u.Restrict(second(u, res), st.pc); er.op == ONil {
			return nil
		}
		e.store(st, args[0], e.setField(e.load(st.mem, args[0], wt), fieldIndex(wt, "Err"), er, wt), wt)
	}
	return er
}

// found gives what was written at a place.
func (t *trip) found(at *T, pc *T) []*Event {
	var evs []*Event
	seen := map[int]bool{}
	for _, i := range t.at[at] {
		if i >= len(t.e.events) || seen[i] {
			continue
		}
		seen[i] = true
		if ev := t.e.events[i]; ev.kind == "item" && ev.args[0] == at && ev.args[1] != t.u.zero && t.u.And(ev.pc, pc) != t.u.tFalse {
			evs = append(evs, ev)
		}
	}
	return evs
}

// merged gives what was written at a place, be it by one call or, in another
// case, by another.
func (t *trip) merged(st *State, at *T, evs []*Event, f func(ev *Event) *T) *T {
	e, u := t.e, t.u
	var v *T
	have := u.tFalse
	for _, ev := range evs {
		if x := f(ev); v == nil {
			v = x
		} else {
			v = e.mergeVal(ev.pc, x, v)
		}
		have = u.Or(have, ev.pc)
		t.read[ev] = true
	}
	if u.And(st.pc, u.Not(have)) != u.tFalse && !e.always(st.pc, have) {
		t.fail("something is read that was not written")
	}
	return u.Restrict(v, st.pc)
}

func (t *trip) readNumber(st *State, k int64, typ types.Type) *T {
	e, u := t.e, t.u
	at := e.content(st.mem, t.ghost.id)
	if v := t.force[at]; v != nil {
		st.mem.set(t.ghost.id, u.addP(at, u.Int(k)))
		return v
	}
	evs := t.found(at, st.pc)
	same := len(evs) > 0
	for _, ev := range evs {
		same = same && ev.fn != "" && ev.args[1] == u.Int(k)
	}
	var v *T
	if same {
		v = t.merged(st, at, evs, func(ev *Event) *T {
			x := ev.args[2]
			if wt := e.typs[ev.fn]; intKind(typ) != "" && intKind(wt) != intKind(typ) {
				x = e.convert(st, x, wt, typ, 0, nil)
			}
			return x
		})
	} else {
		wt := unsigned[k]
		if v = t.join(st, t.bytesAt(st, at, k), wt); intKind(typ) != intKind(wt) {
			v = e.convert(st, v, wt, typ, 0, nil)
		}
	}
	st.mem.set(t.ghost.id, u.addP(at, u.Int(k)))
	return v
}

var unsigned = map[int64]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}

// bytesAt gives the bytes that were written from a place on.
func (t *trip) bytesAt(st *State, at *T, n int64) []*T {
	var bs []*T
	for int64(len(bs)) < n {
		p := t.clean(t.u.addP(at, t.u.Int(int64(len(bs)))), st.pc)
		evs := t.found(p, st.pc)
		if len(evs) == 0 {
			t.fail("something is read that was not written")
		}
		m, ok := evs[0].args[1].intVal()
		for _, ev := range evs {
			if ev.fn == "" {
				t.fail("a number is read where a text or a picture was written")
			}
			if ev.args[1] != evs[0].args[1] || !ok || int64(len(bs))+m > n {
				t.fail(fmt.Sprintf("a number of %d bytes is read where one of %v was written", n, ev.args[1]))
			}
		}
		for i := int64(0); i < m; i++ {
			bs = append(bs, t.merged(st, p, evs, func(ev *Event) *T { return t.split(st, ev.args[2], m, t.e.typs[ev.fn])[i] }))
		}
	}
	return bs
}

// split gives the bytes of a number.
func (t *trip) split(st *State, v *T, k int64, typ types.Type) []*T {
	ut := unsigned[k]
	if k == 1 && intKind(typ) == intKind(ut) {
		return []*T{v}
	}
	if intKind(typ) != intKind(ut) {
		v = t.e.convert(st, v, typ, ut, 0, nil)
	}
	var bs []*T
	for i := k - 1; i >= 0; i-- {
		bs = append(bs, t.e.convert(st, t.u.div(v, t.u.Int(1<<(8*i))), ut, types.Typ[types.Uint8], 0, nil))
	}
	return bs
}

// join gives the number that has some bytes.
func (t *trip) join(st *State, bs []*T, typ types.Type) *T {
	u := t.u
	n, known := int64(0), len(bs) < 8
	for _, b := range bs {
		if b.op == OIte {
			c := u.atom(b.args[0])
			sides := [2]*T{}
			for i, pc := range []*T{c, u.Not(c)} {
				var in []*T
				for _, b := range bs {
					in = append(in, u.Restrict(b, pc))
				}
				sides[i] = t.join(&State{pc: u.And(st.pc, pc), mem: st.mem}, in, typ)
			}
			return u.mkIteAtom(b.args[0], sides[0], sides[1])
		}
		x, ok := b.intVal()
		n, known = n<<8|x, known && ok
	}
	if known {
		return u.Int(n)
	}
	v := bs[len(bs)-1]
	if v.op == OWrap {
		v = v.args[0]
	}
	v = t.e.convert(st, v, types.Typ[types.Int], typ, 0, nil)
	for i, b := range t.split(st, v, int64(len(bs)), typ) {
		if !t.e.same(st.pc, b, bs[i]) {
			t.fail("a number is read where other bytes were written")
		}
	}
	return v
}

func constBytes(v *T) ([]byte, bool) {
	if v.op == OBox && v.aux == "bytes" {
		v = v.args[0]
	}
	if v.op == OStr {
		return []byte(v.aux), true
	}
	if v.op != OSeq {
		return nil, false
	}
	var b []byte
	for _, a := range v.args {
		n, ok := a.intVal()
		if !ok {
			return nil, false
		}
		b = append(b, byte(n))
	}
	return b, true
}

// readBytes fills a slice with what was written.
func (t *trip) readBytes(st *State, p *T) {
	e, u := t.e, t.u
	n := t.clean(e.length(p), st.pc)
	bt := types.NewSlice(types.Typ[types.Uint8])
	at := e.content(st.mem, t.ghost.id)
	off := u.zero
	first := true
	for off != n {
		evs := t.found(t.clean(u.addP(at, off), st.pc), st.pc)
		if len(evs) == 0 {
			t.fail("bytes are read that were not written")
		}
		ev := evs[0]
		if e.can(u.And(st.pc, u.Lt(u.subP(n, off), ev.args[1]))) {
			t.fail("a part of what was written is read")
		}
		if m, ok := ev.args[1].intVal(); ok && ev.fn != "" {
			for i, b := range t.bytesAt(st, u.addP(at, off), m) {
				e.store(st, e.elemAddr(p, u.addP(off, u.Int(int64(i))), bt), b, types.Typ[types.Uint8])
			}
		} else if len(evs) != 1 || !e.always(st.pc, ev.pc) {
			t.fail("bytes are read that were not written")
		} else if first && p.op == OSlice && p.args[1] == u.zero && p.args[0].op == OAddr && len(p.args[0].args) == 0 {
			st.mem.set(p.args[0].aux, ev.args[2])
		} else {
			panic(tooComplex("where bytes are read to"))
		}
		t.read[ev] = true
		first = false
		off = t.clean(u.addP(off, ev.args[1]), st.pc)
	}
	st.mem.set(t.ghost.id, t.clean(u.addP(at, n), st.pc))
}

// writePicture is the writing of pixels: so many bytes.
func (t *trip) writePicture(st *State, f *ssa.Function, args []*T) bool {
	e, u := t.e, t.u
	wt := t.r.p.named(bio, "StickyBigEndianWriter")
	w := t.holds(st, args[0], deref(f.Params[0].Type()), wt)
	if w == nil {
		panic(tooComplex("the writer of an image"))
	}
	ev := e.event(st, "pic", f.String(), f, args, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
	size := u.Int(100)
	if !t.small {
		size = ranged(e.symbolic("size"+itoa(ev.n), types.Typ[types.Int]), 1, maxPic)
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	o := e.newObj("enc", bt, u.mkT(OBox, "pixels", bt, u.Int(int64(ev.n))))
	st.mem.set(o.id, o.init)
	n := len(e.events)
	t.write(st, t.r.p.method(ptrTo(wt), "Write"), []*T{w, u.mkT(OSlice, "", bt, u.mk(OAddr, o.id), u.zero, size)}, 0)
	for _, it := range e.events[n:] {
		if it.kind == "item" {
			ev.args = append([]*T{it.args[0]}, ev.args...)
			return true
		}
	}
	panic(tooComplex("the writing of an image"))
}

// holds finds what a struct holds of some type.
func (t *trip) holds(st *State, p *T, typ, want types.Type) *T {
	e := t.e
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		q := e.addrAdd(p, t.u.Int(int64(i)), typ)
		if pt, ok := ft.(*types.Pointer); ok {
			q, ft = t.u.Restrict(e.load(st.mem, q, ft), st.pc), pt.Elem()
		}
		if types.Identical(ft, want) {
			return q
		}
		if pkgOf(ft) == modPath+"/xcf" {
			if a := t.holds(st, q, ft, want); a != nil {
				return a
			}
		}
	}
	return nil
}

func (t *trip) readPicture(st *State, f *ssa.Function, args []*T) *T {
	e, u := t.e, t.u
	at := e.content(st.mem, t.ghost.id)
	var pic *Event
	for _, ev := range e.events {
		if ev.kind == "pic" && ev.args[0] == at && e.always(st.pc, ev.pc) {
			pic = ev
		}
	}
	if pic == nil {
		t.fail("pixels are read from where none were written")
	}
	t.colours(st, f, args[0])
	// args: place, then those of the writer
	var w, h, ch *T
	rt, pt := r2(t.r)
	for i := range pic.sf.Params {
		p := pic.sf.Params[i].Type()
		v := pic.args[i+1]
		switch {
		case types.Identical(p, rt):
			w = u.subP(e.field(e.field(v, 1, rt), 0, pt), e.field(e.field(v, 0, rt), 0, pt))
			h = u.subP(e.field(e.field(v, 1, rt), 1, pt), e.field(e.field(v, 0, rt), 1, pt))
		case intKind(p) != "":
			ch = v
		}
	}
	if w == nil || ch == nil {
		panic(tooComplex("what is written of an image"))
	}
	if !e.same(st.pc, args[1], w) || !e.same(st.pc, args[2], h) {
		t.fail("the size of the pixels is not what was written")
	}
	kind, ok := u.Restrict(args[3], st.pc).intVal()
	c, ok2 := u.Restrict(ch, st.pc).intVal()
	if !ok || !ok2 || kind < 0 || kind > 5 || []int64{3, 4, 1, 2, 1, 2}[kind] != c {
		t.fail(fmt.Sprintf("pixels of %v channels are read as pixels of kind %v", ch, args[3]))
	}
	if kind == 2 {
		gt := t.r.stdType("image", "Gray")
		v := e.symbolic("mask"+itoa(pic.n), gt)
		z := u.mkT(OStruct, e.tkey(pt), pt, u.zero, u.zero)
		v = e.setField(v, fieldIndex(gt, "Rect"), u.mkT(OStruct, e.tkey(rt), rt, z, u.mkT(OStruct, e.tkey(pt), pt, args[1], args[2])), gt)
		o := e.newObj("gray", gt, v)
		st.mem.set(o.id, v)
		a := u.mk(OAddr, o.id)
		t.pics[a] = pic
		return u.mkT(OIface, e.tkey(ptrTo(gt)), t.r.stdType("image", "Image"), a)
	}
	nt := t.r.stdType("image", "NRGBA")
	o := e.newObj("read", nt, e.symbolic("read"+itoa(pic.n), nt))
	st.mem.set(o.id, o.init)
	a := u.mk(OAddr, o.id)
	t.pics[a] = pic
	return u.mkT(OIface, e.tkey(ptrTo(nt)), t.r.stdType("image", "Image"), a)
}

func r2(r *Run) (rt, pt types.Type) {
	return r.stdType("image", "Rectangle"), r.stdType("image", "Point")
}

// colours checks the palette of what reads a picture.
func (t *trip) colours(st *State, f *ssa.Function, d *T) {
	e, u := t.e, t.u
	dt := deref(f.Params[0].Type())
	s, ok := dt.Underlying().(*types.Struct)
	if t.palette == nil || !ok {
		return
	}
	v := e.load(st.mem, d, dt)
	for i := 0; i < s.NumFields(); i++ {
		if !types.Identical(s.Field(i).Type(), t.r.p.named("lcolor", "AlphaPalette")) {
			continue
		}
		p := u.Restrict(e.field(v, i, dt), st.pc)
		if n, ok := t.clean(e.length(p), st.pc).intVal(); !ok || n != int64(len(t.palette)) {
			t.fail("the palette has another number of colours")
		}
		for j, c := range t.palette {
			got := e.load(st.mem, e.elemAddr(p, u.Int(int64(j)), s.Field(i).Type()), t.r.stdType("image/color", "Color"))
			if d := e.differ(got, c, st.pc, 0); d != "" {
				t.fail("a colour of the palette is not what it was: " + clip(d, 200))
			}
		}
	}
}

// buffered: it is in memory.
func (t *trip) buffered(st *State, v *T) bool {
	v = t.u.Restrict(v, st.pc)
	return v.op == OIface && pkgOf(deref(t.e.typs[v.aux])) == memio
}

// reads: it is the file, read through a big-endian reader.
func (t *trip) reads(st *State, v *T) bool {
	if v.op != OIface {
		return false
	}
	typ := deref(t.e.typs[v.aux])
	return strings.HasPrefix(types.TypeString(typ, nil), bio+".StickyBigEndian") || t.over(typ, "StickyBigEndianReader")
}

// nearest finds the colour of a palette that is closest to another, where all
// are known.
func (t *trip) nearest(st *State, args []*T) (*T, bool) {
	e := t.e
	ct := t.r.stdType("image/color", "Color")
	rgba := func(v *T) (c [4]int64, ok bool) {
		v = t.u.Restrict(v, st.pc)
		if v.op != OIface {
			return c, false
		}
		m := e.p.method(e.typs[v.aux], "RGBA")
		if m == nil {
			return c, false
		}
		res, _ := e.static(st.clone(), m, []*T{v.args[0]}, nil, e.sites[len(e.sites)-1], e.stack[len(e.stack)-1])
		for i := range c {
			n, ok := e.nth(res, i, m).intVal()
			if !ok {
				return c, false
			}
			c[i] = n
		}
		return c, true
	}
	n, ok := t.clean(e.length(args[0]), st.pc).intVal()
	want, ok2 := rgba(args[1])
	if !ok || !ok2 || n > 300 {
		return nil, false
	}
	best, least := int64(0), uint32(1<<32-1)
	for i := int64(0); i < n; i++ {
		got, ok := rgba(e.load(st.mem, e.elemAddr(args[0], t.u.Int(i), types.NewSlice(ct)), ct))
		if !ok {
			return nil, false
		}
		sum := uint32(0)
		for k := range got {
			d := uint32(got[k] - want[k])
			sum += d * d >> 2
		}
		if sum < least {
			best, least = i, sum
		}
		if sum == 0 {
			break
		}
	}
	return t.u.Int(best), true
}

// ranged says what values a number can have.
func ranged(t *T, lo, hi int64) *T {
	t.lo, t.hi, t.rngd = big.NewInt(lo), big.NewInt(hi), true
	return t
}
