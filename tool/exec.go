package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Exec translates SSA functions to the value graph: one forward dataflow pass
// over the blocks of a function, in which the states of joining edges are
// merged into gated values. Calls of functions of the repository are expanded
// in place, loops are unrolled where they provably have a constant trip count
// and are summarised by induction variables otherwise.
type Exec struct {
	p     *Prog
	u     *U
	objs  map[string]*Obj
	typs  map[string]types.Type
	funcs map[string]*ssa.Function

	nobj, nevt, nkap int

	events []*Event
	pures  []*Event // calls of pure functions that can fail
	obl    []*Oblig
	loops  []*Loop
	curLp  []*Loop
	stack  []*ssa.Function
	sites  []ssa.Instruction // of the calls under way

	opaque   func(*ssa.Function) bool
	summary  func(st *State, f *ssa.Function, args []*T) (*T, bool)
	pureStd  func(*ssa.Function) bool
	ginit    map[string]*T
	initDone map[string]bool
	mutGlob  map[*ssa.Global]bool
	maxDepth int
	steps    int
	maxSteps int
	also     map[string]bool // packages and functions that are expanded, too
	noUnroll bool
	inlined  map[*ssa.Function]bool

	recur    int                // how often a function may be called within itself
	progress func(st *State) *T // a loop whose rounds change this is unrolled
	invoke   func(st *State, m *types.Func, recv *T, args []*T) (*T, bool)
	goNow    func(st *State) func(*State) // what is done at the same time is done at once
	roundMax int                          // of a loop that are followed
	lean     bool                         // events do not keep the memory
	backward bool                         // maps are gone through in the other direction
}

type Obj struct {
	id   string
	typ  types.Type // of the content; a slice type marks the elements behind a slice
	init *T
}

type State struct {
	pc  *T
	mem *Mem
	env map[ssa.Value]*T
	def []*deferred
}

type deferred struct {
	pc   *T
	call *ssa.CallCommon
	fn   *T
	args []*T
	ins  ssa.Instruction
}

type Event struct {
	n     int
	kind  string // call, go, panic, send
	pc    *T
	fn    string
	sf    *ssa.Function
	args  []*T
	res   *T
	ins   ssa.Instruction
	in    *ssa.Function
	pos   token.Pos
	loops []*Loop
	mem   *Mem
}

type Oblig struct {
	kind  string
	pc    *T
	t     []*T
	pos   token.Pos
	in    *ssa.Function
	loops []*Loop
}

type LoopVar struct {
	phi             *ssa.Phi
	obj             string // for a memory cell
	path            []*T
	init, cur, back *T
}

type Loop struct {
	n       int
	fn      *ssa.Function
	header  *ssa.BasicBlock
	kappa   *T
	entryPC *T
	backPC  *T
	headPC  *T
	vars    []*LoopVar
	outer   []*Loop
	pos     token.Pos
	guard   *T // the condition under which the header goes on with the body
	exits   []*T
}

type tooComplex string

func NewExec(p *Prog) *Exec {
	return &Exec{p: p, u: NewU(), objs: map[string]*Obj{}, typs: map[string]types.Type{}, funcs: map[string]*ssa.Function{}, ginit: map[string]*T{}, initDone: map[string]bool{}, mutGlob: map[*ssa.Global]bool{}, inlined: map[*ssa.Function]bool{}, maxDepth: 40, maxSteps: 3000000}
}

func (e *Exec) tkey(t types.Type) string {
	k := types.TypeString(types.Unalias(t), nil)
	if _, ok := e.typs[k]; !ok {
		e.typs[k] = t
	}
	return k
}

func (e *Exec) fnTerm(f *ssa.Function, binds ...*T) *T {
	k := f.String()
	if g, ok := e.funcs[k]; ok && g != f {
		k += "@" + strconv.Itoa(int(f.Pos()))
	}
	e.funcs[k] = f
	return e.u.mkT(OFunc, k, f.Signature, binds...)
}

// ---- values of types

func (e *Exec) zero(t types.Type) *T {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsInteger != 0:
			return e.u.zero
		case x.Info()&types.IsString != 0:
			return e.u.Str("")
		case x.Info()&types.IsBoolean != 0:
			return e.u.tFalse
		case x.Info()&types.IsFloat != 0:
			return e.u.Float(0)
		}
		return e.u.tNil
	case *types.Struct:
		as := make([]*T, x.NumFields())
		for n := range as {
			as[n] = e.zero(x.Field(n).Type())
		}
		return e.u.mkT(OStruct, e.tkey(t), t, as...)
	case *types.Array:
		if x.Len() > 64 {
			return e.u.mkT(OZeroArr, e.tkey(t), t)
		}
		as := make([]*T, x.Len())
		for n := range as {
			as[n] = e.zero(x.Elem())
		}
		return e.u.mkT(OArray, e.tkey(t), t, as...)
	case *types.Tuple:
		as := make([]*T, x.Len())
		for n := range as {
			as[n] = e.zero(x.At(n).Type())
		}
		return e.u.mk(OTuple, "", as...)
	}
	return e.u.tNil
}

// symbolic makes a free value of a type; a boolean is a decision.
func (e *Exec) symbolic(name string, t types.Type) *T { return e.opq(e.u.Sym(name, t), t) }

// opq makes an opaque term usable as a value of its type.
func (e *Exec) opq(t *T, typ types.Type) *T {
	if typ != nil && isBool(typ) {
		return e.u.atom(e.u.mk(OPred, "", t))
	}
	return t
}

func (e *Exec) field(t *T, n int, st types.Type) *T {
	s := st.Underlying().(*types.Struct)
	return e.u.lift1(func(t *T) *T {
		if t.op == OStruct && n < len(t.args) {
			return t.args[n]
		}
		ft := s.Field(n).Type()
		f := e.u.mkT(OField, strconv.Itoa(n), ft, t)
		return e.opq(f, ft)
	}, t)
}

func (e *Exec) setField(t *T, n int, v *T, st types.Type) *T {
	s := st.Underlying().(*types.Struct)
	return e.u.lift1(func(t *T) *T {
		as := make([]*T, s.NumFields())
		for i := range as {
			if i == n {
				as[i] = v
			} else {
				as[i] = e.field(t, i, st)
			}
		}
		return e.u.mkT(OStruct, e.tkey(st), st, as...)
	}, t)
}

// distinct reports that two indexes differ by a non-zero constant.
func (e *Exec) distinct(a, b *T) bool {
	if a.op == OIte || b.op == OIte {
		return false
	}
	c, ok := e.u.polyOf(a).Sub(e.u.polyOf(b)).constVal()
	return ok && c.Sign() != 0
}

func (e *Exec) elem(t, i *T, et types.Type) *T {
	return e.u.lift2(func(t, i *T) *T {
		switch t.op {
		case OArray:
			if n, ok := i.intVal(); ok {
				if n >= 0 && int(n) < len(t.args) {
					return t.args[n]
				}
			} else if len(t.args) > 0 && len(t.args) <= 64 {
				r := t.args[len(t.args)-1]
				same := true
				for _, a := range t.args {
					if a != r {
						same = false
					}
				}
				if same {
					return r
				}
				for n := len(t.args) - 2; n >= 0; n-- {
					r = e.mergeVal(e.u.EQ0(e.u.subP(i, e.u.Int(int64(n)))), t.args[n], r)
				}
				return r
			}
		case OZeroArr:
			return e.zero(et)
		case OUpd:
			if i.op == OInt {
				for t.op == OUpd && t.args[1].op == OInt && t.args[1] != i {
					t = t.args[0]
				}
				if t.op != OUpd {
					return e.elem(t, i, et)
				}
			}
			if t.args[1] == i {
				return t.args[2]
			}
			r := e.elem(t.args[0], i, et)
			if e.distinct(t.args[1], i) {
				return r
			}
			return e.mergeVal(e.u.EQ0(e.u.subP(t.args[1], i)), t.args[2], r)
		case OSeq:
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(t.args) {
				return t.args[n]
			}
		case OAppend:
			if n, ok := i.intVal(); ok && t.args[0].op == OSeq {
				bl := int64(len(t.args[0].args))
				if n < bl {
					return t.args[0].args[n]
				}
				k := bl
				for j := 1; j+1 < len(t.args); j += 2 {
					if t.args[j] != e.u.tTrue {
						break
					}
					if k == n {
						return t.args[j+1]
					}
					k++
				}
			}
		case OBox:
			if t.aux == "backing" && t.args[0].op != OSym {
				if s := t.args[0]; s.op == OSeq || s.op == OAppend {
					return e.elem(s, i, et)
				}
			}
		case OStr:
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(t.aux) {
				return e.u.Int(int64(t.aux[n]))
			}
		}
		return e.opq(e.u.mkT(OElem, "", et, t, i), et)
	}, t, i)
}

func (e *Exec) setElem(t, i, v *T) *T {
	return e.u.lift2(func(t, i *T) *T {
		if t.op == OArray {
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(t.args) {
				as := append([]*T{}, t.args...)
				as[n] = v
				return e.u.mkT(OArray, t.aux, t.typ, as...)
			}
		}
		b := t
		if b.op == OUpd && b.args[1] == i {
			b = b.args[0]
		}
		return e.u.mkT(OUpd, "", t.typ, b, i, v)
	}, t, i)
}

// mergeVal joins two values, keeping their common shape.
func (e *Exec) mergeVal(c, a, b *T) *T {
	if a == b || c == e.u.tTrue {
		return a
	}
	if c == e.u.tFalse {
		return b
	}
	if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 {
		switch a.op {
		case OStruct, OTuple, OIface, OArray, OSlice, OSeq:
			as := make([]*T, len(a.args))
			for n := range as {
				as[n] = e.mergeVal(c, a.args[n], b.args[n])
			}
			return e.u.mkT(a.op, a.aux, a.typ, as...)
		case OUpd:
			if a.args[1] == b.args[1] {
				return e.u.mkT(OUpd, "", a.typ, e.mergeVal(c, a.args[0], b.args[0]), a.args[1], e.mergeVal(c, a.args[2], b.args[2]))
			}
		}
	}
	if isSeq(a) && isSeq(b) && (a.op == OAppend || b.op == OAppend) {
		ba, pa := seqParts(a)
		bb, pb := seqParts(b)
		if ba == bb {
			n := 0
			for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
				n++
			}
			n &^= 1
			out := append([]*T{ba}, pa[:n]...)
			for j := n; j < len(pa); j += 2 {
				if g := e.u.And(c, pa[j]); g != e.u.tFalse {
					out = append(out, g, pa[j+1])
				}
			}
			nc := e.u.Not(c)
			for j := n; j < len(pb); j += 2 {
				if g := e.u.And(nc, pb[j]); g != e.u.tFalse {
					out = append(out, g, pb[j+1])
				}
			}
			if len(out) == 1 {
				return ba
			}
			return e.u.mkT(OAppend, "", a.typ, out...)
		}
	}
	if a.op == OUpd && a.args[0] == b {
		i := a.args[1]
		if i.op != OIte && a.args[2].typ != nil {
			return e.u.mkT(OUpd, "", a.typ, b, i, e.mergeVal(c, a.args[2], e.elem(b, i, a.args[2].typ)))
		}
	}
	return e.u.Ite(c, a, b)
}

func isSeq(t *T) bool {
	return t.op == OAppend || t.op == OSeq && len(t.args) == 0 || t.op != OIte && t.op != ONil && t.op != OSlice
}

func seqParts(t *T) (*T, []*T) {
	if t.op == OAppend {
		return t.args[0], t.args[1:]
	}
	return t, nil
}

// ---- memory

func (e *Exec) newObj(kind string, t types.Type, init *T) *Obj {
	e.nobj++
	o := &Obj{id: kind + strconv.Itoa(e.nobj), typ: t, init: init}
	e.objs[o.id] = o
	return o
}

// addrOf gives the object and path of a pointer that is no decision.
func (e *Exec) addrOf(p *T, elem types.Type) (string, []*T) {
	if p.op == OAddr {
		return p.aux, p.args
	}
	id := "*" + strconv.Itoa(p.id)
	if _, ok := e.objs[id]; !ok {
		e.objs[id] = &Obj{id: id, typ: elem, init: e.opq(e.u.mkT(ODeref, "", elem, p), elem)}
	}
	return id, nil
}

func (e *Exec) content(mem *Mem, id string) *T {
	if t, ok := mem.get(id); ok {
		return t
	}
	if strings.HasPrefix(id, "g:") {
		return e.global(id)
	}
	o := e.objs[id]
	if o == nil {
		return e.u.Unknown("object "+id, nil)
	}
	return o.init
}

func (e *Exec) getPath(t *T, typ types.Type, path []*T) *T {
	for _, i := range path {
		switch x := typ.Underlying().(type) {
		case *types.Struct:
			n, _ := i.intVal()
			t = e.field(t, int(n), typ)
			typ = x.Field(int(n)).Type()
		case *types.Array:
			t = e.elem(t, i, x.Elem())
			typ = x.Elem()
		case *types.Slice:
			t = e.elem(t, i, x.Elem())
			typ = x.Elem()
		default:
			return e.u.Unknown("path", nil)
		}
	}
	return t
}

func (e *Exec) setPath(t *T, typ types.Type, path []*T, v *T) *T {
	if len(path) == 0 {
		return v
	}
	i := path[0]
	switch x := typ.Underlying().(type) {
	case *types.Struct:
		n, _ := i.intVal()
		ft := x.Field(int(n)).Type()
		return e.setField(t, int(n), e.setPath(e.field(t, int(n), typ), ft, path[1:], v), typ)
	case *types.Array:
		return e.setElem(t, i, e.setPath(e.elem(t, i, x.Elem()), x.Elem(), path[1:], v))
	case *types.Slice:
		return e.setElem(t, i, e.setPath(e.elem(t, i, x.Elem()), x.Elem(), path[1:], v))
	}
	return e.u.Unknown("path", nil)
}

func (e *Exec) objType(id string) types.Type {
	if o := e.objs[id]; o != nil {
		return o.typ
	}
	return types.Typ[types.Invalid]
}

func (e *Exec) load(mem *Mem, p *T, elem types.Type) *T {
	return e.u.lift1(func(p *T) *T {
		if p.op == ONil {
			return e.zero(elem)
		}
		id, path := e.addrOf(p, elem)
		return e.getPath(e.content(mem, id), e.objType(id), path)
	}, p)
}

func (e *Exec) store(st *State, p, v *T, elem types.Type) {
	for _, l := range leaves(p) {
		if l.t.op == ONil {
			continue
		}
		c := e.u.tTrue
		for _, x := range l.lits {
			a := e.u.atom(x.atom)
			if !x.val {
				a = e.u.Not(a)
			}
			c = e.u.And(c, a)
		}
		id, path := e.addrOf(l.t, elem)
		old := e.content(st.mem, id)
		st.mem.set(id, e.mergeVal(c, e.setPath(old, e.objType(id), path, v), old))
	}
}

func (e *Exec) addrAdd(p *T, i *T, elem types.Type) *T {
	return e.u.lift2(func(p, i *T) *T {
		if p.op == ONil {
			return p
		}
		id, path := e.addrOf(p, elem)
		return e.u.mkT(OAddr, id, nil, append(append([]*T{}, path...), i)...)
	}, p, i)
}

// ---- slices

func (e *Exec) backing(s *T, st types.Type) *T {
	id := "[]" + strconv.Itoa(s.id)
	if _, ok := e.objs[id]; !ok {
		e.objs[id] = &Obj{id: id, typ: st, init: e.u.mkT(OBox, "backing", st, s)}
	}
	return e.u.mk(OAddr, id)
}

func (e *Exec) length(s *T) *T {
	return e.u.lift1(func(s *T) *T {
		switch s.op {
		case ONil:
			return e.u.zero
		case OSlice:
			return s.args[2]
		case OSeq:
			return e.u.Int(int64(len(s.args)))
		case OStr:
			return e.u.Int(int64(len(s.aux)))
		case OArray:
			return e.u.Int(int64(len(s.args)))
		case OAppend:
			n := e.length(s.args[0])
			for j := 1; j+1 < len(s.args); j += 2 {
				n = e.u.addP(n, e.u.Ite(s.args[j], e.u.one, e.u.zero))
			}
			return n
		case OConcat:
			return e.u.addP(e.length(s.args[0]), e.length(s.args[1]))
		case OBox:
			switch s.aux {
			case "bytes", "string":
				return e.length(s.args[0])
			case "substr":
				return e.u.subP(s.args[2], s.args[1])
			case "strcat":
				n := e.u.zero
				for _, a := range s.args {
					n = e.u.addP(n, e.length(a))
				}
				return n
			}
		}
		return e.u.mk(OLen, "", s)
	}, s)
}

func (e *Exec) slice(base *T, off, n *T, st types.Type) *T {
	if base.op == OAddr && len(base.args) == 0 && strings.HasPrefix(base.aux, "[]") && off == e.u.zero {
		o := e.objs[base.aux]
		if o.init.op == OBox && o.init.aux == "backing" && n == e.length(o.init.args[0]) {
			return o.init.args[0]
		}
	}
	return e.u.mkT(OSlice, "", st, base, off, n)
}

// elemAddr is the address of s[i].
func (e *Exec) elemAddr(s, i *T, st types.Type) *T {
	return e.u.lift2(func(s, i *T) *T {
		switch s.op {
		case ONil:
			return s
		case OSlice:
			b := s.args[0]
			return e.u.lift1(func(b *T) *T {
				return e.u.mkT(OAddr, b.aux, nil, append(append([]*T{}, b.args...), e.u.addP(s.args[1], i))...)
			}, b)
		}
		b := e.backing(s, st)
		return e.u.mk(OAddr, b.aux, i)
	}, s, i)
}

// reify replaces slices of few known elements by their elements.
func (e *Exec) reify(mem *Mem, t *T, typ types.Type) *T {
	if typ == nil {
		return t
	}
	st, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return t
	}
	return e.u.lift1(func(t *T) *T {
		if t.op == ONil {
			return e.u.mk(OSeq, "")
		}
		if t.op != OSlice {
			return t
		}
		n, ok := t.args[2].intVal()
		if !ok || n > 64 {
			return t
		}
		as := make([]*T, n)
		for i := range as {
			as[i] = e.load(mem, e.elemAddr(t, e.u.Int(int64(i)), typ), st.Elem())
		}
		return e.u.mkT(OSeq, "", typ, as...)
	}, t)
}

// ---- globals

func (e *Exec) globalAddr(g *ssa.Global) *T {
	id := "g:" + g.String()
	if _, ok := e.objs[id]; !ok {
		e.objs[id] = &Obj{id: id, typ: g.Type().Underlying().(*types.Pointer).Elem()}
		e.prepGlobal(id, g)
	}
	return e.u.mk(OAddr, id)
}

func (e *Exec) prepGlobal(id string, g *ssa.Global) {
	o := e.objs[id]
	path := g.Pkg.Pkg.Path()
	inl := isRepoPath(path) || path == "image" || path == "image/color"
	if !inl || e.globalMutable(g) {
		e.ginit[id] = e.opq(e.u.mkT(OSym, "global:"+g.String(), o.typ), o.typ)
		return
	}
	if !e.initDone[path] {
		e.initDone[path] = true
		e.runInit(g.Pkg)
	}
}

func (e *Exec) global(id string) *T {
	if t, ok := e.ginit[id]; ok {
		return t
	}
	o := e.objs[id]
	return e.zero(o.typ)
}

func (e *Exec) globalMutable(g *ssa.Global) bool {
	if m, ok := e.mutGlob[g]; ok {
		return m
	}
	mut := false
	var loadsOnly func(v ssa.Value) bool
	loadsOnly = func(v ssa.Value) bool {
		rs := v.Referrers()
		if rs == nil {
			return true
		}
		for _, r := range *rs {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !loadsOnly(r) {
					return false
				}
			case *ssa.IndexAddr:
				if !loadsOnly(r) {
					return false
				}
			case *ssa.Slice:
			default:
				return false
			}
		}
		return true
	}
	for f := range e.p.all {
		if f.Blocks == nil || f.Synthetic == "package initializer" || !(e.p.inRepo(f) || pkgPathOf(f) == g.Pkg.Pkg.Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
						mut = mut || !loadsOnly(in)
					case *ssa.IndexAddr:
						mut = mut || !loadsOnly(in)
					case *ssa.Slice:
					default:
						mut = true
					}
				}
			}
		}
	}
	e.mutGlob[g] = mut
	return mut
}

// runInit evaluates the initialisers of a package.
func (e *Exec) runInit(pkg *ssa.Package) {
	f := pkg.Func("init")
	if f == nil {
		return
	}
	saveE, saveO, saveS, saveL := e.events, e.obl, e.stack, e.curLp
	e.stack, e.curLp = nil, nil
	st := &State{pc: e.u.tTrue, mem: newMem(), env: map[ssa.Value]*T{}}
	// the guard is false when the package is first initialised
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			id := "g:" + g.String()
			if _, ok := e.objs[id]; !ok {
				e.objs[id] = &Obj{id: id, typ: g.Type().Underlying().(*types.Pointer).Elem()}
			}
			st.mem.set(id, e.zero(e.objs[id].typ))
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooComplex); !ok {
					panic(r)
				}
			}
		}()
		_, out := e.call(st, f, nil, nil)
		if out != nil {
			st = out
		}
	}()
	e.events, e.obl, e.stack, e.curLp = saveE, saveO, saveS, saveL
	for id, t := range st.mem.all {
		if strings.HasPrefix(id, "g:"+pkg.Pkg.Path()+".") {
			if m, ok := pkg.Members[strings.TrimPrefix(id, "g:"+pkg.Pkg.Path()+".")].(*ssa.Global); ok && e.globalMutable(m) {
				continue
			}
			e.ginit[id] = t
		} else if o := e.objs[id]; o != nil {
			o.init = t // objects that initialisers made
		}
	}
}

// ---- integers

func (e *Exec) peel(t *T, kind string) *T {
	_, hi := kindRange(kind)
	if hi == nil {
		return t
	}
	return e.u.lift1(func(t *T) *T {
		if t.op == OWrap {
			if _, h := kindRange(t.aux); h.Cmp(hi) >= 0 {
				return t.args[0]
			}
		}
		if t.op == OPoly {
			// one wrapped variable in a sum
			p := newPoly()
			ch := false
			for _, m := range t.poly.m {
				if len(m.vars) == 1 && m.vars[0].op == OWrap {
					if _, h := kindRange(m.vars[0].aux); h.Cmp(hi) >= 0 {
						p = p.Add(e.u.polyOf(m.vars[0].args[0]).Scale(m.c))
						ch = true
						continue
					}
				}
				p.add(m.vars, m.c)
			}
			if ch {
				return e.u.fromPoly(p)
			}
		}
		return t
	}, t)
}

func (e *Exec) norm(st *State, t *T, kind string, pos token.Pos, in *ssa.Function) *T {
	lo, hi := kindRange(kind)
	if lo == nil {
		return t
	}
	t = e.u.Restrict(t, st.pc)
	var rec func(t, pc *T) *T
	rec = func(t, pc *T) *T {
		if t.op == OIte {
			a := e.u.atom(t.args[0])
			ph, pl := e.u.And(pc, a), e.u.And(pc, e.u.Not(a))
			if ph == e.u.tFalse {
				return rec(t.args[2], pc)
			}
			if pl == e.u.tFalse {
				return rec(t.args[1], pc)
			}
			return e.u.mkIteAtom(t.args[0], rec(t.args[1], ph), rec(t.args[2], pl))
		}
		if t.op == OInt {
			if t.i.Cmp(lo) >= 0 && t.i.Cmp(hi) <= 0 {
				return t
			}
			size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
			m := new(big.Int).Mod(new(big.Int).Sub(t.i, lo), size)
			return e.u.BigInt(m.Add(m, lo))
		}
		l, h := e.u.rng(t)
		lok := l != nil && l.Cmp(lo) >= 0
		hok := h != nil && h.Cmp(hi) <= 0
		p := e.u.polyOf(t)
		if !lok {
			lok = e.u.ProveGE0(p.Sub(constPoly(new(big.Rat).SetInt(lo))), pc)
		}
		if lok && !hok {
			hok = e.u.ProveGE0(constPoly(new(big.Rat).SetInt(hi)).Sub(p), pc)
		}
		if lok && hok {
			return t
		}
		w := e.u.mk(OWrap, kind, t)
		e.oblige("wrap", pc, pos, in, w)
		return w
	}
	return rec(t, st.pc)
}

func (e *Exec) oblige(kind string, pc *T, pos token.Pos, in *ssa.Function, t ...*T) {
	if pc == e.u.tFalse {
		return
	}
	e.obl = append(e.obl, &Oblig{kind, pc, t, pos, in, append([]*Loop{}, e.curLp...)})
}

// bits reports that the low k bits of a term are zero, for the largest k up to 64.
func (e *Exec) lowZero(t *T) uint {
	if t.op == OInt {
		if t.i.Sign() == 0 {
			return 64
		}
		return t.i.TrailingZeroBits()
	}
	if t.op == OIte {
		a, b := e.lowZero(t.args[1]), e.lowZero(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	if t.op == OPoly {
		k := uint(64)
		for _, m := range t.poly.m {
			if z := m.c.Num().TrailingZeroBits(); z < k {
				k = z
			}
		}
		return k
	}
	return 0
}

func (e *Exec) nonneg(t, pc *T) bool {
	if t.op == OIte {
		return e.nonneg(t.args[1], e.u.And(pc, e.u.atom(t.args[0]))) && e.nonneg(t.args[2], e.u.And(pc, e.u.Not(e.u.atom(t.args[0]))))
	}
	if pc == e.u.tFalse {
		return true
	}
	if lo, _ := e.u.rng(t); lo != nil && lo.Sign() >= 0 {
		return true
	}
	return e.u.ProveGE0(e.u.polyOf(t), pc)
}

func (e *Exec) positive(t, pc *T) bool { return e.nonneg(e.u.addP(t, e.u.Int(-1)), pc) }

func (e *Exec) bitAnd(x, y *T, typ types.Type) *T {
	return e.u.lift2(func(x, y *T) *T {
		if x.op == OInt {
			x, y = y, x
		}
		if x.op == OInt && y.op == OInt {
			return e.u.BigInt(new(big.Int).And(x.i, y.i))
		}
		if y.op == OInt {
			m := y.i
			if m.Sign() == 0 {
				return e.u.zero
			}
			if m.Sign() < 0 {
				if k := new(big.Int).Neg(m); k.TrailingZeroBits() == uint(k.BitLen()-1) {
					return e.u.mulP(e.u.div(x, e.u.BigInt(k)), e.u.BigInt(k))
				}
			}
			if m.Sign() > 0 {
				tz := m.TrailingZeroBits()
				if s := new(big.Int).Add(new(big.Int).Rsh(m, tz), bigOne); s.TrailingZeroBits() == uint(s.BitLen()-1) {
					w := uint(s.BitLen() - 1)
					hi := e.u.div(x, e.u.BigInt(pow2(tz)))
					if _, h := e.u.rng(hi); h == nil || h.Cmp(pow2(w)) >= 0 {
						hi = e.u.subP(hi, e.u.mulP(e.u.div(hi, e.u.BigInt(pow2(w))), e.u.BigInt(pow2(w))))
					} else if l, _ := e.u.rng(hi); l == nil || l.Sign() < 0 {
						hi = e.u.subP(hi, e.u.mulP(e.u.div(hi, e.u.BigInt(pow2(w))), e.u.BigInt(pow2(w))))
					}
					return e.u.mulP(hi, e.u.BigInt(pow2(tz)))
				}
			}
		}
		if x == y {
			return x
		}
		if y.id < x.id {
			x, y = y, x
		}
		return e.u.mkT(OBit, "&", typ, x, y)
	}, x, y)
}

func (e *Exec) bitOr(x, y *T, typ types.Type) *T {
	return e.u.lift2(func(x, y *T) *T {
		if x.op == OInt && y.op == OInt && x.i.Sign() >= 0 && y.i.Sign() >= 0 {
			return e.u.BigInt(new(big.Int).Or(x.i, y.i))
		}
		if x == y || y == e.u.zero {
			return x
		}
		if x == e.u.zero {
			return y
		}
		for n := 0; n < 2; n++ {
			if l, h := e.u.rng(y); l != nil && l.Sign() >= 0 && h != nil {
				if k := e.lowZero(x); k > 0 && h.Cmp(pow2(k)) < 0 {
					return e.u.addP(x, y)
				}
			}
			x, y = y, x
		}
		if y.id < x.id {
			x, y = y, x
		}
		return e.u.mkT(OBit, "|", typ, x, y)
	}, x, y)
}

func (e *Exec) intOp(st *State, op token.Token, x, y *T, typ types.Type, pos token.Pos, in *ssa.Function) *T {
	u := e.u
	kind := intKind(typ)
	switch op {
	case token.ADD:
		return e.norm(st, u.addP(e.peel(x, kind), e.peel(y, kind)), kind, pos, in)
	case token.SUB:
		return e.norm(st, u.subP(e.peel(x, kind), e.peel(y, kind)), kind, pos, in)
	case token.MUL:
		return e.norm(st, u.mulP(e.peel(x, kind), e.peel(y, kind)), kind, pos, in)
	case token.QUO, token.REM:
		y = u.Restrict(y, st.pc)
		x = u.Restrict(x, st.pc)
		nz := u.EQ0(y)
		if nz != u.tFalse {
			if !e.infeasible(u.And(st.pc, nz)) {
				e.oblige("div0", u.And(st.pc, nz), pos, in, y)
			}
			st.pc = u.And(st.pc, u.Not(nz))
			y = u.Restrict(y, st.pc)
		}
		if e.nonneg(x, st.pc) && e.nonneg(y, st.pc) {
			q := u.div(x, y)
			if op == token.QUO {
				return q
			}
			return u.subP(x, u.mulP(y, q))
		}
		return u.lift2(func(x, y *T) *T {
			if x.op == OInt && y.op == OInt && y.i.Sign() != 0 {
				q, r := new(big.Int).QuoRem(x.i, y.i, new(big.Int))
				if op == token.QUO {
					return u.BigInt(q)
				}
				return u.BigInt(r)
			}
			if op == token.QUO {
				return u.mkT(OTDiv, "", typ, x, y)
			}
			return u.mkT(OTRem, "", typ, x, y)
		}, x, y)
	case token.SHL:
		return u.lift1(func(y *T) *T {
			if n, ok := y.intVal(); ok && n >= 0 && n < 64 {
				return e.norm(st, u.mulP(e.peel(x, kind), u.BigInt(pow2(uint(n)))), kind, pos, in)
			}
			return u.mkT(OBit, "<<", typ, x, y)
		}, y)
	case token.SHR:
		return u.lift1(func(y *T) *T {
			if n, ok := y.intVal(); ok && n >= 0 && n < 64 {
				return u.div(x, u.BigInt(pow2(uint(n))))
			}
			return u.mkT(OBit, ">>", typ, x, y)
		}, y)
	case token.AND:
		return e.bitAnd(x, y, typ)
	case token.OR:
		return e.bitOr(x, y, typ)
	case token.AND_NOT:
		return u.subP(x, e.bitAnd(x, y, typ))
	case token.XOR:
		return u.lift2(func(x, y *T) *T {
			if x.op == OInt && y.op == OInt {
				return u.BigInt(new(big.Int).Xor(x.i, y.i))
			}
			if x.op == OInt {
				x, y = y, x
			}
			if _, hi := kindRange(kind); y.op == OInt && hi != nil && y.i.Cmp(hi) == 0 && kind[0] == 'u' {
				return u.subP(y, x)
			}
			if y == u.zero {
				return x
			}
			if x == y {
				return u.zero
			}
			if y.id < x.id {
				x, y = y, x
			}
			return u.mkT(OBit, "^", typ, x, y)
		}, x, y)
	}
	return u.Unknown("op "+op.String(), typ)
}

func (e *Exec) infeasible(c *T) bool {
	if c == e.u.tFalse {
		return true
	}
	if c == e.u.tTrue {
		return false
	}
	cs := e.u.cubes(c)
	if len(cs) > 300 {
		return false
	}
	for _, l := range cs {
		if e.u.Feasible(l) {
			return false
		}
	}
	return true
}

// equal is x == y for values of a type.
func (e *Exec) equal(x, y *T, typ types.Type) *T {
	u := e.u
	if x == y {
		if !isFloat(typ) {
			return u.tTrue
		}
	}
	switch s := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case s.Info()&types.IsInteger != 0:
			return u.EQ0(u.subP(x, y))
		case s.Info()&types.IsBoolean != 0:
			return u.Ite(x, y, u.Not(y))
		}
	case *types.Struct:
		if x.op != OIte && y.op != OIte || true {
			c := u.tTrue
			for n := 0; n < s.NumFields(); n++ {
				c = u.And(c, e.equal(e.field(x, n, typ), e.field(y, n, typ), s.Field(n).Type()))
			}
			return c
		}
	case *types.Array:
		if s.Len() <= 64 {
			c := u.tTrue
			for n := int64(0); n < s.Len(); n++ {
				c = u.And(c, e.equal(e.elem(x, u.Int(n), s.Elem()), e.elem(y, u.Int(n), s.Elem()), s.Elem()))
			}
			return c
		}
	}
	return u.lift2(func(x, y *T) *T {
		if x == y && !isFloat(typ) {
			return u.tTrue
		}
		if x.isConst() && y.isConst() {
			if x.op == OFloat && y.op == OFloat {
				return u.Bool(x.f == y.f)
			}
			return u.Bool(x == y)
		}
		if x.op == ONil {
			x, y = y, x
		}
		if y.op == ONil {
			switch x.op {
			case OIface, OAddr, OFunc, OSeq:
				return u.tFalse
			case OSlice:
				return u.tFalse
			case OAppend:
				if x.args[1] == u.tTrue {
					return u.tFalse
				}
			case OCall:
				if nonNilCall(x.aux) {
					return u.tFalse
				}
			case OSym:
				if strings.HasPrefix(x.aux, "global:") && (types.IsInterface(typ)) {
					return u.tFalse // package-level errors
				}
			}
			return u.atom(u.mk(OSame, "", x, y))
		}
		if x.op == OIface && y.op == OIface {
			if x.aux != y.aux {
				return u.tFalse
			}
			return e.equal(x.args[0], y.args[0], e.typs[x.aux])
		}
		if (x.op == OIface) != (y.op == OIface) {
			o, i := x, y
			if x.op == OIface {
				o, i = y, x
			}
			return u.And(u.atom(u.mk(OIs, i.aux, o)), e.equal(e.opq(u.mkT(OPayload, i.aux, e.typs[i.aux], o), e.typs[i.aux]), i.args[0], e.typs[i.aux]))
		}
		if x.op == OAddr && y.op == OAddr && x.aux != y.aux {
			return u.tFalse
		}
		if x.op == OSym && y.op == OSym && strings.HasPrefix(x.aux, "global:") && strings.HasPrefix(y.aux, "global:") {
			return u.tFalse // distinct package-level errors
		}
		if isString(typ) && (x.op == OStr && x.aux == "" || y.op == OStr && y.aux == "") {
			o := x
			if x.op == OStr {
				o = y
			}
			return u.EQ0(e.length(o))
		}
		if y.id < x.id {
			x, y = y, x
		}
		return u.atom(u.mk(OSame, "", x, y))
	}, x, y)
}

func (e *Exec) binop(st *State, op token.Token, x, y *T, xt, yt, rt types.Type, pos token.Pos, in *ssa.Function) *T {
	u := e.u
	switch op {
	case token.EQL, token.NEQ:
		t := xt
		if types.IsInterface(yt) && !types.IsInterface(xt) {
			t = yt
		}
		c := e.equal(x, y, t)
		if op == token.NEQ {
			c = u.Not(c)
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		strict := op == token.LSS || op == token.GTR
		if intKind(xt) != "" {
			if strict {
				return u.Lt(x, y)
			}
			return u.Le(x, y)
		}
		return u.lift2(func(x, y *T) *T {
			if x.op == OFloat && y.op == OFloat {
				if strict {
					return u.Bool(x.f < y.f)
				}
				return u.Bool(x.f <= y.f)
			}
			n := "<="
			if strict {
				n = "<"
			}
			return u.atom(u.mk(OPred, "", u.mk(OFop, n, x, y)))
		}, x, y)
	}
	if intKind(rt) != "" {
		return e.intOp(st, op, x, y, rt, pos, in)
	}
	if isBool(rt) {
		switch op {
		case token.AND, token.LAND:
			return u.And(x, y)
		case token.OR, token.LOR:
			return u.Or(x, y)
		}
	}
	if isString(rt) && op == token.ADD {
		return e.concat(x, y)
	}
	if isFloat(rt) {
		return e.fop(op.String(), rt, x, y)
	}
	return u.mkT(OBox, "binop"+op.String(), rt, x, y)
}

func (e *Exec) fop(op string, rt types.Type, x, y *T) *T {
	return e.u.lift2(func(x, y *T) *T {
		if x.op == OFloat && y.op == OFloat {
			switch op {
			case "+":
				return e.u.Float(x.f + y.f)
			case "-":
				return e.u.Float(x.f - y.f)
			case "*":
				return e.u.Float(x.f * y.f)
			case "/":
				if y.f != 0 {
					return e.u.Float(x.f / y.f)
				}
			}
		}
		if (op == "+" || op == "*") && y.id < x.id {
			x, y = y, x
		}
		return e.u.mkT(OFop, op, rt, x, y)
	}, x, y)
}

func (e *Exec) concat(x, y *T) *T {
	return e.u.lift2(func(x, y *T) *T {
		var parts []*T
		for _, t := range []*T{x, y} {
			if t.op == OBox && t.aux == "strcat" {
				parts = append(parts, t.args...)
			} else {
				parts = append(parts, t)
			}
		}
		var out []*T
		for _, t := range parts {
			if t.op == OStr {
				if t.aux == "" {
					continue
				}
				if len(out) > 0 && out[len(out)-1].op == OStr {
					out[len(out)-1] = e.u.Str(out[len(out)-1].aux + t.aux)
					continue
				}
			}
			out = append(out, t)
		}
		switch len(out) {
		case 0:
			return e.u.Str("")
		case 1:
			return out[0]
		}
		return e.u.mkT(OBox, "strcat", types.Typ[types.String], out...)
	}, x, y)
}

func (e *Exec) constant(c *ssa.Const) *T {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return e.u.Float(f)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.u.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return e.u.Str(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return e.u.BigInt(n)
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return e.u.Float(f)
	}
	return e.u.Unknown("const", t)
}

func (e *Exec) val(st *State, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Function:
		return e.fnTerm(v)
	case *ssa.Global:
		return e.globalAddr(v)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return e.u.Unknown("undefined "+v.Name(), v.Type())
}

// ---- states

func (st *State) clone() *State {
	n := &State{pc: st.pc, mem: st.mem.clone(), env: maps.Clone(st.env), def: st.def[:len(st.def):len(st.def)]}
	if n.env == nil {
		n.env = map[ssa.Value]*T{}
	}
	return n
}

func (e *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	u := e.u
	total := u.tFalse
	for _, s := range sts {
		total = u.Or(total, s.pc)
	}
	r := sts[len(sts)-1].clone()
	for n := len(sts) - 2; n >= 0; n-- {
		s := sts[n]
		c := u.Restrict(s.pc, total)
		r.mem = e.mergeMem(c, s.mem, r.mem)
		for k, v := range s.env {
			if w, ok := r.env[k]; !ok {
				r.env[k] = v
			} else if w != v {
				r.env[k] = e.mergeVal(c, v, w)
			}
		}
		for _, d := range s.def {
			has := false
			for _, o := range r.def {
				if o == d {
					has = true
				}
			}
			if !has {
				r.def = append(r.def, d)
			}
		}
	}
	r.pc = total
	return r
}

// Mem is what objects hold: what was set of late over what was set before.
type Mem struct {
	top  map[string]*T
	base *memBase
}

type memBase struct{ m map[string]*T }

func newMem() *Mem { return &Mem{top: map[string]*T{}, base: &memBase{}} }

func (m *Mem) get(id string) (*T, bool) {
	if m == nil {
		return nil, false
	}
	if t, ok := m.top[id]; ok {
		return t, t != nil
	}
	t, ok := m.base.m[id]
	return t, ok
}

func (m *Mem) at(id string) *T {
	t, _ := m.get(id)
	return t
}

func (m *Mem) set(id string, t *T) { m.top[id] = t }
func (m *Mem) del(id string)       { m.top[id] = nil }

func (m *Mem) clone() *Mem {
	if m == nil {
		return newMem()
	}
	if len(m.top) > 64 {
		all := make(map[string]*T, len(m.base.m)+len(m.top))
		for k, t := range m.all {
			all[k] = t
		}
		m.base, m.top = &memBase{all}, map[string]*T{}
	}
	return &Mem{maps.Clone(m.top), m.base}
}

func (m *Mem) all(yield func(string, *T) bool) {
	top, base := m.top, m.base
	for k, t := range top {
		if t != nil && !yield(k, t) {
			return
		}
	}
	for k, t := range base.m {
		if _, ok := top[k]; !ok && !yield(k, t) {
			return
		}
	}
}

func (e *Exec) mergeMem(c *T, a, b *Mem) *Mem {
	if a == nil {
		a = newMem()
	}
	r := b.clone()
	var ks []string
	if a.base == b.base {
		for k := range a.top {
			ks = append(ks, k)
		}
		for k := range b.top {
			if _, ok := a.top[k]; !ok {
				ks = append(ks, k)
			}
		}
	} else {
		for k := range a.all {
			ks = append(ks, k)
		}
		for k := range b.all {
			if _, ok := a.get(k); !ok {
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		va, oka := a.get(k)
		vb, okb := b.get(k)
		switch {
		case !oka && !okb || va == vb:
			continue
		case oka && okb:
		case oka:
			if o := e.objs[k]; o != nil && strings.HasPrefix(k, "new") {
				r.set(k, va)
				continue
			}
			vb = e.content(nil, k)
		default:
			if strings.HasPrefix(k, "new") {
				r.set(k, vb)
				continue
			}
			va = e.content(nil, k)
		}
		r.set(k, e.mergeVal(c, va, vb))
	}
	return r
}

// ---- functions

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	irred bool
}

var (
	fnInfos = map[*ssa.Function]*fnInfo{}
	fnInfoM sync.Mutex
)

func infoOf(f *ssa.Function) *fnInfo {
	fnInfoM.Lock()
	defer fnInfoM.Unlock()
	if i, ok := fnInfos[f]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			switch seen[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					fi.irred = true
				}
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for n := len(post) - 1; n >= 0; n-- {
		fi.rpo = append(fi.rpo, post[n])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	fnInfos[f] = fi
	return fi
}

type edge struct {
	from, to *ssa.BasicBlock
	n        int // which of the predecessors of to
}

type inEdge struct {
	n  int
	st *State
}

type activation struct {
	fn   *ssa.Function
	fi   *fnInfo
	rets []*State
	vals []*T // result tuple per ret
}

// call evaluates a function; it returns the result and the state after it,
// or nil if it cannot return.
func (e *Exec) call(st *State, f *ssa.Function, args, binds []*T) (*T, *State) {
	if f.Blocks == nil {
		panic(tooComplex("no body: " + f.String()))
	}
	fi := infoOf(f)
	if fi.irred {
		panic(tooComplex("irreducible: " + f.String()))
	}
	e.stack = append(e.stack, f)
	e.inlined[f] = true
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	in := &State{pc: st.pc, mem: st.mem, env: map[ssa.Value]*T{}}
	in = in.clone()
	for n, p := range f.Params {
		if n < len(args) {
			in.env[p] = args[n]
		}
	}
	for n, v := range f.FreeVars {
		if n < len(binds) {
			in.env[v] = binds[n]
		}
	}
	act := &activation{fn: f, fi: fi}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	e.region(act, all, f.Blocks[0], []inEdge{{-1, in}}, nil)
	if len(act.rets) == 0 {
		return nil, nil
	}
	// the result is merged along with the state
	for n, r := range act.rets {
		r.env = map[ssa.Value]*T{retKey: act.vals[n]}
	}
	out := e.mergeStates(act.rets)
	res := out.env[retKey]
	if rt := resultType(f.Signature); len(e.stack) > 1 && rt != nil && res != nil {
		switch intKind(rt) {
		case "u8", "u16", "u32":
			res = e.u.Cut(res, rt)
		}
	}
	return res, &State{pc: out.pc, mem: out.mem, env: st.env, def: st.def}
}

var retKey ssa.Value = new(ssa.Parameter)

// region evaluates a set of blocks from its entry block. It returns the states
// of the edges that leave the set or go back to the entry block.
func (e *Exec) region(act *activation, set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []inEdge, phis map[*ssa.Phi]*T) map[edge]*State {
	pending := map[*ssa.BasicBlock][]inEdge{entry: in}
	out := map[edge]*State{}
	done := map[*ssa.BasicBlock]bool{}
	deposit := func(ed edge, st *State) {
		if st.pc == e.u.tFalse {
			return
		}
		if !set[ed.to] || ed.to == entry {
			if o, ok := out[ed]; ok {
				st = e.mergeStates([]*State{o, st})
			}
			out[ed] = st
			return
		}
		pending[ed.to] = append(pending[ed.to], inEdge{ed.n, st})
	}
	for _, b := range act.fi.rpo {
		if !set[b] || done[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if l := act.fi.loops[b]; l != nil && b != entry {
			for x := range l.blocks {
				done[x] = true
			}
			for ed, st := range e.loop(act, l, ins) {
				deposit(ed, st)
			}
			continue
		}
		if l := act.fi.loops[b]; l != nil && b == entry && phis == nil && len(in) > 0 && in[0].n == -1 && len(set) == len(act.fi.rpo) {
			// a loop that starts at the first block of the function
			for x := range l.blocks {
				done[x] = true
			}
			for ed, st := range e.loop(act, l, ins) {
				deposit(ed, st)
			}
			continue
		}
		done[b] = true
		st := e.enter(b, ins, phis, b == entry)
		e.block(act, b, st, deposit)
	}
	return out
}

// enter merges the incoming states of a block and evaluates its phis.
func (e *Exec) enter(b *ssa.BasicBlock, ins []inEdge, phis map[*ssa.Phi]*T, isEntry bool) *State {
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].n < ins[j].n })
	var sts []*State
	for _, i := range ins {
		s := i.st.clone()
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isEntry && phis != nil {
				s.env[p] = phis[p]
			} else if i.n >= 0 {
				s.env[p] = e.val(i.st, p.Edges[i.n])
			}
		}
		sts = append(sts, s)
	}
	return e.mergeStates(sts)
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for n, p := range to.Preds {
		if p == from {
			if k == nth {
				return n
			}
			k++
		}
	}
	return -1
}

func (e *Exec) block(act *activation, b *ssa.BasicBlock, st *State, deposit func(edge, *State)) {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			panic(tooComplex("too many steps in " + act.fn.String()))
		}
		if st.pc == e.u.tFalse {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.decide(e.u.Restrict(e.val(st, in.Cond), st.pc), st.pc)
			t := st.clone()
			t.pc = e.u.And(st.pc, c)
			f := st
			f.pc = e.u.And(st.pc, e.u.Not(c))
			n1 := 0
			if b.Succs[0] == b.Succs[1] {
				n1 = 1
			}
			deposit(edge{b, b.Succs[0], predIndex(b, b.Succs[0], 0)}, t)
			deposit(edge{b, b.Succs[1], predIndex(b, b.Succs[1], n1)}, f)
			return
		case *ssa.Jump:
			deposit(edge{b, b.Succs[0], predIndex(b, b.Succs[0], 0)}, st)
			return
		case *ssa.Return:
			vs := make([]*T, len(in.Results))
			for n, r := range in.Results {
				vs[n] = e.val(st, r)
			}
			var v *T
			if len(vs) == 1 {
				v = vs[0]
			} else {
				v = e.u.mk(OTuple, "", vs...)
			}
			act.rets = append(act.rets, st)
			act.vals = append(act.vals, v)
			return
		case *ssa.Panic:
			e.event(st, "panic", "panic", nil, []*T{e.val(st, in.X)}, nil, in, act.fn)
			return
		default:
			if !e.instr(act, st, in) {
				return
			}
		}
	}
}

// decide settles single comparisons that the path condition implies.
func (e *Exec) decide(c, pc *T) *T {
	defer func(b bool) { e.u.noLP = b }(e.u.noLP)
	e.u.noLP = true
	if c.op != OIte || pc == e.u.tTrue {
		return c
	}
	if c.args[1].op != OBool || c.args[2].op != OBool {
		// settle the root only
		return c
	}
	a := c.args[0]
	if a.op != OGE && a.op != OEQ {
		return c
	}
	p := e.u.polyOf(a.args[0])
	t, f := c.args[1], c.args[2]
	if a.op == OGE {
		if e.u.ProveGE0(p, pc) {
			return t
		}
		if e.u.ProveGE0(p.Neg().Add(intPoly(-1)), pc) {
			return f
		}
		return c
	}
	if e.u.ProveGE0(p.Add(intPoly(-1)), pc) || e.u.ProveGE0(p.Neg().Add(intPoly(-1)), pc) {
		return f
	}
	return c
}

// ---- loops

func (e *Exec) mark() [6]int {
	return [6]int{len(e.events), len(e.obl), len(e.loops), e.nobj, e.nevt, len(e.pures)}
}

func (e *Exec) rollback(m [6]int) {
	e.events, e.obl, e.loops = e.events[:m[0]], e.obl[:m[1]], e.loops[:m[2]]
	e.nobj, e.nevt = m[3], m[4]
	e.pures = e.pures[:m[5]]
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (e *Exec) loop(act *activation, l *loopInfo, ins []inEdge) map[edge]*State {
	entry := e.enter(l.header, ins, nil, false)
	phis := headerPhis(l.header)
	init := map[*ssa.Phi]*T{}
	for _, p := range phis {
		init[p] = entry.env[p]
	}
	m := e.mark()
	if !e.noUnroll {
		if out, ok := e.unroll(act, l, entry, phis, init); ok {
			return out
		}
		e.rollback(m)
	}
	return e.summarise(act, l, entry, phis, init)
}

// headerDecided reports whether the header ends in a decision that the state settles.
func (e *Exec) headerDecided(act *activation, l *loopInfo, st *State) bool {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return false
	}
	if l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
		return false
	}
	n := 0
	m := e.mark()
	e.block(act, l.header, st.clone(), func(ed edge, s *State) {
		if s.pc != e.u.tFalse {
			n++
		}
	})
	e.rollback(m)
	return n <= 1
}

func (e *Exec) unroll(act *activation, l *loopInfo, entry *State, phis []*ssa.Phi, init map[*ssa.Phi]*T) (map[edge]*State, bool) {
	out := map[edge][]*State{}
	cur, st := init, entry
	nr := len(act.rets)
	var was *T
	fail := func() (map[edge]*State, bool) {
		act.rets, act.vals = act.rets[:nr], act.vals[:nr]
		return nil, false
	}
	for it := 0; ; it++ {
		if it > 80 && it > e.roundMax {
			return fail()
		}
		s := st.clone()
		for _, p := range phis {
			s.env[p] = cur[p]
		}
		if !e.headerDecided(act, l, s) {
			if e.progress == nil {
				return fail()
			}
			at := e.progress(s)
			if at == nil || at == was {
				return fail()
			}
			was = at
		}
		var back []inEdge
		for ed, x := range e.region(act, l.blocks, l.header, []inEdge{{-2, s}}, cur) {
			if ed.to == l.header {
				back = append(back, inEdge{ed.n, x})
			} else {
				out[ed] = append(out[ed], x)
			}
		}
		if len(back) == 0 {
			break
		}
		st = e.enter(l.header, back, nil, false)
		cur = map[*ssa.Phi]*T{}
		for _, p := range phis {
			cur[p] = st.env[p]
		}
	}
	r := map[edge]*State{}
	for ed, sts := range out {
		r[ed] = e.mergeStates(sts)
	}
	return r, true
}

// affine writes back as cur + step.
func (e *Exec) affine(cur, back *T) (*big.Int, bool) {
	if back.op == OIte || cur.op == OIte {
		return nil, false
	}
	c, ok := e.u.polyOf(back).Sub(e.u.polyOf(cur)).constVal()
	if !ok || !c.IsInt() {
		return nil, false
	}
	return c.Num(), true
}

type cell struct {
	id   string
	path []*T
	typ  types.Type
}

func (c cell) key() string {
	s := c.id
	for _, p := range c.path {
		s += "." + strconv.Itoa(p.id)
	}
	return s
}

// changed lists the cells in which two contents differ.
func (e *Exec) changed(id string, path []*T, typ types.Type, a, b *T, out *[]cell) {
	if a == b {
		return
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for n := 0; n < s.NumFields(); n++ {
			e.changed(id, append(path[:len(path):len(path)], e.u.Int(int64(n))), s.Field(n).Type(), e.field(a, n, typ), e.field(b, n, typ), out)
		}
		return
	}
	if s, ok := typ.Underlying().(*types.Array); ok && s.Len() <= 64 && a.op == OArray && b.op == OArray {
		for n := range a.args {
			e.changed(id, append(path[:len(path):len(path)], e.u.Int(int64(n))), s.Elem(), a.args[n], b.args[n], out)
		}
		return
	}
	*out = append(*out, cell{id, path, typ})
}

func (e *Exec) summarise(act *activation, l *loopInfo, entry *State, phis []*ssa.Phi, init map[*ssa.Phi]*T) map[edge]*State {
	u := e.u
	e.nkap++
	id := e.nkap
	base := e.mark()
	nr := len(act.rets)
	kappa := u.mk(OSym, fmt.Sprintf("κ%d", id))
	kappa.lo, kappa.hi, kappa.rngd, kappa.typ = new(big.Int), nil, true, types.Typ[types.Int]

	mus := map[*ssa.Phi]*T{}
	fixed := map[*ssa.Phi]*T{} // affine ones
	step := map[*ssa.Phi]*T{}
	for _, p := range phis {
		mus[p] = e.symbolic(fmt.Sprintf("μ%d.%s", id, p.Name()), p.Type())
	}
	cells := map[string]cell{}
	cellMu := map[string]*T{}
	cellFix := map[string]*T{}
	cellStep := map[string]*T{}

	var lp *Loop
	run := func(final bool) (outs map[edge]*State, back *State, start *State) {
		e.rollback(base)
		act.rets, act.vals = act.rets[:nr], act.vals[:nr]
		s := entry.clone()
		cur := map[*ssa.Phi]*T{}
		for _, p := range phis {
			if f := fixed[p]; f != nil {
				cur[p] = f
			} else {
				cur[p] = mus[p]
			}
			s.env[p] = cur[p]
		}
		var cks []string
		for k := range cells {
			cks = append(cks, k)
		}
		sort.Strings(cks)
		for _, k := range cks {
			c := cells[k]
			v := cellMu[k]
			if f := cellFix[k]; f != nil {
				v = f
			}
			s.mem.set(c.id, e.setPath(e.content(s.mem, c.id), e.objType(c.id), c.path, v))
		}
		lp = &Loop{n: id, fn: act.fn, header: l.header, kappa: kappa, entryPC: s.pc, outer: append([]*Loop{}, e.curLp...)}
		for _, in := range l.header.Instrs {
			if in.Pos().IsValid() {
				lp.pos = in.Pos()
				break
			}
		}
		e.loops = append(e.loops, lp)
		s.pc = u.And(s.pc, e.inductive(l, s, phis, init, cur, kappa))
		lp.headPC = s.pc
		e.curLp = append(e.curLp, lp)
		outs = e.region(act, l.blocks, l.header, []inEdge{{-2, s}}, cur)
		e.curLp = e.curLp[:len(e.curLp)-1]
		var bs []inEdge
		for ed, x := range outs {
			if ed.to == l.header {
				bs = append(bs, inEdge{ed.n, x})
				delete(outs, ed)
			}
		}
		start = s
		if len(bs) > 0 {
			back = e.enter(l.header, bs, nil, false)
		}
		return
	}
	for pass := 0; pass < 8; pass++ {
		_, back, start := run(false)
		if back == nil {
			break
		}
		again := false
		for _, p := range phis {
			if fixed[p] != nil {
				if d := step[p]; d == nil && back.env[p] != fixed[p] || d != nil && u.addP(fixed[p], d) != back.env[p] {
					fixed[p] = nil // it is not
					mus[p] = e.symbolic(fmt.Sprintf("μ%d.%s!", id, p.Name()), p.Type())
					again = true
				}
				continue
			}
			if strings.HasSuffix(mus[p].aux, "!") || intKind(p.Type()) == "" {
				if back.env[p] == mus[p] && init[p] != nil { // unchanged by the loop
					fixed[p] = init[p]
					step[p] = nil
					again = true
				}
				continue
			}
			if d, ok := e.affine(mus[p], back.env[p]); ok {
				step[p] = u.BigInt(d)
				fixed[p] = u.addP(init[p], u.mulP(kappa, step[p]))
				again = true
			}
		}
		for id0, after := range back.mem.all {
			if strings.HasPrefix(id0, "new") {
				if _, ok := entry.mem.get(id0); !ok {
					if o := e.objs[id0]; o != nil && objNum(id0) > base[3] {
						continue // made in the loop
					}
				}
			}
			before := e.content(start.mem, id0)
			var cs []cell
			e.changed(id0, nil, e.objType(id0), before, after, &cs)
			for _, c := range cs {
				k := c.key()
				if _, ok := cells[k]; ok {
					if cellFix[k] != nil {
						b := e.getPath(after, e.objType(id0), c.path)
						if u.addP(cellFix[k], cellStep[k]) != b {
							cellFix[k] = nil
							cellMu[k] = e.symbolic(fmt.Sprintf("μ%d.%s!", id, k), c.typ)
							again = true
						}
					} else if b := e.getPath(after, e.objType(id0), c.path); intKind(c.typ) != "" && !strings.HasSuffix(cellMu[k].aux, "!") {
						if d, ok := e.affine(cellMu[k], b); ok {
							cellStep[k] = u.BigInt(d)
							cellFix[k] = u.addP(e.getPath(e.content(entry.mem, id0), e.objType(id0), c.path), u.mulP(kappa, u.BigInt(d)))
							again = true
						}
					}
					continue
				}
				cells[k] = c
				cellMu[k] = e.symbolic(fmt.Sprintf("μ%d.%s", id, k), c.typ)
				again = true
			}
		}
		if !again {
			break
		}
		if pass == 7 {
			panic(tooComplex("loop does not settle in " + act.fn.String()))
		}
	}
	outs, back, _ := run(true)
	lp.backPC = u.tFalse
	if back != nil {
		lp.backPC = back.pc
	}
	for _, p := range phis {
		v := &LoopVar{phi: p, init: init[p], cur: mus[p]}
		if fixed[p] != nil {
			v.cur = fixed[p]
		}
		if back != nil {
			v.back = back.env[p]
		}
		lp.vars = append(lp.vars, v)
	}
	var cks []string
	for k := range cells {
		cks = append(cks, k)
	}
	sort.Strings(cks)
	for _, k := range cks {
		c := cells[k]
		v := &LoopVar{obj: c.id, path: c.path, init: e.getPath(e.content(entry.mem, c.id), e.objType(c.id), c.path), cur: cellMu[k]}
		if cellFix[k] != nil {
			v.cur = cellFix[k]
		}
		if back != nil {
			v.back = e.getPath(e.content(back.mem, c.id), e.objType(c.id), c.path)
		}
		lp.vars = append(lp.vars, v)
	}
	return outs
}

func objNum(id string) int {
	n := len(id)
	for n > 0 && id[n-1] >= '0' && id[n-1] <= '9' {
		n--
	}
	k, _ := strconv.Atoi(id[n:])
	return k
}

// inductive gives what the guard of a counting loop says about its counter at
// the header: it was true of the iteration before.
func (e *Exec) inductive(l *loopInfo, s *State, phis []*ssa.Phi, init, cur map[*ssa.Phi]*T, kappa *T) *T {
	u := e.u
	r := u.tTrue
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return r
	}
	in0, in1 := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
	if in0 == in1 {
		return r
	}
	// the guard at the header must depend on nothing that the header does
	m := e.mark()
	var g *T
	t := s.clone()
	func() {
		for _, in := range l.header.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				t.env[in] = e.binop(t, in.Op, e.val(t, in.X), e.val(t, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos(), nil)
			case *ssa.If:
				g = e.val(t, iff.Cond)
			default:
				return
			}
		}
	}()
	e.rollback(m)
	if g == nil || g.op != OIte {
		return r
	}
	if !in0 {
		g = u.Not(g)
	}
	if g.args[0].op != OGE || g.args[1].op != OBool || g.args[2].op != OBool {
		return r
	}
	p := u.polyOf(g.args[0].args[0])
	if g.args[1] == u.tFalse {
		p = p.Neg().Add(intPoly(-1))
	}
	// p = a - c*κ with a free of κ and of everything the loop changes
	c := new(big.Rat)
	for _, mo := range p.m {
		for _, v := range mo.vars {
			set := map[*T]bool{}
			u.deepVarsT(v, set)
			for w := range set {
				if strings.HasPrefix(w.aux, fmt.Sprintf("μ%d.", 0)) {
					return r
				}
				if w.op == OSym && strings.HasPrefix(w.aux, "μ"+kappa.aux[len("κ"):]+".") {
					return r
				}
			}
			if set[kappa] && !(v == kappa && len(mo.vars) == 1) {
				return r
			}
		}
		if len(mo.vars) == 1 && mo.vars[0] == kappa {
			c = mo.c
		}
	}
	if c.Sign() >= 0 {
		return r
	}
	// at iteration κ>0 the guard held for κ-1
	prev := p.Add(constPoly(new(big.Rat).Neg(c)))
	first := u.EQ0(kappa)
	return u.Or(first, u.GE0(u.fromPoly(prev)))
}

// ---- events

func (e *Exec) event(st *State, kind, fn string, sf *ssa.Function, args []*T, res *T, ins ssa.Instruction, in *ssa.Function) *Event {
	e.nevt++
	ev := &Event{n: e.nevt, kind: kind, pc: st.pc, fn: fn, sf: sf, args: args, res: res, ins: ins, in: in, pos: ins.Pos(), loops: append([]*Loop{}, e.curLp...), mem: newMem()}
	if !e.lean {
		ev.mem = st.mem.clone()
	}
	e.events = append(e.events, ev)
	return ev
}
