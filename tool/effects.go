package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Store effects of functions: which memory, named from the function's
// parameters and the globals, may be written by a call of it. Access paths
// over SSA, with summaries per function and a fixed point over the calls.
//
// A location is a root and a path. The value of a pointer, slice, map or
// interface is the set of locations it may point at; the value of a struct is
// the set of locations it may be a copy of.

type loc struct{ root, path string }

type locSet map[loc]bool

func (s locSet) add(t locSet) bool {
	ch := false
	for l := range t {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

type effect struct {
	at   loc
	what string // the writing function and what it writes
}

type effSummary struct {
	f       *ssa.Function
	effects map[effect]token.Pos
	rets    []locSet
	content map[loc]locSet
	vals    map[ssa.Value]locSet
	tuples  map[ssa.Value][]locSet
	changed bool
	guarded map[ssa.Instruction]bool
}

type effAnalysis struct {
	p    *Prog
	sum  map[*ssa.Function]*effSummary
	work []*ssa.Function
	// address-taken repository functions, by signature
	taken map[string][]*ssa.Function
	pure  func(name string) bool // interface methods that only look
	any   bool
}

const effPathLimit = 10

func ext(l loc, s string) loc {
	if strings.HasSuffix(l.path, "…") {
		return l
	}
	p := l.path + s
	if n := strings.Count(p, "*") + strings.Count(p, ".") + strings.Count(p, "["); n > effPathLimit {
		return loc{l.root, l.path + "…"}
	}
	return loc{l.root, p}
}

// hasPtr: values of the type can hold pointers.
func hasPtr(t types.Type) bool { return hasPtrN(t, 0) }

func hasPtrN(t types.Type, n int) bool {
	if n > 6 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasPtrN(x.Field(i).Type(), n+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrN(x.Elem(), n+1)
	}
	return true
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func newEffects(p *Prog, pure func(string) bool) *effAnalysis {
	a := &effAnalysis{p: p, sum: map[*ssa.Function]*effSummary{}, taken: map[string][]*ssa.Function{}, pure: pure}
	for f := range p.all {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, o := range ops {
					if o == nil || *o == nil {
						continue
					}
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isc := in.(ssa.CallInstruction); isc && i == 0 && c.Common().Value == g {
						continue
					}
					if p.inRepo(g) {
						k := types.TypeString(g.Signature, nil)
						a.taken[k] = append(a.taken[k], g)
					}
				}
			}
		}
	}
	return a
}

// run computes the summaries of f and of everything it calls.
func (a *effAnalysis) of(f *ssa.Function) *effSummary {
	a.get(f)
	for n := 0; ; n++ {
		a.any = false
		fs := make([]*ssa.Function, 0, len(a.sum))
		for g := range a.sum {
			fs = append(fs, g)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
		for _, g := range fs {
			a.pass(a.sum[g])
		}
		if !a.any {
			break
		}
		if n > 200 {
			panic(tooComplex("effects of " + fnName(f) + " do not settle"))
		}
	}
	return a.sum[f]
}

func (a *effAnalysis) get(f *ssa.Function) *effSummary {
	if s := a.sum[f]; s != nil {
		return s
	}
	s := &effSummary{f: f, effects: map[effect]token.Pos{}, content: map[loc]locSet{}, vals: map[ssa.Value]locSet{}, tuples: map[ssa.Value][]locSet{}}
	s.rets = make([]locSet, f.Signature.Results().Len())
	for i := range s.rets {
		s.rets[i] = locSet{}
	}
	s.guarded = lockedRegions(f)
	a.sum[f] = s
	a.any = true
	return s
}

// lockedRegions: instructions that a lock taken in the function protects.
func lockedRegions(f *ssa.Function) map[ssa.Instruction]bool {
	var locks, unlocks []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			switch fnName(c.Call.StaticCallee()) {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				locks = append(locks, in)
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				unlocks = append(unlocks, in)
			}
		}
	}
	if len(locks) == 0 {
		return nil
	}
	res := map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, l := range locks {
				if !domInstr(l, in) {
					continue
				}
				ok := true
				for _, u := range unlocks {
					if mayPrecede(u, in) && domInstr(l, u) {
						ok = false
					}
				}
				if ok {
					res[in] = true
				}
			}
		}
	}
	return res
}

func domInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// mayPrecede: some path leads from a to b.
func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && domInstr(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block())
}

func (a *effAnalysis) val(s *effSummary, v ssa.Value) locSet {
	switch x := v.(type) {
	case *ssa.Parameter:
		if !hasPtr(x.Type()) {
			return nil
		}
		for i, p := range s.f.Params {
			if p == x {
				return locSet{{fmt.Sprint("P", i), ""}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range s.f.FreeVars {
			if p == x {
				return locSet{{fmt.Sprint("F", i), ""}: true}
			}
		}
	case *ssa.Global:
		return locSet{{"G:" + x.RelString(nil), ""}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return s.vals[v]
}

func (a *effAnalysis) set(s *effSummary, v ssa.Value, t locSet) {
	if len(t) == 0 {
		return
	}
	m := s.vals[v]
	if m == nil {
		m = locSet{}
		s.vals[v] = m
	}
	if m.add(t) {
		a.any = true
	}
}

func (a *effAnalysis) put(s *effSummary, at loc, t locSet) {
	if len(t) == 0 {
		return
	}
	m := s.content[at]
	if m == nil {
		m = locSet{}
		s.content[at] = m
	}
	if m.add(t) {
		a.any = true
	}
}

// load gives the value of type t kept at the locations.
func (a *effAnalysis) load(s *effSummary, at locSet, t types.Type) locSet {
	if !hasPtr(t) {
		return nil
	}
	res := locSet{}
	if isAggregate(t) {
		res.add(at)
		return res
	}
	seen := map[loc]bool{}
	for l := range at {
		a.loadAt(s, l, res, seen)
	}
	return res
}

func (a *effAnalysis) loadAt(s *effSummary, l loc, res locSet, seen map[loc]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	if !strings.HasPrefix(l.root, "S") {
		res[ext(l, "*")] = true
	}
	for c, vs := range s.content {
		if c.root != l.root {
			continue
		}
		if strings.HasSuffix(c.path, "…") || strings.HasSuffix(l.path, "…") {
			res.add(vs)
			continue
		}
		if c.path == l.path {
			res.add(vs)
			for v := range vs { // a struct kept here whose first word this is: no, but a box is
				_ = v
			}
		} else if strings.HasPrefix(l.path, c.path) {
			rest := l.path[len(c.path):]
			if strings.HasPrefix(rest, "*") {
				continue
			}
			for v := range vs { // a struct was copied to c: look in the original
				a.loadAt(s, ext(v, rest), res, seen)
			}
		}
	}
}

// resolve follows a path of a callee from what an argument holds.
func (a *effAnalysis) resolve(s *effSummary, from locSet, path string) locSet {
	cur := locSet{}
	cur.add(from)
	for path != "" {
		i := strings.Index(path, "*")
		if i < 0 {
			next := locSet{}
			for l := range cur {
				next[ext(l, path)] = true
			}
			return next
		}
		next := locSet{}
		seen := map[loc]bool{}
		for l := range cur {
			a.loadAt(s, ext(l, path[:i]), next, seen)
		}
		cur = next
		path = path[i+1:]
	}
	return cur
}

// translate names a callee's locations in the caller.
func (a *effAnalysis) translate(s *effSummary, l loc, args, binds []locSet) locSet {
	var from locSet
	var i int
	switch l.root[0] {
	case 'P':
		fmt.Sscan(l.root[1:], &i)
		if i < len(args) {
			from = args[i]
		}
	case 'F':
		fmt.Sscan(l.root[1:], &i)
		if i < len(binds) {
			from = binds[i]
		}
	default:
		return locSet{l: true}
	}
	return a.resolve(s, from, l.path)
}

func (a *effAnalysis) effect(s *effSummary, in ssa.Instruction, at locSet, what string) {
	if s.guarded[in] {
		return
	}
	for l := range at {
		if strings.HasPrefix(l.root, "S") {
			continue
		}
		e := effect{l, what}
		if _, ok := s.effects[e]; !ok {
			s.effects[e] = in.Pos()
			a.any = true
		}
	}
}

func (a *effAnalysis) pass(s *effSummary) {
	f := s.f
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a.instr(s, in)
		}
	}
}

func (s *effSummary) site(v ssa.Instruction) string {
	return fmt.Sprintf("S:%s@%d/%d", fnName(s.f), v.Block().Index, instrIndex(v))
}

func instrIndex(v ssa.Instruction) int {
	for i, in := range v.Block().Instrs {
		if in == v {
			return i
		}
	}
	return -1
}

func (a *effAnalysis) instr(s *effSummary, in ssa.Instruction) {
	union := func(vs ...ssa.Value) locSet {
		r := locSet{}
		for _, v := range vs {
			r.add(a.val(s, v))
		}
		return r
	}
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		a.set(s, in.(ssa.Value), locSet{{s.site(in), ""}: true})
	case *ssa.FieldAddr:
		r := locSet{}
		for l := range a.val(s, x.X) {
			r[ext(l, fmt.Sprint(".", x.Field))] = true
		}
		a.set(s, x, r)
	case *ssa.Field:
		r := locSet{}
		for l := range a.val(s, x.X) {
			r[ext(l, fmt.Sprint(".", x.Field))] = true
		}
		a.set(s, x, a.load(s, r, x.Type()))
	case *ssa.IndexAddr:
		r := locSet{}
		for l := range a.val(s, x.X) {
			r[ext(l, "[]")] = true
		}
		a.set(s, x, r)
	case *ssa.Index:
		r := locSet{}
		for l := range a.val(s, x.X) {
			r[ext(l, "[]")] = true
		}
		a.set(s, x, a.load(s, r, x.Type()))
	case *ssa.Lookup:
		r := locSet{}
		for l := range a.val(s, x.X) {
			r[ext(l, "[]")] = true
		}
		t := x.Type()
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		a.set(s, x, a.load(s, r, t))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.set(s, x, a.load(s, a.val(s, x.X), x.Type()))
		case token.ARROW:
			r := locSet{}
			for l := range a.val(s, x.X) {
				r[ext(l, "[]")] = true
			}
			t := x.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			a.set(s, x, a.load(s, r, t))
		}
	case *ssa.Phi:
		if hasPtr(x.Type()) {
			a.set(s, x, union(x.Edges...))
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.TypeAssert, *ssa.SliceToArrayPointer, *ssa.Range:
		var ops []*ssa.Value
		a.set(s, in.(ssa.Value), union(*in.Operands(ops)[0]))
	case *ssa.Convert:
		if hasPtr(x.Type()) && hasPtr(x.X.Type()) {
			a.set(s, x, union(x.X))
		} else if hasPtr(x.Type()) {
			a.set(s, x, locSet{{s.site(x), ""}: true})
		}
	case *ssa.Next:
		r := locSet{}
		for l := range a.val(s, x.Iter) {
			r[ext(l, "[]")] = true
		}
		res := locSet{}
		seen := map[loc]bool{}
		for l := range r {
			a.loadAt(s, l, res, seen)
			res[l] = true
		}
		if !x.IsString {
			a.set(s, x, res)
		}
	case *ssa.Extract:
		if !hasPtr(x.Type()) {
			return
		}
		if ts := s.tuples[x.Tuple]; ts != nil {
			if x.Index < len(ts) {
				a.set(s, x, ts[x.Index])
			}
			return
		}
		a.set(s, x, a.val(s, x.Tuple))
	case *ssa.Select:
		r := locSet{}
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				a.effect(s, in, a.val(s, st.Chan), fnName(s.f)+" sends on a channel")
				continue
			}
			for l := range a.val(s, st.Chan) {
				r[ext(l, "[]*")] = true
			}
		}
		a.set(s, x, r)
	case *ssa.MakeClosure:
		a.set(s, x, union(x.Bindings...))
	case *ssa.Store:
		at := a.val(s, x.Addr)
		a.effect(s, in, at, fnName(s.f)+" writes "+nameOfAddr(x.Addr))
		for l := range at {
			a.put(s, l, a.val(s, x.Val))
		}
	case *ssa.MapUpdate:
		at := a.val(s, x.Map)
		a.effect(s, in, at, fnName(s.f)+" writes an entry of "+nameOfAddr(x.Map))
		for l := range at {
			a.put(s, ext(l, "[]"), a.val(s, x.Value))
			a.put(s, ext(l, "[]"), a.val(s, x.Key))
		}
	case *ssa.Send:
		at := a.val(s, x.Chan)
		a.effect(s, in, at, fnName(s.f)+" sends on a channel")
		for l := range at {
			a.put(s, ext(l, "[]"), a.val(s, x.X))
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if hasPtr(v.Type()) && s.rets[i].add(a.val(s, v)) {
				a.any = true
			}
		}
	case *ssa.Call:
		a.call(s, in, &x.Call, x)
	case *ssa.Defer:
		a.call(s, in, &x.Call, nil)
	case *ssa.Go:
		a.call(s, in, &x.Call, nil)
	}
}

func nameOfAddr(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		n := "a struct"
		if nt, ok := st.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		if u, ok := st.Underlying().(*types.Struct); ok {
			return n + "." + u.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		return "an element of " + nameOfAddr(x.X)
	case *ssa.UnOp:
		return nameOfAddr(x.X)
	case *ssa.Slice:
		return nameOfAddr(x.X)
	case *ssa.Global:
		return x.Name()
	case *ssa.Parameter:
		return "what " + x.Name() + " points to"
	}
	return types.TypeString(v.Type(), func(*types.Package) string { return "" })
}

func (a *effAnalysis) call(s *effSummary, in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call) {
	var args []locSet
	all := locSet{}
	for _, v := range c.Args {
		l := locSet{}
		if hasPtr(v.Type()) {
			l.add(a.val(s, v))
		}
		args = append(args, l)
		all.add(l)
	}
	result := func(from locSet) {
		if res == nil || !hasPtr(res.Type()) {
			return
		}
		if t, ok := res.Type().(*types.Tuple); ok {
			any := false
			for i := 0; i < t.Len(); i++ {
				any = any || hasPtr(t.At(i).Type())
			}
			if !any {
				return
			}
		}
		a.set(s, res, from)
		a.set(s, res, locSet{{s.site(in), ""}: true})
		a.put(s, loc{s.site(in), "…"}, from)
	}
	if c.IsInvoke() {
		recv := a.val(s, c.Value)
		args = append([]locSet{recv}, args...)
		all.add(recv)
		if !a.pure(c.Method.Name()) {
			for i, l := range args {
				if i == 0 || writable(c.Args[i-1].Type()) && !strings.HasPrefix(c.Method.Name(), "Write") {
					a.effect(s, in, l, fnName(s.f)+" calls "+c.Method.Name())
				}
			}
		}
		result(all)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(args[0]) > 0 && !(len(args) > 1 && isNilConst(c.Args[1])) {
				// writes beyond the length of what the first argument shares
				a.effect(s, in, args[0], fnName(s.f)+" appends to "+nameOfAddr(c.Args[0]))
			}
			result(args[0])
			at := locSet{{s.site(in), ""}: true}
			at.add(args[0])
			if len(args) > 1 {
				elems := locSet{}
				if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && hasPtr(sl.Elem()) {
					q := locSet{}
					for l := range args[1] {
						q[ext(l, "[]")] = true
					}
					elems = a.load(s, q, sl.Elem())
				}
				for l := range at {
					a.put(s, ext(l, "[]"), elems)
				}
			}
		case "copy":
			a.effect(s, in, args[0], fnName(s.f)+" copies into "+nameOfAddr(c.Args[0]))
			if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && hasPtr(sl.Elem()) {
				q := locSet{}
				for l := range args[1] {
					q[ext(l, "[]")] = true
				}
				elems := a.load(s, q, sl.Elem())
				for l := range args[0] {
					a.put(s, ext(l, "[]"), elems)
				}
			}
		case "delete", "clear", "close":
			a.effect(s, in, args[0], fnName(s.f)+" "+b.Name()+"s "+nameOfAddr(c.Args[0]))
		case "ssa:wrapnilchk":
			if res != nil {
				a.set(s, res, args[0])
			}
		}
		return
	}
	var targets []*ssa.Function
	var binds []locSet
	if f := c.StaticCallee(); f != nil {
		targets = append(targets, f)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, v := range mc.Bindings {
				binds = append(binds, a.val(s, v))
			}
		}
	} else {
		targets = a.taken[types.TypeString(c.Signature(), nil)]
		if len(targets) == 0 || hasPtrSig(c.Signature()) {
			for i, l := range args {
				if writable(c.Args[i].Type()) {
					a.effect(s, in, l, fnName(s.f)+" calls a function value")
				}
			}
			result(all)
		}
	}
	for _, f := range targets {
		if f.Blocks == nil || !(a.p.inRepo(f) || f.Synthetic != "" && f.Pkg == nil) || len(f.FreeVars) != len(binds) {
			a.std(s, in, f, c, args)
			// functions handed on are run
			for _, v := range c.Args {
				if mc, ok := v.(*ssa.MakeClosure); ok && fnName(f) != "(*sync.Once).Do" {
					g := mc.Fn.(*ssa.Function)
					var bs []locSet
					for _, w := range mc.Bindings {
						bs = append(bs, a.val(s, w))
					}
					as := make([]locSet, len(g.Params))
					for i := range as {
						as[i] = all
					}
					a.apply(s, in, a.get(g), as, bs, nil)
				}
			}
			result(all)
			continue
		}
		a.apply(s, in, a.get(f), args, binds, res)
	}
}

func hasPtrSig(sg *types.Signature) bool {
	for i := 0; i < sg.Params().Len(); i++ {
		if writable(sg.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// apply brings a callee's summary into the caller.
func (a *effAnalysis) apply(s *effSummary, in ssa.Instruction, g *effSummary, args, binds []locSet, res *ssa.Call) {
	for e, pos := range g.effects {
		if s.guarded[in] {
			continue
		}
		for l := range a.translate(s, e.at, args, binds) {
			if strings.HasPrefix(l.root, "S") {
				continue
			}
			k := effect{l, e.what}
			if _, ok := s.effects[k]; !ok {
				s.effects[k] = pos
				a.any = true
			}
		}
	}
	for at, vs := range g.content {
		t := locSet{}
		for v := range vs {
			t.add(a.translate(s, v, args, binds))
		}
		for l := range a.translate(s, at, args, binds) {
			a.put(s, l, t)
		}
	}
	if res == nil {
		return
	}
	var rs []locSet
	for _, r := range g.rets {
		t := locSet{}
		for v := range r {
			t.add(a.translate(s, v, args, binds))
		}
		rs = append(rs, t)
	}
	if len(rs) == 1 {
		a.set(s, res, rs[0])
	} else if len(rs) > 1 {
		old := s.tuples[res]
		if old == nil {
			old = make([]locSet, len(rs))
			for i := range old {
				old[i] = locSet{}
			}
			s.tuples[res] = old
			a.any = true
		}
		for i := range rs {
			if old[i].add(rs[i]) {
				a.any = true
			}
		}
	}
}

// writable: what is handed over may be written through a value of the type.
func writable(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		for i := 0; i < x.NumMethods(); i++ {
			switch x.Method(i).Name() {
			case "At", "RGBA", "ColorModel", "Convert", "Error":
				return false
			}
		}
		return true
	case *types.Signature:
		return true
	}
	return false
}

// std: what a library function does to its arguments.
func (a *effAnalysis) std(s *effSummary, in ssa.Instruction, f *ssa.Function, c *ssa.CallCommon, args []locSet) {
	n := fnName(f)
	if f.Signature.Recv() != nil && a.pure(f.Name()) {
		return
	}
	pk := pkgPathOf(f)
	switch pk {
	case "strconv", "math", "errors", "unicode", "unicode/utf8", "math/bits", "image/color", "math/rand", "fmt", "sync", "sync/atomic", "time", "runtime":
		return
	case "strings", "bytes":
		if f.Signature.Recv() == nil {
			return
		}
	case "image":
		if !strings.HasPrefix(f.Name(), "Set") && f.Name() != "Decode" && f.Name() != "DecodeConfig" {
			return
		}
	}
	for i, l := range args {
		// what is written out is not changed: the contract of io.Writer
		if i > 0 && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Write") {
			continue
		}
		if i < len(c.Args) && writable(c.Args[i].Type()) {
			a.effect(s, in, l, fnName(s.f)+" hands "+nameOfAddr(c.Args[i])+" to "+n)
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}
