package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A term is a node of the value graph: a hash-consed, canonical description of
// what an SSA value is, over the inputs of the function that was analysed.
type Op uint8

const (
	ONone    Op = iota
	OInt        // aux: *big.Int
	OStr        // aux: string
	OFloat      // aux: float64
	OBool       // aux: bool
	ONil        // nil of any kind
	OSym        // aux: name; a free symbol
	OPoly       // a polynomial over integer terms
	ODiv        // floor(args[0]/args[1])
	OTDiv       // truncated division, sign unknown
	OTRem       // truncated remainder, sign unknown
	OWrap       // args[0] reduced to an integer type (aux: "u8".."i64")
	OBit        // aux: operator; an uninterpreted bit operation
	OFop        // aux: operator; an uninterpreted float operation
	OIte        // args[0] is an atom
	OGE         // atom: args[0] >= 0
	OEQ         // atom: args[0] == 0
	OSame       // atom: args[0] == args[1], uninterpreted
	OIs         // atom: dynamic type of args[0] is aux (type string)
	OPayload    // args[0] asserted to the type aux
	OPred       // atom: args[0], an opaque boolean
	OStruct     // aux: type string; args: fields
	OTuple      // args
	OArray      // args: elements
	OZeroArr    // a long zero array; aux: type string
	OField      // aux: index; field of an opaque struct
	OExtract    // aux: index; component of an opaque tuple
	OElem       // args[0][args[1]]; element of an opaque array
	OUpd        // args[0] with element args[1] set to args[2]
	OSlice      // aux: object id; args: off, len
	OSeq        // a slice whose elements are known values
	OAppend     // args[0] followed by the other args
	OConcat     // args[0] followed by the elements of args[1]
	OIface      // aux: type string; args[0] value
	OCall       // aux: function name; a pure call
	ORes        // aux: event number; the result of an effectful call
	OAddr       // aux: object id; args: path
	OFunc       // aux: *FuncVal key
	ODeref      // what args[0] points at, at entry
	OLen        // len(args[0])
	OMap        // aux: type; args: k0, v0, k1, v1 ...
	OUnknown    // aux: reason + number; nothing is known
	OMu         // aux: name; loop-variant value
	OBox        // aux: tag; opaque wrapper
	OCut        // a name for args[0], the integer result of a call
)

var opNames = map[Op]string{ODiv: "div", OTDiv: "tdiv", OTRem: "trem", OWrap: "wrap", OBit: "bit", OFop: "f", OGE: "ge0", OEQ: "eq0", OSame: "same", OIs: "is", OPayload: "as", OPred: "pred", OStruct: "struct", OTuple: "tuple", OArray: "array", OZeroArr: "zeroarr", OField: "field", OExtract: "ex", OElem: "elem", OUpd: "upd", OSlice: "slice", OSeq: "seq", OAppend: "append", OConcat: "concat", OIface: "iface", OCall: "call", ORes: "res", OAddr: "addr", OFunc: "func", ODeref: "deref", OLen: "len", OMap: "map", OUnknown: "unknown", OMu: "mu", OBox: "box", OCut: "cut"}

type T struct {
	id   int
	op   Op
	args []*T
	aux  string
	i    *big.Int // OInt
	f    float64
	poly *Poly
	typ  types.Type // for opaque terms, when known
	lo   *big.Int   // range of an integer term; nil is unbounded
	hi   *big.Int
	rngd bool
	hasW int8 // cache: contains OWrap (1 no, 2 yes)
}

// U is the universe that terms are hash-consed in.
type U struct {
	noLP      bool
	lpN, lpOK int
	lpT       time.Duration

	tab   map[string]*T
	terms []*T
	iteM  map[[3]int]*T
	resM  map[[2]int]*T
	wraps map[*T][]string // where a wrap was made
	fresh int
	tTrue, tFalse, tNil,
	zero, one *T
	prove   *prover
	extraUB map[*T][]*Poly // upper bounds that hold by a contract
	uncM    map[*T]*T
}

func NewU() *U {
	u := &U{tab: map[string]*T{}, iteM: map[[3]int]*T{}, resM: map[[2]int]*T{}, wraps: map[*T][]string{}, extraUB: map[*T][]*Poly{}}
	u.tTrue = u.mk(OBool, "true")
	u.tFalse = u.mk(OBool, "false")
	u.tNil = u.mk(ONil, "")
	u.zero = u.Int(0)
	u.one = u.Int(1)
	u.prove = &prover{u: u}
	return u
}

func (u *U) mk(op Op, aux string, args ...*T) *T {
	return u.mkT(op, aux, nil, args...)
}

func (u *U) mkT(op Op, aux string, typ types.Type, args ...*T) *T {
	var sb strings.Builder
	sb.WriteByte(byte(op))
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.id))
	}
	if typ != nil && (op == ORes || op == OSym && (strings.HasPrefix(aux, "after") || strings.HasPrefix(aux, "err"))) {
		// events are numbered anew each time that a loop is gone through
		sb.WriteByte(1)
		sb.WriteString(types.TypeString(typ, nil))
	}
	k := sb.String()
	if t, ok := u.tab[k]; ok {
		if t.typ == nil && typ != nil {
			t.typ = typ
			t.rngd = false
		}
		return t
	}
	t := &T{id: len(u.terms) + 1, op: op, aux: aux, args: args, typ: typ}
	u.tab[k] = t
	u.terms = append(u.terms, t)
	return t
}

func (u *U) Int(n int64) *T { return u.BigInt(big.NewInt(n)) }

func (u *U) BigInt(n *big.Int) *T {
	t := u.mk(OInt, n.String())
	if t.i == nil {
		t.i = new(big.Int).Set(n)
	}
	return t
}

func (u *U) Str(s string) *T { return u.mk(OStr, s) }

func (u *U) Float(f float64) *T {
	t := u.mk(OFloat, strconv.FormatFloat(f, 'x', -1, 64))
	t.f = f
	return t
}

func (u *U) Bool(b bool) *T {
	if b {
		return u.tTrue
	}
	return u.tFalse
}

// Sym makes a free symbol of a type.
func (u *U) Sym(name string, typ types.Type) *T { return u.mkT(OSym, name, typ) }

// SymR makes an integer symbol with a range.
func (u *U) SymR(name string, lo, hi int64) *T {
	t := u.mk(OSym, name)
	t.lo, t.hi, t.rngd = big.NewInt(lo), big.NewInt(hi), true
	t.typ = types.Typ[types.Int]
	return t
}

func (u *U) Unknown(reason string, typ types.Type) *T {
	u.fresh++
	return u.mkT(OUnknown, fmt.Sprintf("%s#%d", reason, u.fresh), typ)
}

func (t *T) isConst() bool { return t.op == OInt || t.op == OStr || t.op == OFloat || t.op == OBool }

func (t *T) boolVal() (bool, bool) {
	if t.op == OBool {
		return t.aux == "true", true
	}
	return false, false
}

func (t *T) intVal() (int64, bool) {
	if t.op == OInt && t.i.IsInt64() {
		return t.i.Int64(), true
	}
	return 0, false
}

// ---- polynomials

type Poly struct {
	m map[string]*mono
}

type mono struct {
	vars []*T
	c    *big.Rat
}

func newPoly() *Poly { return &Poly{m: map[string]*mono{}} }

func monoKey(vars []*T) string {
	var sb strings.Builder
	for _, v := range vars {
		sb.WriteString(strconv.Itoa(v.id))
		sb.WriteByte('.')
	}
	return sb.String()
}

func (p *Poly) add(vars []*T, c *big.Rat) {
	if c.Sign() == 0 {
		return
	}
	k := monoKey(vars)
	if m, ok := p.m[k]; ok {
		n := new(big.Rat).Add(m.c, c)
		if n.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{m.vars, n}
		}
		return
	}
	p.m[k] = &mono{vars, c}
}

func constPoly(c *big.Rat) *Poly {
	p := newPoly()
	p.add(nil, c)
	return p
}

func intPoly(n int64) *Poly { return constPoly(new(big.Rat).SetInt64(n)) }

func (p *Poly) keys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Poly) Add(q *Poly) *Poly {
	r := newPoly()
	for k, m := range p.m {
		r.m[k] = m
	}
	for _, m := range q.m {
		r.add(m.vars, m.c)
	}
	return r
}

func (p *Poly) Scale(c *big.Rat) *Poly {
	r := newPoly()
	if c.Sign() == 0 {
		return r
	}
	for k, m := range p.m {
		r.m[k] = &mono{m.vars, new(big.Rat).Mul(m.c, c)}
	}
	return r
}

func (p *Poly) Neg() *Poly        { return p.Scale(big.NewRat(-1, 1)) }
func (p *Poly) Sub(q *Poly) *Poly { return p.Add(q.Neg()) }

func mergeVars(a, b []*T) []*T {
	r := make([]*T, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].id <= b[j].id {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func (p *Poly) Mul(q *Poly) *Poly {
	r := newPoly()
	for _, a := range p.m {
		for _, b := range q.m {
			r.add(mergeVars(a.vars, b.vars), new(big.Rat).Mul(a.c, b.c))
		}
	}
	return r
}

func (p *Poly) constVal() (*big.Rat, bool) {
	switch len(p.m) {
	case 0:
		return new(big.Rat), true
	case 1:
		if m, ok := p.m[""]; ok {
			return m.c, true
		}
	}
	return nil, false
}

func (p *Poly) String() string {
	if len(p.m) == 0 {
		return "0"
	}
	var parts []string
	for _, k := range p.keys() {
		m := p.m[k]
		s := m.c.RatString()
		for _, v := range m.vars {
			s += "*" + v.String()
		}
		parts = append(parts, s)
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

func (u *U) polyOf(t *T) *Poly {
	switch t.op {
	case OInt:
		return constPoly(new(big.Rat).SetInt(t.i))
	case OPoly:
		return t.poly
	}
	p := newPoly()
	p.add([]*T{t}, big.NewRat(1, 1))
	return p
}

// fromPoly makes the term of a polynomial with integer coefficients.
func (u *U) fromPoly(p *Poly) *T {
	if c, ok := p.constVal(); ok {
		if !c.IsInt() {
			panic("fractional constant")
		}
		return u.BigInt(c.Num())
	}
	if len(p.m) == 1 {
		for _, m := range p.m {
			if len(m.vars) == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
				return m.vars[0]
			}
		}
	}
	var sb strings.Builder
	var deps []*T
	seen := map[*T]bool{}
	for _, k := range p.keys() {
		m := p.m[k]
		sb.WriteString(m.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
		for _, v := range m.vars {
			if !seen[v] {
				seen[v] = true
				deps = append(deps, v)
			}
		}
	}
	sort.Slice(deps, func(i, j int) bool { return deps[i].id < deps[j].id })
	t := u.mk(OPoly, sb.String(), deps...)
	if t.poly == nil {
		t.poly = p
	}
	return t
}

// ---- lifting over decisions

func (u *U) lift1(f func(*T) *T, a *T) *T {
	if a.op != OIte {
		return f(a)
	}
	if a.args[1].op != OIte && a.args[2].op != OIte {
		return u.mkIteAtom(a.args[0], f(a.args[1]), f(a.args[2]))
	}
	memo := map[*T]*T{}
	var rec func(a *T) *T
	rec = func(a *T) *T {
		if a.op != OIte {
			return f(a)
		}
		if r := memo[a]; r != nil {
			return r
		}
		r := u.mkIteAtom(a.args[0], rec(a.args[1]), rec(a.args[2]))
		memo[a] = r
		return r
	}
	return rec(a)
}

// top picks the smallest decision atom at the root of the terms.
func top(ts ...*T) *T {
	var v *T
	for _, t := range ts {
		if t.op == OIte && (v == nil || t.args[0].id < v.id) {
			v = t.args[0]
		}
	}
	return v
}

func cof(t, atom *T, val bool) *T {
	if t.op == OIte && t.args[0] == atom {
		if val {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

func (u *U) lift2(f func(a, b *T) *T, a, b *T) *T {
	if a.op != OIte && b.op != OIte {
		return f(a, b)
	}
	memo := map[[2]*T]*T{}
	var rec func(a, b *T) *T
	rec = func(a, b *T) *T {
		v := top(a, b)
		if v == nil {
			return f(a, b)
		}
		k := [2]*T{a, b}
		if r := memo[k]; r != nil {
			return r
		}
		r := u.mkIteAtom(v, rec(cof(a, v, true), cof(b, v, true)), rec(cof(a, v, false), cof(b, v, false)))
		memo[k] = r
		return r
	}
	return rec(a, b)
}

func (u *U) liftN(f func([]*T) *T, as []*T) *T {
	v := top(as...)
	if v == nil {
		return f(as)
	}
	hi := make([]*T, len(as))
	lo := make([]*T, len(as))
	for n, a := range as {
		hi[n] = cof(a, v, true)
		lo[n] = cof(a, v, false)
	}
	return u.mkIteAtom(v, u.liftN(f, hi), u.liftN(f, lo))
}

func (u *U) mkIteAtom(atom, t, e *T) *T {
	if t == e {
		return t
	}
	if r := u.impliedEqual(atom, t, e); r != nil {
		return r
	}
	// keep the order: children must have larger atoms
	if (t.op == OIte && t.args[0].id <= atom.id) || (e.op == OIte && e.args[0].id <= atom.id) {
		return u.Ite(u.mk(OIte, "", atom, u.tTrue, u.tFalse), t, e)
	}
	return u.mk(OIte, "", atom, t, e)
}

// Ite is the decision c ? t : e, for a boolean term c.
func (u *U) Ite(c, t, e *T) *T {
	switch {
	case c == u.tTrue:
		return t
	case c == u.tFalse:
		return e
	case t == e:
		return t
	case t == u.tTrue && e == u.tFalse:
		return c
	}
	if c.op != OIte {
		panic("Ite: condition is not a decision: " + c.String())
	}
	key := [3]int{c.id, t.id, e.id}
	if r, ok := u.iteM[key]; ok {
		return r
	}
	v := top(c, t, e)
	hi := u.Ite(cof(c, v, true), cof(t, v, true), cof(e, v, true))
	lo := u.Ite(cof(c, v, false), cof(t, v, false), cof(e, v, false))
	var r *T
	if hi == lo {
		r = hi
	} else if q := u.impliedEqual(v, hi, lo); q != nil {
		r = q
	} else {
		r = u.mk(OIte, "", v, hi, lo)
	}
	u.iteM[key] = r
	return r
}

// impliedEqual finds that two integer leaves are equal where the atom makes
// the one or the other the value: if x >= 9 then 9 else x, for x <= 9, is x.
func (u *U) impliedEqual(atom, t, e *T) *T {
	if atom.op != OGE && atom.op != OEQ || !intLeaf(t) || !intLeaf(e) {
		return nil
	}
	p := u.polyOf(atom.args[0])
	d := u.polyOf(t).Sub(u.polyOf(e))
	lo, hi := u.rng(atom.args[0])
	if (atom.op == OEQ || hi != nil && hi.Sign() == 0) && multiple(d, p) {
		return e // where the atom holds, p = 0
	}
	if atom.op == OGE && lo != nil && lo.IsInt64() && lo.Int64() == -1 && multiple(d, p.Add(intPoly(1))) {
		return t // where it does not, p = -1
	}
	return nil
}

func intLeaf(t *T) bool {
	switch t.op {
	case OInt, OPoly, ODiv, OWrap, OTDiv, OTRem, OLen, OCut:
		return true
	case OSym, OField, OExtract, OElem, OMu, ORes, OPayload, OCall, OBit, OFop:
		return intKind(t.typ) != ""
	}
	return false
}

func multiple(d, p *Poly) bool {
	if len(d.m) != len(p.m) {
		return false
	}
	var c *big.Rat
	for k, m := range p.m {
		n, ok := d.m[k]
		if !ok {
			return false
		}
		q := new(big.Rat).Quo(n.c, m.c)
		if c == nil {
			c = q
		} else if c.Cmp(q) != 0 {
			return false
		}
	}
	return c != nil
}

func (u *U) atom(a *T) *T { return u.mk(OIte, "", a, u.tTrue, u.tFalse) }

func (u *U) Not(c *T) *T    { return u.Ite(c, u.tFalse, u.tTrue) }
func (u *U) And(a, b *T) *T { return u.Ite(a, b, u.tFalse) }
func (u *U) Or(a, b *T) *T  { return u.Ite(a, u.tTrue, b) }

// Restrict simplifies f given that care holds.
func (u *U) Restrict(f, care *T) *T {
	if care == u.tTrue || care == u.tFalse || f.op != OIte {
		return f
	}
	key := [2]int{f.id, care.id}
	if r, ok := u.resM[key]; ok {
		return r
	}
	v := top(f, care)
	var r *T
	ch, cl := cof(care, v, true), cof(care, v, false)
	switch {
	case ch == u.tFalse:
		r = u.Restrict(cof(f, v, false), cl)
	case cl == u.tFalse:
		r = u.Restrict(cof(f, v, true), ch)
	case f.args[0] != v:
		r = u.Restrict(f, u.Or(ch, cl))
	default:
		r = u.mkIteAtom(v, u.Restrict(f.args[1], ch), u.Restrict(f.args[2], cl))
	}
	u.resM[key] = r
	return r
}

// Cube is one way through a decision diagram.
type Lit struct {
	atom *T
	val  bool
}

// Leaf is a leaf of a decision diagram and how to get there.
type Leaf struct {
	lits []Lit
	t    *T
}

func leaves(t *T) []Leaf {
	var out []Leaf
	var rec func(t *T, lits []Lit)
	rec = func(t *T, lits []Lit) {
		if len(out) > 50000 {
			return
		}
		if t.op == OIte {
			rec(t.args[1], append(lits[:len(lits):len(lits)], Lit{t.args[0], true}))
			rec(t.args[2], append(lits[:len(lits):len(lits)], Lit{t.args[0], false}))
			return
		}
		out = append(out, Leaf{lits, t})
	}
	rec(t, nil)
	return out
}

func (u *U) cubes(c *T) [][]Lit {
	var out [][]Lit
	for _, l := range leaves(c) {
		if l.t == u.tTrue {
			out = append(out, l.lits)
		}
	}
	return out
}

// Cut names an integer term, so that what is computed from it does not grow
// with it. The prover looks behind the name where it has to.
func (u *U) Cut(t *T, typ types.Type) *T {
	if !u.worthCut(t, map[*T]bool{}) {
		return t
	}
	c := u.mkT(OCut, "", typ, t)
	return c
}

func (u *U) worthCut(t *T, seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OIte:
		return u.worthCut(t.args[1], seen) || u.worthCut(t.args[2], seen)
	case ODiv, OTDiv, OTRem:
		return true
	case OWrap:
		return u.worthCut(t.args[0], seen)
	case OPoly:
		if len(t.args) > 1 {
			return true
		}
		for _, m := range t.poly.m {
			if len(m.vars) > 1 {
				return true
			}
			for _, v := range m.vars {
				if u.worthCut(v, seen) {
					return true
				}
			}
		}
	}
	return false
}

// Map rebuilds a term with some of its parts replaced; f gives nil for what stays.
func (u *U) Map(t *T, f func(*T) *T) *T { return u.mapM(t, f, map[*T]*T{}) }

func (u *U) mapM(t *T, f func(*T) *T, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	r := f(t)
	if r == nil {
		r = u.mapArgs(t, f, memo)
	}
	memo[t] = r
	return r
}

func (u *U) mapArgs(t *T, f func(*T) *T, memo map[*T]*T) *T {
	if len(t.args) == 0 {
		return t
	}
	as := make([]*T, len(t.args))
	same := true
	for n, a := range t.args {
		as[n] = u.mapM(a, f, memo)
		if as[n] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case OPoly:
		by := map[*T]*T{}
		for n, a := range t.args {
			by[a] = as[n]
		}
		r := u.zero
		for _, k := range t.poly.keys() {
			m := t.poly.m[k]
			x := u.BigInt(m.c.Num())
			for _, v := range m.vars {
				x = u.mulP(x, by[v])
			}
			r = u.addP(r, x)
		}
		return r
	case ODiv:
		return u.div(as[0], as[1])
	case OTDiv, OTRem:
		return u.lift2(func(a, b *T) *T { return u.mkT(t.op, t.aux, t.typ, a, b) }, as[0], as[1])
	case OWrap:
		lo, hi := kindRange(t.aux)
		return u.lift1(func(a *T) *T {
			if l, h := u.rng(a); lo != nil && l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return a
			}
			return u.mk(OWrap, t.aux, a)
		}, as[0])
	case OIte:
		c := as[0]
		if c.op != OIte && c.op != OBool {
			c = u.atom(c)
		}
		return u.Ite(c, as[1], as[2])
	case OGE:
		return u.GE0(as[0])
	case OEQ:
		return u.EQ0(as[0])
	case OFop:
		return u.liftN(func(as []*T) *T { return u.foldF(t.aux, t.typ, as) }, as)
	case OCall:
		if v := foldMath(u, t.aux, as); v != nil {
			return v
		}
	case OPred:
		if as[0].op == OBool {
			return as[0]
		}
		return u.liftN(func(as []*T) *T {
			if as[0].op == OBool {
				return as[0]
			}
			return u.atom(u.mkT(t.op, t.aux, t.typ, as...))
		}, as)
	case OSame, OIs:
		if t.op == OSame {
			return u.liftN(func(as []*T) *T {
				if as[0] == as[1] {
					return u.tTrue
				}
				if as[0].op == OStr && as[1].op == OStr || as[0].op == OInt && as[1].op == OInt {
					return u.tFalse
				}
				return u.atom(u.mkT(t.op, t.aux, t.typ, as...))
			}, as)
		}
		return u.liftN(func(as []*T) *T { return u.atom(u.mkT(t.op, t.aux, t.typ, as...)) }, as)
	case OCut:
		return u.Cut(as[0], t.typ)
	}
	return u.mkT(t.op, t.aux, t.typ, as...)
}

// Uncut replaces the names by what they stand for.
func (u *U) Uncut(t *T) *T {
	if u.uncM == nil {
		u.uncM = map[*T]*T{}
	}
	memo := u.uncM
	var f func(t *T) *T
	f = func(t *T) *T {
		if t.op == OCut {
			return u.mapM(t.args[0], f, memo)
		}
		return nil
	}
	return u.mapM(t, f, memo)
}

// ---- printing

func (t *T) String() string { return t.str(0) }

func shortType(s string) string {
	s = strings.ReplaceAll(s, "vimagination.zapto.org/limage", "limage")
	return strings.ReplaceAll(s, "image/", "")
}

func (t *T) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case OInt, OSym, OBool, OFloat, OMu, OUnknown:
		return t.aux
	case OStr:
		return strconv.Quote(t.aux)
	case ONil:
		return "nil"
	case OPoly:
		var parts []string
		for _, k := range t.poly.keys() {
			m := t.poly.m[k]
			s := m.c.RatString()
			for _, v := range m.vars {
				if s == "1" {
					s = v.str(d + 1)
				} else {
					s += "*" + v.str(d+1)
				}
			}
			parts = append(parts, s)
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case OIte:
		return "if[" + t.args[0].str(d+1) + " ? " + t.args[1].str(d+1) + " : " + t.args[2].str(d+1) + "]"
	case OField:
		return t.args[0].str(d+1) + "." + t.aux
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	return opNames[t.op] + ":" + shortType(t.aux) + "(" + strings.Join(as, ", ") + ")"
}

// foldF evaluates an operation on floating point constants.
func (u *U) foldF(op string, typ types.Type, as []*T) *T {
	if len(as) == 1 {
		x := as[0]
		switch {
		case op == "i2f" && x.op == OInt:
			f, _ := new(big.Rat).SetInt(x.i).Float64()
			return u.Float(f)
		case op == "f2i" && x.op == OFloat && x.f == x.f && x.f < 1<<53 && x.f > -(1<<53):
			n, _ := big.NewFloat(x.f).Int(nil)
			if lo, hi := kindRange(intKind(typ)); lo == nil || n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
				return u.BigInt(n)
			}
		}
		return u.mkT(OFop, op, typ, as...)
	}
	x, y := as[0], as[1]
	if x.op == OFloat && y.op == OFloat {
		switch op {
		case "+":
			return u.Float(x.f + y.f)
		case "-":
			return u.Float(x.f - y.f)
		case "*":
			return u.Float(x.f * y.f)
		case "/":
			if y.f != 0 {
				return u.Float(x.f / y.f)
			}
		case "<":
			return u.Bool(x.f < y.f)
		case "<=":
			return u.Bool(x.f <= y.f)
		case ">":
			return u.Bool(x.f > y.f)
		case ">=":
			return u.Bool(x.f >= y.f)
		case "==":
			return u.Bool(x.f == y.f)
		case "!=":
			return u.Bool(x.f != y.f)
		}
	}
	if (op == "+" || op == "*") && y.id < x.id {
		return u.mkT(OFop, op, typ, y, x)
	}
	return u.mkT(OFop, op, typ, as...)
}

// foldMath evaluates the simple functions of package math on constants.
func foldMath(u *U, name string, as []*T) *T {
	if !strings.HasPrefix(name, "math.") || len(as) == 0 || len(as) > 2 {
		return nil
	}
	for _, a := range as {
		if a.op != OFloat {
			return nil
		}
	}
	if len(as) == 1 {
		if f := map[string]func(float64) float64{"math.Round": math.Round, "math.RoundToEven": math.RoundToEven, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt}[name]; f != nil {
			return u.Float(f(as[0].f))
		}
		return nil
	}
	if f := map[string]func(x, y float64) float64{"math.Min": math.Min, "math.Max": math.Max, "math.Mod": math.Mod}[name]; f != nil {
		return u.Float(f(as[0].f, as[1].f))
	}
	return nil
}
