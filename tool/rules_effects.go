package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "", "Store effects over access paths, with summaries per function brought to a fixed point over the call graph: no function that looks at an image or colour, and neither encoder, writes memory it was given or a global, except under a lock.", ruleC12)
}

var lookers = map[string]bool{"At": true, "Bounds": true, "ColorModel": true, "Opaque": true, "PixOffset": true, "RGBA": true, "ToNRGBA": true, "String": true, "Convert": true, "Index": true, "SubImage": true, "SubImageLayer": true, "Composite": true,
	"Error": true, "Len": true, "Dx": true, "Dy": true}

func looks(name string) bool {
	return lookers[name] || strings.HasSuffix(name, "At") && name != "WriteAt" && name != "ReadAt"
}

func ruleC12(r *Run) {
	var obs []*ssa.Function
	which := map[*ssa.Function][]int{} // parameters that are looked at
	pure := func(n string) bool { return looks(n) || n == "RGBA64At" }
	cmodel := map[*ssa.Function]bool{}
	for f := range r.p.all {
		if !r.p.inRepo(f) || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fnName(c.Call.StaticCallee()) == "image/color.ModelFunc" {
					if g, ok := c.Call.Args[0].(*ssa.Function); ok {
						cmodel[g] = true
					}
				}
			}
		}
	}
	seen := 0
	for f := range r.p.all {
		if !r.p.inRepo(f) || f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil || strings.HasSuffix(r.p.prog.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		switch {
		case f.Signature.Recv() != nil && looks(f.Name()), cmodel[f]:
			obs = append(obs, f)
			for i := range f.Params {
				which[f] = append(which[f], i)
			}
		case f.Signature.Recv() == nil && f.Name() == "Encode" && f.Object() != nil && f.Object().Exported():
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Interface); ok && types.NewMethodSet(p.Type()).Lookup(nil, "ColorModel") != nil {
					obs = append(obs, f)
					which[f] = append(which[f], i)
					seen++
				}
			}
		}
	}
	if len(obs) < 10 {
		r.missing("the functions that look at images")
	}
	if seen == 0 {
		r.missing("an encoder that takes an image")
	}
	sort.Slice(obs, func(i, j int) bool { return obs[i].Pos() < obs[j].Pos() })
	a := newEffects(r.p, pure)
	for _, f := range obs {
		f := f
		r.guard("looking writes nothing", fnName(f), func() {
			s := a.of(f)
			r.analysed(f)
			bad := map[string]bool{}
			for e, pos := range s.effects {
				hit := strings.HasPrefix(e.at.root, "G")
				for _, i := range which[f] {
					if e.at.root == "P"+itoa(i) {
						hit = true
					}
				}
				if w := written(f, e); hit && !bad[w] {
					bad[w] = true
					r.viol("looking writes nothing", w, r.pos(pos), fnName(f)+" writes "+e.at.root+e.at.path+", which it was only to look at: "+e.what)
				}
			}
			if len(bad) == 0 {
				r.ok("looking writes nothing", fnName(f))
			}
		})
	}
	for f := range a.sum {
		r.analysed(f)
	}
}

// written names the memory of an effect: the last field on its way from the
// parameter, or the parameter's type.
func written(f *ssa.Function, e effect) string {
	if !strings.HasPrefix(e.at.root, "P") {
		return strings.TrimPrefix(e.at.root, "G:")
	}
	var t types.Type
	for i, p := range f.Params {
		if e.at.root == "P"+itoa(i) {
			t = p.Type()
		}
	}
	if t == nil {
		return e.at.root
	}
	last := types.TypeString(t, nil)
	t = deref(t)
	p := e.at.path
	for p != "" {
		switch {
		case p[0] == '*':
			t = deref(t)
			p = p[1:]
		case strings.HasPrefix(p, "[]"):
			switch x := t.Underlying().(type) {
			case *types.Slice:
				t = x.Elem()
			case *types.Array:
				t = x.Elem()
			default:
				return last
			}
			p = p[2:]
		case p[0] == '.':
			n := 1
			i := 0
			for n < len(p) && p[n] >= '0' && p[n] <= '9' {
				i = 10*i + int(p[n]-'0')
				n++
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || i >= st.NumFields() {
				return last
			}
			if nt, ok := t.(*types.Named); ok {
				last = nt.Obj().Pkg().Name() + "." + nt.Obj().Name() + "." + st.Field(i).Name()
			} else {
				last += "." + st.Field(i).Name()
			}
			t = st.Field(i).Type()
			p = p[n:]
		default:
			return last
		}
	}
	return last
}
