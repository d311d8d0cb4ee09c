package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureMethod reports interface methods that are taken to be functions of their
// arguments: the methods of the image and colour interfaces and of errors.
func pureMethod(m *types.Func, recv types.Type) bool {
	switch m.Name() {
	case "RGBA", "Convert", "At", "Bounds", "ColorModel", "Opaque", "ToNRGBA", "Error", "String", "ColorIndexAt", "GrayAt", "NRGBAAt", "RGBAAt":
		return true
	}
	return false
}

func pureFunc(name string) bool {
	for _, p := range []string{"strconv.", "strings.", "math.", "errors.New", "errors.Is", "errors.As", "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "unicode.", "unicode/utf8.", "path.", "bytes.Equal", "sort.Search", "(image/color.Palette)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func nonNilCall(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Panic":
		return true
	}
	return false
}

func readsOnly(name string) bool {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return true
	}
	return false
}

// model gives the meaning of a few library functions.
func (e *Exec) model(st *State, f *ssa.Function, name string, args []*T, ins ssa.Instruction, in *ssa.Function) (*T, bool) {
	switch name {
	case "bytes.Equal", "bytes.HasPrefix", "strings.HasPrefix", "strings.HasSuffix":
		str := types.Typ[types.String]
		a, b := args[0], args[1]
		if strings.HasPrefix(name, "bytes") {
			bt := types.NewSlice(types.Typ[types.Uint8])
			a, b = e.convert(st, a, bt, str, ins.Pos(), in), e.convert(st, b, bt, str, ins.Pos(), in)
		}
		switch {
		case name == "bytes.Equal":
			return e.equal(a, b, str), true
		case a.op == OStr && b.op == OStr && strings.HasSuffix(name, "Prefix"):
			return e.u.Bool(strings.HasPrefix(a.aux, b.aux)), true
		case a.op == OStr && b.op == OStr:
			return e.u.Bool(strings.HasSuffix(a.aux, b.aux)), true
		}
	case "math/rand.Int31n", "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31", "math/rand.Uint32", "math/rand/v2.IntN", "math/rand/v2.N":
		r := e.effect(st, name, f, args, resultType(f.Signature), ins, in)
		if len(args) == 1 {
			if n := args[0]; n.op == OInt && n.i.Sign() > 0 {
				r.lo, r.hi, r.rngd = e.u.zero.i, e.u.addP(n, e.u.Int(-1)).i, true
			}
		}
		return r, true
	}
	return nil, false
}
