package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: uint64 (concrete integer, masked to its width), bool, *Term, string, *SymStr,
// float64, *Opaque, *Value (pointer), *SymAddr, structure, array, []Value (slice), *MapV, iface,
// *ssa.Function, *ssa.Builtin, *closure, tuple, *chanV, rtypeV, reflectV, nilPtr via (*Value)(nil).
type Value interface{}

type structure []Value
type array []Value
type tuple []Value

type SymStr struct{ b []Value }

type Opaque struct{ why string }

type iface struct {
	t types.Type
	v Value
}

type closure struct {
	fn   *ssa.Function
	free []Value
}

// SymAddr is the address of arr[idx] for a symbolic in-range index.
type SymAddr struct {
	arr []Value
	idx *Term
}

type MapV struct {
	keys []Value
	vals []Value
	kt   types.Type
	vt   types.Type
	// fast index for concrete keys
	idx map[string]int
	sym bool // some key is symbolic
}

type chanV struct {
	buf    []Value
	cap    int
	closed bool
}

type unsafePtr struct{ v Value }

// targetPanic is a panic of the program under analysis.
type targetPanic struct {
	v       Value
	runtime bool
	msg     string
	pos     string
}

// pathEnd aborts the current path.
type pathEnd struct {
	kind string // infeasible, unsupported, limit, violation, done
	msg  string
}

type specAbort struct{ why string }

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isIntT(t types.Type) bool { _, _, ok := intInfo(t); return ok }

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{(*Value)(nil)}
		case t.Kind() == types.UntypedNil:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		if n > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case structure, array:
				a[0] = z
				for i := 1; i < n; i++ {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(pathEnd{"unsupported", "zero of " + t.String()})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case structure, array:
				for i, x := range v {
					n[i] = copyVal(x)
				}
			default:
				copy(n, v)
			}
		}
		return n
	}
	return v
}

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case uint64:
		return fmt.Sprint(v)
	case bool:
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *Term:
		return v.String()
	case iface:
		if v.t == nil {
			return "nil-iface"
		}
		return "iface(" + v.t.String() + ")" + showVal(v.v)
	case structure:
		s := "{"
		for i, x := range v {
			if i > 6 {
				s += "..."
				break
			}
			s += showVal(x) + " "
		}
		return s + "}"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + showVal(*v)
	}
	return fmt.Sprintf("%T", v)
}
