package main

// The parts of package reflect and encoding/binary that the code under test uses, on interpreter values.

import (
	"go/types"
	"reflect"
	"strings"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

const tokADD, tokSUB = token.ADD, token.SUB

type rtypeV struct{ t types.Type }

type reflectV struct {
	t types.Type
	v Value
	p *Value // non-nil: addressable
}

func (r reflectV) val() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (in *Interp) rtype(t types.Type) Value {
	rt := in.pkgType("reflect", "rtype")
	return iface{t: types.NewPointer(rt), v: rtypeV{t}}
}

func rv(v Value) reflectV {
	if r, ok := v.(reflectV); ok {
		return r
	}
	return reflectV{}
}

// isZeroTerm builds the condition that v is the zero value of t.
func (in *Interp) isZeroTerm(t types.Type, v Value) *Term {
	c := in.ctx
	switch x := v.(type) {
	case uint64:
		return c.Bool(x == 0)
	case bool:
		return c.Bool(!x)
	case *Term:
		if x.w == WBool {
			return c.Not(x)
		}
		return c.Eq(x, c.BV(0, x.w))
	case string:
		return c.Bool(x == "")
	case *SymStr:
		return c.Bool(len(x.b) == 0)
	case float64:
		return c.Bool(x == 0)
	case structure:
		r := c.T
		st := t.Underlying().(*types.Struct)
		for i := range x {
			r = c.And(r, in.isZeroTerm(st.Field(i).Type(), x[i]))
		}
		return r
	case array:
		r := c.T
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			r = c.And(r, in.isZeroTerm(et, x[i]))
		}
		return r
	case []Value:
		return c.Bool(x == nil)
	case *MapV:
		return c.Bool(x == nil)
	case *Value:
		return c.Bool(x == nil)
	case iface:
		return c.Bool(x.t == nil)
	}
	unsupported("IsZero of %T", v)
	return nil
}

func regReflect(reg func(string, intrinsic)) {
	reg("reflect.TypeOf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return in.rtype(i.t)
	})
	reg("reflect.ValueOf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return reflectV{}
		}
		return reflectV{t: i.t, v: i.v}
	})
	reg("reflect.New", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(iface).v.(rtypeV).t
		v := zero(t)
		return reflectV{t: types.NewPointer(t), v: &v}
	})
	reg("reflect.Zero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(iface).v.(rtypeV).t
		return reflectV{t: t, v: zero(t)}
	})
	reg("reflect.MakeSlice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(iface).v.(rtypeV).t
		return reflectV{t: t, v: in.makeSlice(t, a[1], a[2], types.Typ[types.Int])}
	})
	reg("reflect.Indirect", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			return reflectV{t: pt.Elem(), p: r.val().(*Value)}
		}
		return r
	})
	reg("reflect.Append", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		s := r.val().([]Value)
		var add []Value
		for _, x := range a[1].([]Value) {
			add = append(add, copyVal(rv(x).val()))
		}
		esz := max(sizes.Sizeof(r.t.Underlying().(*types.Slice).Elem()), 1)
		return reflectV{t: r.t, v: in.appendVals(s, add, esz)}
	})
	reg("reflect.Copy", func(in *Interp, fn *ssa.Function, a []Value) Value {
		get := func(r reflectV) []Value {
			switch x := r.val().(type) {
			case []Value:
				return x
			case array:
				return []Value(x)
			case string, *SymStr:
				return bytesOf(x)
			}
			unsupported("reflect.Copy %T", r.val())
			return nil
		}
		d, s := get(rv(a[0])), get(rv(a[1]))
		n := min(len(d), len(s))
		for i := 0; i < n; i++ {
			in.assign(&d[i], copyVal(s[i]))
		}
		return uint64(n)
	})
	V := "(reflect.Value)."
	bad := func(in *Interp, m string) {
		in.raise(iface{t: types.Typ[types.String], v: "reflect: " + m}, true, "reflect: "+m)
	}
	reg(V+"Type", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t == nil {
			bad(in, "Type of zero Value")
		}
		return in.rtype(r.t)
	})
	reg(V+"Kind", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	})
	reg(V+"IsValid", func(in *Interp, fn *ssa.Function, a []Value) Value { return rv(a[0]).t != nil })
	reg(V+"CanSet", func(in *Interp, fn *ssa.Function, a []Value) Value { return rv(a[0]).p != nil })
	reg(V+"CanAddr", func(in *Interp, fn *ssa.Function, a []Value) Value { return rv(a[0]).p != nil })
	reg(V+"Elem", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := r.val().(*Value)
			if p == nil {
				return reflectV{}
			}
			return reflectV{t: u.Elem(), p: p}
		case *types.Interface:
			i := r.val().(iface)
			if i.t == nil {
				return reflectV{}
			}
			return reflectV{t: i.t, v: i.v}
		}
		bad(in, "Elem of non-pointer")
		return nil
	})
	reg(V+"Field", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			bad(in, "Field of non-struct")
		}
		i := int(a[1].(uint64))
		s := r.val().(structure)
		if r.p != nil {
			return reflectV{t: st.Field(i).Type(), p: &s[i]}
		}
		return reflectV{t: st.Field(i).Type(), v: s[i]}
	})
	reg(V+"NumField", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return uint64(rv(a[0]).t.Underlying().(*types.Struct).NumFields())
	})
	reg(V+"Len", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).val().(type) {
		case []Value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case string, *SymStr:
			return uint64(len(bytesOf(x)))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.keys))
		}
		bad(in, "Len")
		return nil
	})
	reg(V+"Cap", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).val().(type) {
		case []Value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		}
		bad(in, "Cap")
		return nil
	})
	reg(V+"Index", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		i, ok := a[1].(uint64)
		if !ok {
			i = in.concretize(a[1].(*Term), "reflect index")
		}
		switch x := r.val().(type) {
		case []Value:
			if i >= uint64(len(x)) {
				bad(in, "slice index out of range")
			}
			return reflectV{t: r.t.Underlying().(*types.Slice).Elem(), p: &x[i]}
		case array:
			if i >= uint64(len(x)) {
				bad(in, "array index out of range")
			}
			if r.p != nil {
				return reflectV{t: r.t.Underlying().(*types.Array).Elem(), p: &x[i]}
			}
			return reflectV{t: r.t.Underlying().(*types.Array).Elem(), v: x[i]}
		}
		unsupported("reflect Index %T", r.val())
		return nil
	})
	reg(V+"Slice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		i, j := a[1].(uint64), a[2].(uint64)
		switch x := r.val().(type) {
		case []Value:
			if i > j || j > uint64(cap(x)) {
				bad(in, "slice bounds")
			}
			return reflectV{t: r.t, v: x[i:j]}
		case array:
			return reflectV{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: []Value(x)[i:j]}
		}
		unsupported("reflect Slice")
		return nil
	})
	reg(V+"Bytes", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).val().(type) {
		case []Value:
			return x
		case array:
			return []Value(x)
		}
		bad(in, "Bytes")
		return nil
	})
	reg(V+"IsNil", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		return simp(in.isZeroTerm(r.t, r.val()))
	})
	reg(V+"IsZero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t == nil {
			bad(in, "IsZero of zero Value")
		}
		return simp(in.isZeroTerm(r.t, r.val()))
	})
	reg(V+"Addr", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.p == nil {
			bad(in, "Addr of unaddressable value")
		}
		return reflectV{t: types.NewPointer(r.t), v: r.p}
	})
	reg(V+"Interface", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t == nil {
			bad(in, "Interface of zero Value")
		}
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return r.val()
		}
		return iface{t: r.t, v: copyVal(r.val())}
	})
	reg(V+"CanInterface", func(in *Interp, fn *ssa.Function, a []Value) Value { return true })
	set := func(in *Interp, r reflectV, v Value) {
		if r.p == nil {
			bad(in, "Set using unaddressable value")
		}
		in.store(r.p, copyVal(v), r.t)
	}
	reg(V+"Set", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x := rv(a[1])
		r := rv(a[0])
		v := x.val()
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			if _, ok := x.t.Underlying().(*types.Interface); !ok {
				v = iface{t: x.t, v: copyVal(v)}
			}
		} else if !types.AssignableTo(x.t, r.t) {
			bad(in, "Set: value of type not assignable")
		}
		set(in, r, v)
		return nil
	})
	for _, n := range []string{"SetString", "SetBytes", "SetBool"} {
		reg(V+n, func(in *Interp, fn *ssa.Function, a []Value) Value { set(in, rv(a[0]), a[1]); return nil })
	}
	reg(V+"SetUint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		set(in, r, in.conv(r.t, types.Typ[types.Uint64], a[1]))
		return nil
	})
	reg(V+"SetInt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		set(in, r, in.conv(r.t, types.Typ[types.Int64], a[1]))
		return nil
	})
	reg(V+"SetLen", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		s := r.val().([]Value)
		n := a[1].(uint64)
		if n > uint64(cap(s)) {
			bad(in, "SetLen out of range")
		}
		set(in, r, s[:n])
		return nil
	})
	reg(V+"Uint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		return in.conv(types.Typ[types.Uint64], r.t, r.val())
	})
	reg(V+"Int", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		return in.conv(types.Typ[types.Int64], r.t, r.val())
	})
	reg(V+"Bool", func(in *Interp, fn *ssa.Function, a []Value) Value { return rv(a[0]).val() })
	reg(V+"String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).val().(type) {
		case string, *SymStr:
			return x
		}
		return "<value>"
	})
	T := "(*reflect.rtype)."
	rt := func(v Value) types.Type {
		switch v := v.(type) {
		case rtypeV:
			return v.t
		}
		unsupported("rtype %T", v)
		return nil
	}
	reg(T+"Kind", func(in *Interp, fn *ssa.Function, a []Value) Value { return uint64(kindOf(rt(a[0]))) })
	reg(T+"Elem", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch u := rt(a[0]).Underlying().(type) {
		case *types.Pointer:
			return in.rtype(u.Elem())
		case *types.Slice:
			return in.rtype(u.Elem())
		case *types.Array:
			return in.rtype(u.Elem())
		case *types.Map:
			return in.rtype(u.Elem())
		case *types.Chan:
			return in.rtype(u.Elem())
		}
		bad(in, "Elem of invalid type")
		return nil
	})
	reg(T+"Len", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return uint64(rt(a[0]).Underlying().(*types.Array).Len())
	})
	reg(T+"NumField", func(in *Interp, fn *ssa.Function, a []Value) Value {
		st, ok := rt(a[0]).Underlying().(*types.Struct)
		if !ok {
			bad(in, "NumField of non-struct type")
		}
		return uint64(st.NumFields())
	})
	reg(T+"Field", func(in *Interp, fn *ssa.Function, a []Value) Value {
		st := rt(a[0]).Underlying().(*types.Struct)
		i := int(a[1].(uint64))
		sfT := in.pkgType("reflect", "StructField")
		s := zero(sfT).(structure)
		us := sfT.Underlying().(*types.Struct)
		for k := 0; k < us.NumFields(); k++ {
			switch us.Field(k).Name() {
			case "Name":
				s[k] = st.Field(i).Name()
			case "Tag":
				s[k] = st.Tag(i)
			case "Type":
				s[k] = in.rtype(st.Field(i).Type())
			case "Anonymous":
				s[k] = st.Field(i).Anonymous()
			}
		}
		return s
	})
	reg(T+"Size", func(in *Interp, fn *ssa.Function, a []Value) Value { return uint64(sizes.Sizeof(rt(a[0]))) })
	reg(T+"Name", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if n, ok := rt(a[0]).(*types.Named); ok {
			return n.Obj().Name()
		}
		return rt(a[0]).String()
	})
	reg(T+"String", func(in *Interp, fn *ssa.Function, a []Value) Value { return rt(a[0]).String() })
	reg("(reflect.Kind).String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return reflect.Kind(u).String()
		}
		return "<kind>"
	})
	reg("(reflect.StructTag).Lookup", func(in *Interp, fn *ssa.Function, a []Value) Value {
		v, ok := reflect.StructTag(a[0].(string)).Lookup(a[1].(string))
		return tuple{v, ok}
	})
	reg("(reflect.StructTag).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return reflect.StructTag(a[0].(string)).Get(a[1].(string))
	})
	reg("strings.Split", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if !ok1 || !ok2 {
			unsupported("symbolic strings.Split")
		}
		var out []Value
		for _, s := range strings.Split(x, y) {
			out = append(out, s)
		}
		return out
	})

	// ---- encoding/binary ----
	bigEndian := func(o Value) bool {
		i := o.(iface)
		return i.t != nil && strings.Contains(i.t.String(), "bigEndian")
	}
	reg("encoding/binary.Read", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("binary")
		r := a[0]
		be := bigEndian(a[1])
		data := a[2].(iface)
		var total int
		var targets []Value // pointers
		var ts []types.Type
		var et types.Type
		switch u := data.t.Underlying().(type) {
		case *types.Pointer:
			et = u.Elem()
			if sl, ok := et.Underlying().(*types.Slice); ok {
				for i := range (*data.v.(*Value)).([]Value) {
					targets = append(targets, &(*data.v.(*Value)).([]Value)[i])
					ts = append(ts, sl.Elem())
				}
			} else {
				targets = append(targets, data.v)
				ts = append(ts, et)
			}
		case *types.Slice:
			s := data.v.([]Value)
			for i := range s {
				targets = append(targets, &s[i])
				ts = append(ts, u.Elem())
			}
		default:
			return in.newError("binary.Read: invalid type")
		}
		for _, t := range ts {
			n := binSize(t)
			if n < 0 {
				return in.newError("binary.Read: invalid type")
			}
			total += n
		}
		buf := make([]Value, total)
		for i := range buf {
			buf[i] = uint64(0)
		}
		in.charge(int64(total))
		rf := in.prog.ssa.ImportedPackage("io").Func("ReadFull")
		res := in.call(rf, []Value{r, buf}, nil).(tuple)
		if e := res[1].(iface); e.t != nil {
			return e
		}
		pos := 0
		for i, t := range ts {
			v := in.binDecode(t, buf, &pos, be)
			in.store(targets[i], v, t)
		}
		return iface{}
	})
	reg("encoding/binary.Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("binary")
		data := a[2].(iface)
		be := bigEndian(a[1])
		if data.t == nil {
			return in.newError("binary.Write: some values are not fixed-sized")
		}
		t, v := data.t, data.v
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			v = *v.(*Value)
		}
		var out []Value
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if binSize(sl.Elem()) < 0 {
				return in.newError("binary.Write: some values are not fixed-sized")
			}
			for _, x := range v.([]Value) {
				out = in.binEncode(out, sl.Elem(), x, be)
			}
		} else {
			if binSize(t) < 0 {
				return in.newError("binary.Write: some values are not fixed-sized in type " + t.String())
			}
			out = in.binEncode(out, t, v, be)
		}
		w := a[0].(iface)
		if w.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		wm := in.prog.ssa.LookupMethod(w.t, nil, "Write")
		if wm == nil {
			unsupported("no Write method")
		}
		res := in.call(wm, []Value{w.v, out}, nil).(tuple)
		return res[1]
	})
	reg("encoding/binary.Size", func(in *Interp, fn *ssa.Function, a []Value) Value {
		data := a[0].(iface)
		t, v := data.t, data.v
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			v = *v.(*Value)
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			n := binSize(sl.Elem())
			if n >= 0 {
				n *= len(v.([]Value))
			}
			return uint64(int64(n))
		}
		return uint64(int64(binSize(t)))
	})
}

func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		n := binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (in *Interp) binDecode(t types.Type, b []Value, pos *int, be bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := binSize(t)
		bs := make([]*Term, n)
		for i := 0; i < n; i++ {
			x := in.term(b[*pos+i], 8)
			if be {
				bs[i] = x
			} else {
				bs[n-1-i] = x
			}
		}
		*pos += n
		if isFloat(t) {
			return &Opaque{"float"}
		}
		if isBool(t) {
			return simp(in.ctx.Not(in.ctx.Eq(bs[0], in.ctx.BV(0, 8))))
		}
		return simp(in.ctx.Concat(bs...))
	case *types.Array:
		a := make(array, int(u.Len()))
		for i := range a {
			a[i] = in.binDecode(u.Elem(), b, pos, be)
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = in.binDecode(u.Field(i).Type(), b, pos, be)
		}
		return s
	}
	unsupported("binary decode of %s", t)
	return nil
}

func (in *Interp) binEncode(out []Value, t types.Type, v Value, be bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := binSize(t)
		if isFloat(t) {
			unsupported("binary encode of float")
		}
		if isBool(t) {
			c := in.term(v, 0)
			return append(out, simp(in.ctx.Ite(c, in.ctx.BV(1, 8), in.ctx.BV(0, 8))))
		}
		tm := in.term(v, 8*n)
		for i := 0; i < n; i++ {
			k := i
			if be {
				k = n - 1 - i
			}
			out = append(out, simp(in.ctx.Extract(tm, 8*k+7, 8*k)))
		}
		return out
	case *types.Array:
		for _, x := range v.(array) {
			out = in.binEncode(out, u.Elem(), x, be)
		}
		return out
	case *types.Struct:
		for i, x := range v.(structure) {
			out = in.binEncode(out, u.Field(i).Type(), x, be)
		}
		return out
	}
	unsupported("binary encode of %s", t)
	return nil
}
