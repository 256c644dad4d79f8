package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/r3volut1oner/go-karbo/verifsym"

var intrinsics map[string]intrinsic
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "net": true, "syscall": true, "time": true, "internal/poll": true, "crypto/rand": true, "math/rand": true,
	"internal/cpu": true, "internal/godebug": true, "golang.org/x/crypto/sha3": true, "internal/bytealg": true, "sync": true, "internal/testlog": true, "log": true, "fmt": true,
	"math/rand/v2": true, "context": true, "net/http": true, "golang.org/x/sys/cpu": true, "go.uber.org/zap": true, "go.uber.org/zap/zapcore": true,
	"github.com/sirupsen/logrus": true,
}
var globalOverrides = map[string]func(in *Interp, g *ssa.Global) Value{}

// stubPkgs: calls return zero values, pointers to fresh zero objects.
var stubPkgs = []string{"github.com/sirupsen/logrus", "go.uber.org/zap", "os", "log", "os/signal", "net", "syscall", "internal/poll", "internal/godebug", "go.uber.org/zap/zapcore", "path/filepath", "io/ioutil"}

func prefixIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Pkg == nil && fn.Signature.Recv() == nil && !strings.Contains(name, ")") {
		return nil
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if pkg == "io/ioutil" {
		switch fn.Name() {
		case "ReadAll", "NopCloser":
			return nil
		}
	}
	for _, s := range stubPkgs {
		if pkg == s {
			if fn.Name() == "init" {
				return nil
			}
			if s == "net" || s == "os" {
				if fn.Blocks != nil && strings.Contains(name, "Error)") {
					return nil
				}
			}
			return stubCall
		}
	}
	if pkg == "sync/atomic" {
		return atomicCall(fn)
	}
	if pkg == "internal/runtime/atomic" {
		return atomicCall(fn)
	}
	return nil
}

func stubCall(in *Interp, fn *ssa.Function, args []Value) Value {
	if in.spec > 0 {
		panic(specAbort{"stub"})
	}
	switch fn.Name() {
	case "WriteFile", "Create", "OpenFile", "Mkdir", "MkdirAll", "TempFile", "CreateTemp", "Rename", "Symlink", "Link":
		in.path.files++
	}
	if strings.HasPrefix(fn.Name(), "Fatal") {
		in.raise(iface{t: types.Typ[types.String], v: "log.Fatal"}, false, "log.Fatal: process exit")
	}
	if strings.HasPrefix(fn.Name(), "Panic") {
		in.raise(iface{t: types.Typ[types.String], v: "log.Panic"}, false, "log.Panic")
	}
	// fluent logger methods return their receiver
	r := fn.Signature.Results()
	mk := func(t types.Type) Value {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if fn.Signature.Recv() != nil && len(args) > 0 && types.Identical(fn.Signature.Recv().Type(), t) {
				return args[0]
			}
			v := zero(pt.Elem())
			return &v
		}
		return zero(t)
	}
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return mk(r.At(0).Type())
	}
	t := make(tuple, r.Len())
	for i := range t {
		t[i] = mk(r.At(i).Type())
	}
	return t
}

func atomicCall(fn *ssa.Function) intrinsic {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { return in.load(a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.store(a[0], a[1], fn.Signature.Params().At(1).Type())
			return nil
		}
	case strings.HasPrefix(n, "Add") || strings.HasPrefix(n, "Xadd"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := fn.Signature.Params().At(1).Type()
			v := in.binop(tokADD, t, in.load(a[0]), a[1], t)
			in.store(a[0], v, t)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			o := in.load(a[0])
			in.store(a[0], a[1], fn.Signature.Params().At(1).Type())
			return o
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := fn.Signature.Params().At(1).Type()
			e := in.equal(t, in.load(a[0]), a[1])
			if in.truth(e) {
				in.store(a[0], a[2], t)
				return true
			}
			return false
		}
	}
	return nil
}

// truth forks on a symbolic boolean.
func (in *Interp) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return in.branch(v)
	}
	unsupported("truth of %T", v)
	return false
}

func (in *Interp) noSpec(why string) {
	if in.spec > 0 {
		panic(specAbort{why})
	}
}

// ---- errors ----

func (in *Interp) pkgType(pkg, name string) types.Type {
	p := in.prog.ssa.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (in *Interp) newError(msg Value) Value {
	t := in.pkgType("errors", "errorString")
	if t == nil {
		unsupported("no errors package")
	}
	var v Value = structure{msg}
	return iface{t: types.NewPointer(t), v: &v}
}
func (in *Interp) wrapErr(msg Value, err iface) Value {
	t := in.pkgType("fmt", "wrapError")
	var v Value = structure{msg, err}
	return iface{t: types.NewPointer(t), v: &v}
}

// native converts a concrete interface value to a Go value for fmt.
func native(v Value) (interface{}, bool) {
	i, ok := v.(iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	switch x := i.v.(type) {
	case string:
		return x, true
	case bool:
		return x, true
	case uint64:
		w, s, _ := intInfo(i.t)
		if s {
			return sx(x, w), true
		}
		return x, true
	case float64:
		return x, true
	}
	return nil, false
}

func (in *Interp) sprintf(args []Value) (Value, iface) {
	f, ok := args[0].(string)
	var wrapped iface
	rest, _ := args[1].([]Value)
	errT, _ := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	var ns []interface{}
	allOK := ok
	for _, r := range rest {
		if i, isI := r.(iface); isI && i.t != nil && types.Implements(i.t, errT) {
			wrapped = i
		}
		n, ok := native(r)
		if !ok {
			allOK = false
		}
		ns = append(ns, n)
	}
	if !ok || !strings.Contains(f, "%w") {
		wrapped = iface{}
	}
	if allOK {
		return fmt.Sprintf(f, ns...), wrapped
	}
	return "<formatted:" + fmt.Sprint(args[0]) + ">", wrapped
}

func fnv(s string) string { return s }

func init() {
	I := map[string]intrinsic{}
	reg := func(name string, f intrinsic) { I[name] = f }
	S := symPkg + "."

	// ---- harness API ----
	for _, x := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"Bool", 0}} {
		x := x
		reg(S+x.n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.noSpec("input")
			return in.fresh(a[0].(string), x.w)
		})
	}
	reg(S+"Bytes", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("input")
		n := int(a[1].(uint64))
		b := make([]Value, n)
		name := a[0].(string)
		for i := range b {
			b[i] = in.fresh(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		return b
	})
	reg(S+"Int", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("input")
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		if lo == hi {
			return a[1]
		}
		t := in.fresh(a[0].(string), 64)
		in.path.inputs[len(in.path.inputs)-1].pick = true
		c := in.ctx
		if lo >= 0 {
			in.assume(c.And(c.Ule(c.BV(uint64(lo), 64), t), c.Ule(t, c.BV(uint64(hi), 64))))
		} else {
			in.assume(c.And(c.Sle(c.BV(uint64(lo), 64), t), c.Sle(t, c.BV(uint64(hi), 64))))
		}
		return in.concretize(t, "harness choice")
	})
	reg(S+"Bound", func(in *Interp, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		v := a[1].(uint64)
		if in.ex.cfg.Thorough {
			v = a[2].(uint64)
		}
		in.ex.mu.Lock()
		in.ex.bounds[name] = int(v)
		in.ex.mu.Unlock()
		return v
	})
	reg(S+"Assume", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				in.noSpec("assume")
				panic(pathEnd{"infeasible", "assume"})
			}
		case *Term:
			in.assume(c)
		default:
			unsupported("assume of %T", c)
		}
		return nil
	})
	reg(S+"Assert", func(in *Interp, fn *ssa.Function, a []Value) Value {
		msg, _ := a[1].(string)
		switch c := a[0].(type) {
		case bool:
			in.ex.asserts.Add(1)
			if !c {
				in.noSpec("assert")
				in.violation("assert", msg, in.where(), nil)
				panic(pathEnd{"violation", msg})
			}
		case *Term:
			in.assertCond(c, msg)
		default:
			unsupported("assert of %T", c)
		}
		return nil
	})
	reg(S+"Cover", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("cover")
		tag := a[0].(string)
		if !in.path.coverSet[tag] {
			in.path.coverSet[tag] = true
			in.path.covers = append(in.path.covers, tag)
		}
		return nil
	})
	reg(S+"Observe", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("observe")
		vs, _ := a[1].([]Value)
		var out []Value
		for _, v := range vs {
			i := v.(iface)
			out = append(out, obsVal(i))
		}
		in.path.observe = append(in.path.observe, ObsRec{Tag: a[0].(string), Vals: out})
		return nil
	})
	reg(S+"AllocLimit", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.path.allocLim = int64(a[0].(uint64))
		return nil
	})
	reg(S+"Files", func(in *Interp, fn *ssa.Function, a []Value) Value { return uint64(in.path.files) })
	reg(S+"Same", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return simp(in.same(a[0].(iface), a[1].(iface)))
	})
	reg(S+"Symbolic", func(in *Interp, fn *ssa.Function, a []Value) Value { return true })
	reg(S+"Must", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(bool); ok {
			return c
		}
		return in.mustHold(in.term(a[0], 0))
	})
	reg(S+"Concrete", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return in.concretize(t, "harness concretisation")
		}
		return a[0]
	})
	reg(S+"And", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.ctx.T
		for _, x := range a[0].([]Value) {
			r = in.ctx.And(r, in.term(x, 0))
		}
		return simp(r)
	})
	reg(S+"Or", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.ctx.F
		for _, x := range a[0].([]Value) {
			r = in.ctx.Or(r, in.term(x, 0))
		}
		return simp(r)
	})
	reg(S+"IteU64", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := in.term(a[0], 0)
		return simp(in.ctx.Ite(c, in.term(a[1], 64), in.term(a[2], 64)))
	})
	// ghost integers
	zt := func(in *Interp, v Value) *Term {
		s := v.(structure)
		switch x := s[0].(type) {
		case *Term:
			return x
		case *Value:
			return in.ctx.IntI(0)
		}
		unsupported("ghost integer %T", s[0])
		return nil
	}
	zv := func(t *Term) Value { return structure{t} }
	ZT := "(" + symPkg + ".Z)."
	reg(S+"ZU", func(in *Interp, fn *ssa.Function, a []Value) Value { return zv(in.ctx.U2I(in.term(a[0], 64))) })
	reg(S+"ZI", func(in *Interp, fn *ssa.Function, a []Value) Value { return zv(in.ctx.S2I(in.term(a[0], 64))) })
	reg(S+"ZVar", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("input")
		return zv(in.ctx.U2I(in.term(in.fresh(a[0].(string), int(a[1].(uint64))), 0)))
	})
	reg(S+"ZStr", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b, ok := new(big.Int).SetString(a[0].(string), 0)
		if !ok {
			unsupported("ZStr %v", a[0])
		}
		return zv(in.ctx.Int(b))
	})
	reg(S+"ZBytesLE", func(in *Interp, fn *ssa.Function, a []Value) Value {
		bs := a[0].([]Value)
		if len(bs) == 0 {
			return zv(in.ctx.IntI(0))
		}
		ts := make([]*Term, len(bs))
		for i, b := range bs {
			ts[len(bs)-1-i] = in.term(b, 8)
		}
		return zv(in.ctx.U2I(in.ctx.Concat(ts...)))
	})
	reg(ZT+"Add", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.IAdd(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Sub", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.ISub(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Mul", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.IMul(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Div", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.IDiv(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Mod", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.IMod(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Eq", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return simp(in.ctx.Eq(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Le", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return simp(in.ctx.ILe(zt(in, a[0]), zt(in, a[1])))
	})
	reg(ZT+"Lt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return simp(in.ctx.ILt(zt(in, a[0]), zt(in, a[1])))
	})
	reg(S+"ZIte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return zv(in.ctx.Ite(in.term(a[0], 0), zt(in, a[1]), zt(in, a[2])))
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.lock(a[0]); return nil })
	reg("(*sync.Mutex).Unlock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.unlock(a[0]); return nil })
	reg("(*sync.Mutex).TryLock", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l := in.lockOf(a[0])
		if l.writer {
			return false
		}
		l.writer = true
		return true
	})
	reg("(*sync.RWMutex).Lock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.lock(a[0]); return nil })
	reg("(*sync.RWMutex).Unlock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.unlock(a[0]); return nil })
	reg("(*sync.RWMutex).RLock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.rlock(a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fn *ssa.Function, a []Value) Value { in.runlock(a[0]); return nil })
	reg("(*sync.Once).Do", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("once")
		p := a[0].(*Value)
		if in.path.onces[p] {
			return nil
		}
		in.path.onces[p] = true
		in.callValue(a[1], nil)
		return nil
	})
	nop := func(in *Interp, fn *ssa.Function, a []Value) Value { in.noSpec("sync"); return zeroResult(fn) }
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Pool).Put", "time.Sleep", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "(*sync.Cond).Signal", "(*sync.Cond).Broadcast"} {
		reg(n, nop)
	}
	reg("(*sync.Pool).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(structure)
		f := st[len(st)-1]
		if ff, ok := f.(*ssa.Function); ok && ff == nil {
			return iface{}
		}
		return in.callValue(f, nil)
	})

	// ---- time ----
	reg("time.Now", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("time")
		p := in.path
		if p.now == nil {
			p.now = in.ctx.Var("time.now", 64)
			in.assume(in.ctx.And(in.ctx.Ule(in.ctx.BV(1600000000, 64), p.now), in.ctx.Ult(p.now, in.ctx.BV(4000000000, 64))))
		}
		t := zero(fn.Signature.Results().At(0).Type()).(structure)
		t[1] = simp(in.ctx.Add(p.now, in.ctx.BV(62135596800, 64)))
		return t
	})
	reg("(time.Time).Unix", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(structure)
		return in.binop(tokSUB, types.Typ[types.Int64], t[1], uint64(62135596800), nil)
	})
	reg("time.Since", func(in *Interp, fn *ssa.Function, a []Value) Value { in.noSpec("time"); return uint64(0) })

	// ---- fmt / errors ----
	reg("fmt.Sprintf", func(in *Interp, fn *ssa.Function, a []Value) Value { in.noSpec("fmt"); v, _ := in.sprintf(a); return v })
	reg("fmt.Errorf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("fmt")
		v, w := in.sprintf(a)
		if w.t != nil {
			return in.wrapErr(v, w)
		}
		return in.newError(v)
	})
	for _, n := range []string{"Sprint", "Sprintln"} {
		reg("fmt."+n, func(in *Interp, fn *ssa.Function, a []Value) Value { in.noSpec("fmt"); return "<formatted>" })
	}
	for _, n := range []string{"Print", "Printf", "Println", "Fprintf", "Fprint", "Fprintln"} {
		reg("fmt."+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.noSpec("fmt")
			return tuple{uint64(0), iface{}}
		})
	}
	reg("errors.Is", func(in *Interp, fn *ssa.Function, a []Value) Value {
		e, target := a[0].(iface), a[1].(iface)
		for n := 0; n < 20; n++ {
			if e.t == nil {
				return target.t == nil
			}
			if in.truth(in.equal(types.Universe.Lookup("error").Type(), e, target)) {
				return true
			}
			m := in.prog.ssa.LookupMethod(e.t, nil, "Unwrap")
			if m == nil || m.Signature.Results().Len() != 1 {
				return false
			}
			if _, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
				return false
			}
			e = in.call(m, []Value{e.v}, nil).(iface)
			if e.t == nil {
				return false
			}
		}
		return false
	})

	// ---- bytes helpers implemented in assembly ----
	eq := func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(x) != len(y) {
			return false
		}
		return simp(in.eqBytes(x, y))
	}
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	reg("crypto/subtle.ConstantTimeCompare", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(x) != len(y) {
			return uint64(0)
		}
		return simp(in.ctx.Ite(in.eqBytes(x, y), in.ctx.BV(1, 64), in.ctx.BV(0, 64)))
	})
	cmp := func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.cmpBytes(bytesOf(a[0]), bytesOf(a[1]))
		c := in.ctx
		return simp(c.Ite(r.lt, c.BV(maskw(64), 64), c.Ite(r.eq, c.BV(0, 64), c.BV(1, 64))))
	}
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	idxByte := func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := bytesOf(a[0])
		c := in.ctx
		r := c.BV(maskw(64), 64)
		k := in.term(a[1], 8)
		for i := len(b) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(in.term(b[i], 8), k), c.BV(uint64(i), 64), r)
		}
		if v, ok := simp(r).(uint64); ok {
			return v
		}
		if in.spec > 0 {
			return r
		}
		return in.concretize(r, "byte position")
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		reg(n, idxByte)
	}
	count := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := uint64(0)
		for _, x := range bytesOf(a[0]) {
			if in.truth(in.equal(types.Typ[types.Uint8], x, a[1])) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	concIdx := func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if !ok1 || !ok2 {
			xb, yb := bytesOf(x), bytesOf(y)
			for i := 0; i+len(yb) <= len(xb); i++ {
				if in.branch(in.eqBytes(xb[i:i+len(yb)], yb)) {
					return uint64(i)
				}
			}
			return maskw(64)
		}
		return uint64(int64(strings.Index(xs, ys)))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, concIdx)
	}
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.allocLen(a[0], 1, types.Typ[types.Int])
		s := make([]Value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("internal/abi.NoEscape", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*strings.Builder).copyCheck", func(in *Interp, fn *ssa.Function, a []Value) Value { return nil })
	reg("strings.HasPrefix", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(y) > len(x) {
			return false
		}
		return simp(in.eqBytes(x[:len(y)], y))
	})

	// ---- keccak ----
	kst := func(in *Interp, v Value) *Value {
		switch v := v.(type) {
		case *Value:
			return v
		case iface:
			return v.v.(*Value)
		}
		unsupported("keccak state %T", v)
		return nil
	}
	newKeccak := func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("keccak")
		t := in.pkgType("golang.org/x/crypto/sha3", "state")
		if t == nil {
			unsupported("sha3 state type")
		}
		v := zero(t)
		p := &v
		in.path.keccak[p] = nil
		return iface{t: types.NewPointer(t), v: p}
	}
	reg("golang.org/x/crypto/sha3.NewLegacyKeccak256", newKeccak)
	reg("(*golang.org/x/crypto/sha3.state).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("keccak")
		p := kst(in, a[0])
		b := a[1].([]Value)
		in.path.keccak[p] = append(append([]Value(nil), in.path.keccak[p]...), b...)
		return tuple{uint64(len(b)), iface{}}
	})
	reg("(*golang.org/x/crypto/sha3.state).Reset", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("keccak")
		in.path.keccak[kst(in, a[0])] = nil
		return nil
	})
	digest := func(in *Interp, data []Value) []Value {
		ts := make([]*Term, len(data))
		for i, x := range data {
			ts[i] = in.term(x, 8)
		}
		h := in.ctx.Keccak(ts)
		out := make([]Value, 32)
		for i := range out {
			out[i] = simp(in.ctx.Extract(h, 255-8*i, 248-8*i))
		}
		return out
	}
	reg("(*golang.org/x/crypto/sha3.state).Sum", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("keccak")
		p := kst(in, a[0])
		pre, _ := a[1].([]Value)
		return in.appendVals(pre, digest(in, in.path.keccak[p]), 1)
	})
	reg("(*golang.org/x/crypto/sha3.state).Size", func(in *Interp, fn *ssa.Function, a []Value) Value { return uint64(32) })
	reg("(*golang.org/x/crypto/sha3.state).BlockSize", func(in *Interp, fn *ssa.Function, a []Value) Value { return uint64(136) })
	reg("golang.org/x/crypto/sha3.Keccak256", nil)
	delete(I, "golang.org/x/crypto/sha3.Keccak256")

	// ---- randomness ----
	randInt := func(w int) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value { in.noSpec("rand"); return in.fresh("rand", w) }
	}
	reg("math/rand.Uint64", randInt(64))
	reg("math/rand.Uint32", randInt(32))
	reg("math/rand.Int63", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("rand")
		return in.ctx.Zext(in.fresh("rand", 63), 64)
	})
	reg("math/rand.Int", I["math/rand.Int63"])
	reg("math/rand.Seed", nop)
	reg("math/rand.Intn", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("rand")
		v := in.fresh("rand", 64)
		in.assume(in.ctx.Ult(v, in.term(a[0], 64)))
		return v
	})
	randRead := func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("rand")
		b := a[len(a)-1].([]Value)
		for i := range b {
			in.set(&b[i], in.fresh("rand8", 8))
		}
		return tuple{uint64(len(b)), iface{}}
	}
	reg("crypto/rand.Read", randRead)
	reg("(*crypto/rand.reader).Read", randRead)
	reg("math/rand.Read", randRead)
	globalOverrides["crypto/rand.Reader"] = func(in *Interp, g *ssa.Global) Value {
		t := in.pkgType("crypto/rand", "reader")
		if t == nil {
			return iface{}
		}
		var v Value = zero(t)
		return iface{t: types.NewPointer(t), v: &v}
	}

	// ---- math on floats ----
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round, "Trunc": math.Trunc} {
		n, f := n, f
		reg("math."+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if x, ok := a[0].(intFloat); ok && n != "Sqrt" {
				if n == "Abs" {
					neg := in.ctx.Slt(x.t, in.ctx.BV(0, 64))
					x.t = in.ctx.Ite(neg, in.ctx.Neg(x.t), x.t)
				}
				return x
			}
			return &Opaque{"float"}
		})
	}
	// ---- sort ----
	reg("sort.Slice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.noSpec("sort")
		sl := a[0].(iface)
		s := sl.v.([]Value)
		et := sl.t.Underlying().(*types.Slice).Elem()
		in.sortNetwork(s, et, func(i, j int) Value { return in.callValue(a[1], []Value{uint64(i), uint64(j)}) })
		return nil
	})
	reg("sort.SliceStable", I["sort.Slice"])
	reg("sort.SliceIsSorted", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(iface).v.([]Value)
		r := in.ctx.T
		for i := len(s) - 1; i > 0; i-- {
			switch c := in.callValue(a[1], []Value{uint64(i), uint64(i - 1)}).(type) {
			case bool:
				r = in.ctx.And(r, in.ctx.Bool(!c))
			case *Term:
				r = in.ctx.And(r, in.ctx.Not(c))
			default:
				unsupported("sort comparison")
			}
		}
		return simp(r)
	})
	regReflect(reg)
	intrinsics = I
}

// sortNetwork sorts in place; symbolic comparisons of scalars become conditional exchanges.
func (in *Interp) sortNetwork(s []Value, et types.Type, less func(i, j int) Value) {
	n := len(s)
	// insertion while comparisons are concrete
	concrete := true
	for i := 1; i < n && concrete; i++ {
		for j := i; j > 0; j-- {
			c, ok := less(j, j-1).(bool)
			if !ok {
				concrete = false
				break
			}
			if !c {
				break
			}
			a, b := s[j], s[j-1]
			in.set(&s[j], b)
			in.set(&s[j-1], a)
		}
	}
	if concrete {
		return
	}
	for i := 0; i < n; i++ {
		for j := n - 1; j > i; j-- {
			c := less(j, j-1)
			switch c := c.(type) {
			case bool:
				if c {
					a, b := s[j], s[j-1]
					in.set(&s[j], b)
					in.set(&s[j-1], a)
				}
			case *Term:
				a, b := copyVal(s[j]), copyVal(s[j-1])
				x, ok1 := in.iteT(c, b, a, et)
				y, ok2 := in.iteT(c, a, b, et)
				if ok1 && ok2 && scalarWidth(et) > 0 {
					in.set(&s[j], x)
					in.set(&s[j-1], y)
				} else if in.branch(c) {
					in.set(&s[j], b)
					in.set(&s[j-1], a)
				}
			default:
				unsupported("sort comparison")
			}
		}
	}
}

// same is structural equality, following pointers and identifying nil and empty slices.
func (in *Interp) same(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return in.ctx.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return in.ctx.F
	}
	return in.sameT(a.t, a.v, b.v, 0)
}

func (in *Interp) sameT(t types.Type, a, b Value, depth int) *Term {
	c := in.ctx
	if depth > 30 {
		unsupported("Same: depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ap, ok1 := a.(*Value)
		bp, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			unsupported("Same on %T", a)
		}
		if ap == nil || bp == nil {
			return c.Bool(ap == bp)
		}
		if ap == bp {
			return c.T
		}
		return in.sameT(u.Elem(), *ap, *bp, depth+1)
	case *types.Struct:
		as, bs := a.(structure), b.(structure)
		r := c.T
		for i := range as {
			r = c.And(r, in.sameT(u.Field(i).Type(), as[i], bs[i], depth+1))
		}
		return r
	case *types.Array, *types.Slice:
		var et types.Type
		var as, bs []Value
		switch u := u.(type) {
		case *types.Array:
			et = u.Elem()
			as, bs = []Value(a.(array)), []Value(b.(array))
		case *types.Slice:
			et = u.Elem()
			as, bs = a.([]Value), b.([]Value)
		}
		if len(as) != len(bs) {
			return c.F
		}
		if scalarWidth(et) == 8 {
			return in.eqBytes(as, bs)
		}
		r := c.T
		for i := range as {
			r = c.And(r, in.sameT(et, as[i], bs[i], depth+1))
		}
		return r
	case *types.Interface:
		ai, bi := a.(iface), b.(iface)
		if ai.t == nil || bi.t == nil {
			return c.Bool(ai.t == nil && bi.t == nil)
		}
		if !types.Identical(ai.t, bi.t) {
			return c.F
		}
		return in.sameT(ai.t, ai.v, bi.v, depth+1)
	case *types.Map:
		am, bm := a.(*MapV), b.(*MapV)
		la, lb := 0, 0
		if am != nil {
			la = len(am.keys)
		}
		if bm != nil {
			lb = len(bm.keys)
		}
		if la != lb {
			return c.F
		}
		r := c.T
		for i := 0; i < la; i++ {
			v, ok := in.mapGet(bm, am.keys[i], u.Key())
			if !ok {
				return c.F
			}
			r = c.And(r, in.sameT(u.Elem(), am.vals[i], v, depth+1))
		}
		return r
	}
	return in.term(in.equal(t, a, b), 0)
}

// abstractCall replaces a function by an uninterpreted function of all the data it can read;
// results and pointees of pointer parameters receive the uninterpreted outputs.
func abstractCall(in *Interp, fn *ssa.Function, args []Value) Value {
	in.noSpec("abstract")
	var ins []*Term
	var flat func(t types.Type, v Value)
	flat = func(t types.Type, v Value) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w := scalarWidth(t)
			tm := in.term(v, w)
			if tm.w == WBool {
				tm = in.ctx.Ite(tm, in.ctx.BV(1, 1), in.ctx.BV(0, 1))
			}
			ins = append(ins, tm)
		case *types.Pointer:
			p, ok := v.(*Value)
			if !ok || p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			flat(u.Elem(), *p)
		case *types.Struct:
			for i, x := range v.(structure) {
				flat(u.Field(i).Type(), x)
			}
		case *types.Array:
			for _, x := range v.(array) {
				flat(u.Elem(), x)
			}
		case *types.Slice:
			for _, x := range v.([]Value) {
				flat(u.Elem(), x)
			}
		default:
			unsupported("abstract argument %s", t)
		}
	}
	// split inputs/outputs by name convention is impossible; read everything that is pointed to
	// except the receiver/first pointer of functions listed as output-first.
	name := fn.String()
	sig := fn.Signature
	var params []types.Type
	if sig.Recv() != nil {
		params = append(params, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i).Type())
	}
	outs := abstractOutputs(fn)
	for i, t := range params {
		if outs[i] {
			continue
		}
		flat(t, args[i])
	}
	if len(ins) == 0 {
		ins = append(ins, in.ctx.BV(0, 1))
	}
	key := in.ctx.Concat(ins...)
	k := 0
	var build func(t types.Type) Value
	build = func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			k++
			if isBool(t) {
				return simp(in.ctx.Eq(in.ctx.App(fmt.Sprintf("%s!%d", name, k), 1, key), in.ctx.BV(1, 1)))
			}
			return in.ctx.App(fmt.Sprintf("%s!%d", name, k), scalarWidth(t), key)
		case *types.Struct:
			s := make(structure, u.NumFields())
			for i := range s {
				s[i] = build(u.Field(i).Type())
			}
			return s
		case *types.Array:
			n := int(u.Len())
			a := make(array, n)
			if scalarWidth(u.Elem()) == 8 && n > 1 {
				k++
				whole := in.ctx.App(fmt.Sprintf("%s!%d", name, k), 8*n, key)
				for i := range a {
					a[i] = simp(in.ctx.Extract(whole, 8*n-1-8*i, 8*n-8-8*i))
				}
				return a
			}
			for i := range a {
				a[i] = build(u.Elem())
			}
			return a
		case *types.Interface:
			// error result: uninterpreted choice
			k++
			if in.branch(in.ctx.Eq(in.ctx.App(fmt.Sprintf("%s!%d", name, k), 1, key), in.ctx.BV(1, 1))) {
				return iface{}
			}
			return in.newError("abstract error")
		case *types.Pointer:
			v := build(u.Elem())
			return &v
		}
		unsupported("abstract result %s", t)
		return nil
	}
	for i, t := range params {
		if outs[i] {
			in.assign(args[i].(*Value), build(t.Underlying().(*types.Pointer).Elem()))
		}
	}
	r := sig.Results()
	in.path.unreal = true
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return build(r.At(0).Type())
	}
	tp := make(tuple, r.Len())
	// build errors first so that pointer results can be nil together with an error
	errIdx := -1
	for i := 0; i < r.Len(); i++ {
		if types.Identical(r.At(i).Type(), types.Universe.Lookup("error").Type()) {
			errIdx = i
			tp[i] = build(r.At(i).Type())
		}
	}
	for i := 0; i < r.Len(); i++ {
		if i == errIdx {
			continue
		}
		if errIdx >= 0 && tp[errIdx].(iface).t != nil {
			tp[i] = zero(r.At(i).Type())
			continue
		}
		tp[i] = build(r.At(i).Type())
	}
	return tp
}

// abstractOutputs finds pointer parameters that the function writes through (directly or by passing on).
func abstractOutputs(fn *ssa.Function) map[int]bool {
	out := map[int]bool{}
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		if writesThrough(fn, p, 0) {
			out[i] = true
		}
	}
	return out
}

func writesThrough(fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(fn, r, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(fn, r, depth+1) {
				return true
			}
		case *ssa.Slice:
			for _, rr := range *r.Referrers() {
				if c, ok := rr.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == r {
						return true
					}
				}
			}
		case *ssa.ChangeType:
			if writesThrough(fn, r, depth+1) {
				return true
			}
		case *ssa.Call:
			callee := r.Call.StaticCallee()
			if callee == nil {
				continue
			}
			for i, a := range r.Call.Args {
				if a == v && i < len(callee.Params) && callee != fn && writesThrough(callee, callee.Params[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// numSeq is an observed list of numbers wider than a byte.
type numSeq []Value
type rawStr string

func obsVal(i iface) Value {
	if i.t == nil {
		return i.v
	}
	var et types.Type
	switch t := i.t.Underlying().(type) {
	case *types.Slice:
		et = t.Elem()
	case *types.Array:
		et = t.Elem()
	}
	if et == nil || scalarWidth(et) <= 8 {
		// the memory behind the value may change after it was observed
		switch v := i.v.(type) {
		case []Value:
			return append([]Value{}, v...)
		case array:
			return append(array{}, v...)
		}
		return i.v
	}
	switch v := i.v.(type) {
	case []Value:
		return numSeq(append([]Value{}, v...))
	case array:
		return numSeq(append([]Value{}, v...))
	}
	return i.v
}
