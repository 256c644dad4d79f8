package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugPanics = os.Getenv("GOSYM_DEBUG") != ""

type Program struct {
	ssa  *ssa.Program
	fset *token.FileSet
	mod  string // module path under analysis
}

type undoRec struct {
	p   *Value
	old Value
	fn  func()
}

type FnInfo struct {
	slots    slotTab
	consts   []Value
	hasDefer bool
	n        int
	intr     intrinsic
	name     string
	merge    map[*ssa.BasicBlock]*region
	bad      map[*ssa.BasicBlock]int
	std      bool
	ipdom    []int // immediate postdominator block index, -1 for exit
}

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

type Interp struct {
	asserting string // message of the assertion being decided
	ex        *Explorer
	prog      *Program
	ctx       *Ctx
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]int
	fns       map[*ssa.Function]*FnInfo
	undo      []undoRec
	logging   bool
	path      *Path
	depth     int
	spec      int
	guard     *Term
	specN     int
	stack     []*frame
	newFuncs  map[string]bool
	procs     map[string]*Proc
	consts    map[*ssa.Const]Value
	typeKeys  map[types.Type]string
}

type frame struct {
	fn        *ssa.Function
	info      *FnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	cur       ssa.Instruction
	free      []Value
	defers    []*deferred
	panicking *targetPanic
	recovered bool
	result    Value
	caller    *frame
	isDefer   bool
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	inst *ssa.Defer
}

func NewInterp(e *Explorer) *Interp {
	c := NewCtx()
	c.wide = e.cfg.Wide
	return &Interp{ex: e, prog: e.prog, ctx: c, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, fns: map[*ssa.Function]*FnInfo{}, newFuncs: map[string]bool{}, procs: map[string]*Proc{}, consts: map[*ssa.Const]Value{}, typeKeys: map[types.Type]string{}}
}
func (in *Interp) close() {
	for _, p := range in.procs {
		p.kill()
	}
	in.procs = map[string]*Proc{}
}

func unsupported(f string, a ...interface{}) { panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)}) }

func (in *Interp) where() string {
	for i := len(in.stack) - 1; i >= 0; i-- {
		fr := in.stack[i]
		if fr.cur != nil && fr.cur.Pos().IsValid() {
			p := in.prog.fset.Position(fr.cur.Pos())
			if strings.Contains(p.Filename, "/go1.") || strings.Contains(p.Filename, "/pkg/mod/") {
				continue
			}
			return fmt.Sprintf("%s:%d", trimPath(p.Filename), p.Line)
		}
	}
	return "?"
}
func trimPath(f string) string {
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	return f
}

func (in *Interp) trace() string {
	var sb strings.Builder
	for i := len(in.stack) - 1; i >= 0 && i > len(in.stack)-12; i-- {
		fr := in.stack[i]
		pos := ""
		if fr.cur != nil {
			p := in.prog.fset.Position(fr.cur.Pos())
			pos = fmt.Sprintf("%s:%d", trimPath(p.Filename), p.Line)
		}
		fmt.Fprintf(&sb, "  %s %s\n", fr.fn.String(), pos)
	}
	return sb.String()
}

// ---- memory ----
func (in *Interp) set(p *Value, v Value) {
	if in.logging {
		in.undo = append(in.undo, undoRec{p: p, old: *p})
	}
	*p = v
}
func (in *Interp) logFn(f func()) {
	if in.logging {
		in.undo = append(in.undo, undoRec{fn: f})
	}
}
func (in *Interp) rollback(mark int) {
	for i := len(in.undo) - 1; i >= mark; i-- {
		r := in.undo[i]
		if r.fn != nil {
			r.fn()
		} else {
			*r.p = r.old
		}
		in.undo[i] = undoRec{}
	}
	in.undo = in.undo[:mark]
}

func (in *Interp) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case unsafePtr:
		return in.load(p.v)
	}
	unsupported("load through %T", p)
	return nil
}

// storeInto writes v at p keeping addressable sub-cells' identity.
func (in *Interp) store(p Value, v Value, t types.Type) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.spec > 0 {
			in.guardedStore(p, v, t)
			return
		}
		in.assign(p, v)
		return
	case *SymAddr:
		for i := range p.arr {
			c := in.ctx.Eq(p.idx, in.ctx.BV(uint64(i), p.idx.w))
			if c.isFalse() {
				continue
			}
			nv, ok := in.iteT(c, v, p.arr[i], t)
			if !ok {
				unsupported("symbolic-index store of %T", v)
			}
			if in.spec > 0 {
				in.guardedStore(&p.arr[i], nv, t)
			} else {
				in.set(&p.arr[i], nv)
			}
		}
		return
	case unsafePtr:
		in.store(p.v, v, t)
		return
	}
	unsupported("store through %T", p)
}

// assign stores aggregates element-wise so that pointers to fields/elements stay valid.
func (in *Interp) assign(p *Value, v Value) {
	switch v := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(v) {
			for i := range v {
				in.assign(&old[i], v[i])
			}
			return
		}
		in.set(p, copyVal(v))
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(v) {
			for i := range v {
				in.assign(&old[i], v[i])
			}
			return
		}
		in.set(p, copyVal(v))
	default:
		in.set(p, v)
	}
}

func (in *Interp) guardedStore(p *Value, v Value, t types.Type) {
	nv, ok := in.iteT(in.guard, v, *p, t)
	if !ok {
		panic(specAbort{"store"})
	}
	in.assign(p, nv)
}

// term converts a scalar to a term of width w (0 = bool).
func (in *Interp) term(v Value, w int) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return in.ctx.BV(v, w)
	case bool:
		return in.ctx.Bool(v)
	}
	if o, ok := v.(*Opaque); ok {
		unsupported("use of opaque value (%s)", o.why)
	}
	unsupported("term of %T", v)
	return nil
}

// simp converts constant terms back to concrete values.
func simp(t *Term) Value {
	if t.op == OConst && t.w >= 0 {
		if t.w == WBool {
			return t.u == 1
		}
		if t.w <= 64 {
			return t.u
		}
	}
	return t
}

// ite merges two values; ok is false if they cannot be merged.
func (in *Interp) ite(c *Term, a, b Value, w int) (Value, bool) {
	switch a := a.(type) {
	case uint64:
		switch b := b.(type) {
		case uint64:
			if a == b {
				return a, true
			}
			if w == 0 {
				return nil, false // width unknown
			}
			return simp(in.ctx.Ite(c, in.ctx.BV(a, w), in.ctx.BV(b, w))), true
		case *Term:
			return simp(in.ctx.Ite(c, in.ctx.BV(a, b.w), b)), true
		}
		return nil, false
	case bool:
		switch b.(type) {
		case bool, *Term:
			return simp(in.ctx.Ite(c, in.ctx.Bool(a), in.term(b, 0))), true
		}
		return nil, false
	case *Term:
		switch b := b.(type) {
		case *Term:
			return simp(in.ctx.Ite(c, a, b)), true
		case uint64:
			return simp(in.ctx.Ite(c, a, in.ctx.BV(b, a.w))), true
		case bool:
			return simp(in.ctx.Ite(c, a, in.ctx.Bool(b))), true
		}
		return nil, false
	case string:
		if bs, ok := b.(string); ok && bs == a {
			return a, true
		}
		return nil, false
	case structure:
		bs, ok := b.(structure)
		if !ok || len(bs) != len(a) {
			return nil, false
		}
		n := make(structure, len(a))
		for i := range a {
			x, ok := in.ite(c, a[i], bs[i], 0)
			if !ok {
				return nil, false
			}
			n[i] = x
		}
		return n, true
	case array:
		bs, ok := b.(array)
		if !ok || len(bs) != len(a) {
			return nil, false
		}
		n := make(array, len(a))
		for i := range a {
			x, ok := in.ite(c, a[i], bs[i], 0)
			if !ok {
				return nil, false
			}
			n[i] = x
		}
		return n, true
	case tuple:
		bs, ok := b.(tuple)
		if !ok || len(bs) != len(a) {
			return nil, false
		}
		n := make(tuple, len(a))
		for i := range a {
			x, ok := in.ite(c, a[i], bs[i], 0)
			if !ok {
				return nil, false
			}
			n[i] = x
		}
		return n, true
	case []Value:
		bs, ok := b.([]Value)
		if ok && len(a) == len(bs) && cap(a) == cap(bs) && (cap(a) == 0 && (a == nil) == (bs == nil) || cap(a) > 0 && &a[:1][0] == &bs[:1][0]) {
			return a, true
		}
		return nil, false
	case iface:
		bi, ok := b.(iface)
		if ok && a.t == nil && bi.t == nil {
			return a, true
		}
		if ok && a.t != nil && bi.t != nil && types.Identical(a.t, bi.t) {
			x, ok := in.ite(c, a.v, bi.v, scalarWidth(a.t))
			if ok {
				return iface{a.t, x}, true
			}
		}
		return nil, false
	case *Value:
		if bp, ok := b.(*Value); ok && a == bp {
			return a, true
		}
		return nil, false
	case float64:
		if bf, ok := b.(float64); ok && a == bf {
			return a, true
		}
		return in.iteFloat(c, a, b), true
	case intFloat:
		return in.iteFloat(c, a, b), true
	case *Opaque:
		return a, true
	case *ssa.Function:
		if bf, ok := b.(*ssa.Function); ok && a == bf {
			return a, true
		}
		return nil, false
	case *MapV:
		if bf, ok := b.(*MapV); ok && a == bf {
			return a, true
		}
		return nil, false
	}
	return nil, false
}

func scalarWidth(t types.Type) int {
	if w, _, ok := intInfo(t); ok {
		return w
	}
	return 0
}

// iteT merges with static type information for widths.
func (in *Interp) iteT(c *Term, a, b Value, t types.Type) (Value, bool) {
	if w := scalarWidth(t); w > 0 {
		return in.ite(c, a, b, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		as, ok1 := a.(structure)
		bs, ok2 := b.(structure)
		if ok1 && ok2 {
			n := make(structure, len(as))
			for i := range as {
				x, ok := in.iteT(c, as[i], bs[i], u.Field(i).Type())
				if !ok {
					return nil, false
				}
				n[i] = x
			}
			return n, true
		}
	case *types.Array:
		as, ok1 := a.(array)
		bs, ok2 := b.(array)
		if ok1 && ok2 {
			n := make(array, len(as))
			for i := range as {
				x, ok := in.iteT(c, as[i], bs[i], u.Elem())
				if !ok {
					return nil, false
				}
				n[i] = x
			}
			return n, true
		}
	case *types.Tuple:
		as, ok1 := a.(tuple)
		bs, ok2 := b.(tuple)
		if ok1 && ok2 {
			n := make(tuple, len(as))
			for i := range as {
				x, ok := in.iteT(c, as[i], bs[i], u.At(i).Type())
				if !ok {
					return nil, false
				}
				n[i] = x
			}
			return n, true
		}
	}
	return in.ite(c, a, b, 0)
}

// selectIdx reads arr[idx] (idx in range) for elements of type t.
func (in *Interp) selectIdx(arr []Value, idx *Term, t types.Type) Value {
	n := len(arr)
	if idx.ub < uint64(n) {
		n = int(idx.ub) + 1
	}
	lo := int(min(idx.lb, uint64(n-1)))
	if w := scalarWidth(t); n <= maxTab && smallIdx(idx) && int(idx.ub) < n && (w > 0 || isBool(t)) {
		tab := make([]uint64, n)
		all := true
		for i := lo; i < n && all; i++ {
			switch x := arr[i].(type) {
			case uint64:
				tab[i] = x
			case bool:
				tab[i] = b2u(x)
			default:
				all = false
			}
		}
		if all {
			return simp(in.ctx.Tab(idx, w, tab))
		}
	}
	r := copyVal(arr[n-1])
	for i := n - 2; i >= lo; i-- {
		c := in.ctx.Eq(idx, in.ctx.BV(uint64(i), idx.w))
		var ok bool
		r, ok = in.iteT(c, arr[i], r, t)
		if !ok {
			if in.spec > 0 {
				panic(specAbort{"select"})
			}
			k := in.concretize(idx, "index")
			return copyVal(arr[k])
		}
	}
	return r
}

func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{"panic"})
	}
	in.raise(iface{t: types.Typ[types.String], v: "runtime error: " + msg}, true, "runtime error: "+msg)
}
func (in *Interp) raise(v Value, rt bool, msg string) {
	if in.spec > 0 {
		panic(specAbort{"panic"})
	}
	if debugPanics {
		fmt.Fprintln(os.Stderr, "target panic:", msg, "\n"+in.trace())
	}
	panic(targetPanic{v: v, runtime: rt, msg: msg, pos: in.where()})
}

// check raises a run-time panic if cond can be false.
func (in *Interp) check(cond *Term, msg string) {
	if cond.isTrue() {
		return
	}
	if !in.branch(cond) {
		in.rtPanic(msg)
	}
}

// ---- function info ----
func (in *Interp) info(fn *ssa.Function) *FnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	name := fn.String()
	fi := &FnInfo{name: name}
	if o := fn.Origin(); o != nil && o != fn {
		if x, ok := intrinsics[o.String()]; ok {
			fi.intr = x
		}
	}
	if x, ok := intrinsics[name]; ok {
		fi.intr = x
	} else if x := prefixIntrinsic(fn, name); x != nil {
		fi.intr = x
	}
	if in.ex.cfg.Abstract[name] && fn.Blocks != nil {
		fi.intr = abstractCall
	}
	if spec := in.ex.cfg.Contract[name]; spec != nil && fn.Blocks != nil {
		fi.intr = func(in *Interp, fn *ssa.Function, args []Value) Value {
			in.noSpec("contract")
			return in.callValue(spec, args)
		}
	}
	if fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		fi.std = !strings.HasPrefix(path, in.prog.mod)
	} else {
		fi.std = !strings.Contains(name, in.prog.mod)
	}
	n := 0
	seenConst := map[*ssa.Const]bool{}
	var vals []ssa.Value
	add := func(v ssa.Value) { vals = append(vals, v); n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.n = n
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if c, ok := (*o).(*ssa.Const); ok && !seenConst[c] {
					if t := c.Type().Underlying(); c.Value != nil && (isBool(t) || isString(t) && c.Value.Kind() == constant.String || isIntT(t)) {
						// constants follow the frame slots
						seenConst[c] = true
						vals = append(vals, c)
						fi.consts = append(fi.consts, in.constVal1(c))
					}
				}
			}
		}
	}
	fi.slots.init(vals)
	in.fns[fn] = fi
	return fi
}

func (fr *frame) get(in *Interp, v ssa.Value) Value {
	if i := fr.info.slots.find(v); i >= 0 {
		if i < len(fr.env) {
			return fr.env[i]
		}
		return fr.info.consts[i-len(fr.env)]
	}
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return in.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	unsupported("get %T %s", v, v.Name())
	return nil
}
func (fr *frame) put(v ssa.Value, x Value) { fr.env[fr.info.slots.find(v)] = x }

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.consts[c]; ok {
		return copyVal(v)
	}
	v := in.constVal1(c)
	in.consts[c] = v
	return copyVal(v)
}
func (in *Interp) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return uint64(i) & maskw(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & maskw(w)
	}
	switch {
	case isBool(t):
		return constant.BoolVal(c.Value)
	case isString(t):
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case isFloat(t):
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return &Opaque{"complex"}
	}
	unsupported("const %s", c)
	return nil
}

func (in *Interp) global(g *ssa.Global) Value {
	if g.Pkg != nil {
		in.ensureInit(g.Pkg)
	}
	p, ok := in.globals[g]
	if !ok {
		v := zero(g.Type().(*types.Pointer).Elem())
		p = &v
		in.globals[g] = p
		if f, ok := globalOverrides[g.String()]; ok {
			*p = f(in, g)
		} else if g.Pkg != nil && skipInit[g.Pkg.Pkg.Path()] && types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
			// sentinel errors of packages whose initialiser does not run
			*p = in.newError(g.String())
		}
	}
	return p
}

// ensureInit runs a package initialiser the first time one of its globals or functions is used.
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if skipInit[path] {
		return
	}
	initFn := pkg.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	saveLog, savePath, saveStack, saveSpec, saveGuard, saveDepth := in.logging, in.path, in.stack, in.spec, in.guard, in.depth
	in.logging = false
	in.spec, in.guard, in.stack = 0, nil, nil
	in.path = &Path{pcSet: map[*Term]bool{}, model: NewModel(), names: map[string]int{}, coverSet: map[string]bool{}, stepLim: 1 << 40, allocLim: 1 << 40, keccak: map[*Value][]Value{}, locks: map[*Value]*lockState{}, onces: map[*Value]bool{}, conc: map[*Term]uint64{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if debugPanics {
					fmt.Fprintf(os.Stderr, "init of %s incomplete: %v\n%s", path, r, in.trace())
				}
				if strings.HasPrefix(path, in.prog.mod) {
					in.ex.note(fmt.Sprintf("package init of %s incomplete: %v", path, r))
				}
			}
		}()
		in.call(initFn, nil, nil)
	}()
	in.logging, in.path, in.stack, in.spec, in.guard, in.depth = saveLog, savePath, saveStack, saveSpec, saveGuard, saveDepth
}

const maxDepth = 600

func (in *Interp) callValue(f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.call(f, args, nil)
	case *closure:
		return in.call(f.fn, args, f.free)
	case func(in *Interp, args []Value) Value:
		return f(in, args)
	}
	unsupported("call of %T", f)
	return nil
}

func (in *Interp) call(fn *ssa.Function, args []Value, free []Value) Value {
	fi := in.info(fn)
	if fi.intr != nil {
		return fi.intr(in, fn, args)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Synthetic != "" && len(in.stack) > 0 {
		// imported package initialisers run lazily
		if in.stack[len(in.stack)-1].fn.Name() == "init" && in.stack[len(in.stack)-1].fn.Pkg != fn.Pkg {
			return nil
		}
	}
	if fn.Blocks == nil {
		unsupported("no body for %s", fi.name)
	}
	if !fi.std && in.path != nil {
		in.newFuncs[fi.name] = true
	}
	if in.depth > maxDepth {
		panic(pathEnd{"limit", "call depth at " + in.where()})
	}
	fr := &frame{fn: fn, info: fi, env: make([]Value, fi.n), free: free}
	// parameters and free variables come first
	n := copy(fr.env, args[:len(fn.Params)])
	copy(fr.env[n:], free[:len(fn.FreeVars)])
	if len(in.stack) > 0 {
		fr.caller = in.stack[len(in.stack)-1]
	}
	in.depth++
	in.stack = append(in.stack, fr)
	d := len(in.stack)
	defer func() {
		// restore on any exit, including host panics
		in.stack = in.stack[:d-1]
		in.depth--
	}()
	fr.block = fn.Blocks[0]
	in.runFrame(fr)
	return fr.result
}

// runFrame runs until return, handling target panics and deferred calls.
func (in *Interp) runFrame(fr *frame) {
	if !fr.info.hasDefer {
		in.runBlocks(fr)
		return
	}
	d := len(in.stack)
	depth := in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.stack = in.stack[:d]
				in.depth = depth
				fr.panicking = &tp
			}
		}()
		in.runBlocks(fr)
	}()
	if fr.panicking != nil {
		in.runDefers(fr)
		if fr.panicking != nil {
			panic(*fr.panicking)
		}
		// recovered: jump to recover block
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.prev = nil
			in.runBlocks(fr)
		} else {
			fr.result = zeroResult(fr.fn)
		}
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		n := len(fr.defers)
		df := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		d := len(in.stack)
		depth := in.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					in.stack = in.stack[:d]
					in.depth = depth
					fr.panicking = &tp
				}
			}()
			if df.bi != nil {
				in.builtin(fr, df.bi, df.args, df.inst)
			} else {
				in.callValue(df.fn, df.args)
			}
		}()
	}
}

func (in *Interp) runBlocks(fr *frame) {
	for {
		next, done := in.execBlock(fr, fr.block, false)
		if done || next == nil {
			return
		}
		fr.prev = fr.block // execBlock updates fr.block when it merges
		fr.block = next
	}
}

// execPhis evaluates the phi nodes of b for control flow arriving from prev.
func (in *Interp) execPhis(fr *frame, b, prev *ssa.BasicBlock) int {
	var vals []Value
	n := 0
	k := -1
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if k < 0 {
			for j, p := range b.Preds {
				if p == prev {
					k = j
					break
				}
			}
		}
		vals = append(vals, fr.get(in, phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.put(b.Instrs[i].(*ssa.Phi), vals[i])
	}
	return n
}

// execBlock runs one block. It returns the successor, or done when the function returned.
func (in *Interp) execBlock(fr *frame, b *ssa.BasicBlock, skipPhis bool) (*ssa.BasicBlock, bool) {
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	if start > 0 && !skipPhis {
		in.execPhis(fr, b, fr.prev)
	}
	for {
		restart := false
		for _, instr := range b.Instrs[start:] {
			fr.cur = instr
			if in.path != nil {
				in.path.steps++
				if in.path.steps > in.path.stepLim {
					in.stepLimit()
				}
			}
			switch instr := instr.(type) {
			case *ssa.If:
				c := fr.get(in, instr.Cond)
				if bb, ok := c.(bool); ok {
					if bb {
						return b.Succs[0], false
					}
					return b.Succs[1], false
				}
				if o, ok := c.(*Opaque); ok {
					// havocked condition (e.g. floating point): both sides are possible
					if in.spec > 0 {
						panic(specAbort{"opaque"})
					}
					in.path.unreal = true
					_ = o
					if in.branch(in.fresh("havoc", WBool)) {
						return b.Succs[0], false
					}
					return b.Succs[1], false
				}
				ct := c.(*Term)
				if v, ok := in.known(ct); ok {
					if v {
						return b.Succs[0], false
					}
					return b.Succs[1], false
				}
				if next, done, ok := in.tryMerge(fr, b, ct); ok {
					if done {
						return nil, true
					}
					// continue at the merge block with phis already set
					b = next
					fr.block = b
					start = 0
					for start < len(b.Instrs) {
						if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
							break
						}
						start++
					}
					restart = true
					break
				}
				if in.branch(ct) {
					return b.Succs[0], false
				}
				return b.Succs[1], false
			case *ssa.Jump:
				return b.Succs[0], false
			case *ssa.Return:
				switch len(instr.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in, instr.Results[0])
				default:
					res := make(tuple, len(instr.Results))
					for i, r := range instr.Results {
						res[i] = fr.get(in, r)
					}
					fr.result = res
				}
				return nil, true
			case *ssa.Panic:
				v := fr.get(in, instr.X)
				in.raise(v, false, in.panicMsg(v))
			default:
				in.exec(fr, instr)
			}
			if restart {
				break
			}
		}
		if !restart {
			unsupported("block without terminator")
		}
	}
}

func (in *Interp) panicMsg(v Value) string {
	i, ok := v.(iface)
	if !ok {
		return showVal(v)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	return "value of type " + i.t.String()
}

func (in *Interp) stepLimit() {
	if in.spec > 0 {
		panic(specAbort{"steps"})
	}
	if in.ex.cfg.Hang {
		in.violation("hang", "no progress: step limit reached", in.where(), nil)
		panic(pathEnd{"violation", "hang"})
	}
	panic(pathEnd{"limit", "step limit at " + in.where()})
}

func (in *Interp) exec(fr *frame, instr ssa.Instruction) {
	switch instr := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.put(instr, in.unop(fr, instr, fr.get(in, instr.X)))
	case *ssa.BinOp:
		fr.put(instr, in.binop(instr.Op, instr.X.Type(), fr.get(in, instr.X), fr.get(in, instr.Y), instr.Y.Type()))
	case *ssa.Call:
		fr.put(instr, in.callCommon(fr, &instr.Call, instr))
	case *ssa.ChangeInterface:
		fr.put(instr, fr.get(in, instr.X))
	case *ssa.ChangeType:
		fr.put(instr, fr.get(in, instr.X))
	case *ssa.Convert:
		fr.put(instr, in.conv(instr.Type(), instr.X.Type(), fr.get(in, instr.X)))
	case *ssa.MultiConvert:
		fr.put(instr, in.conv(instr.Type(), instr.X.Type(), fr.get(in, instr.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in, instr.X).([]Value)
		at := instr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		if n > len(s) {
			in.rtPanic("cannot convert slice to array pointer: length")
		}
		// aliasing view: array shares backing
		var v Value = array(s[:n:n])
		fr.put(instr, &v)
	case *ssa.MakeInterface:
		fr.put(instr, iface{t: instr.X.Type(), v: fr.get(in, instr.X)})
	case *ssa.Extract:
		fr.put(instr, fr.get(in, instr.Tuple).(tuple)[instr.Index])
	case *ssa.Slice:
		fr.put(instr, in.slice3(fr, instr))
	case *ssa.Alloc:
		v := zero(instr.Type().Underlying().(*types.Pointer).Elem())
		if instr.Heap {
			fr.put(instr, &v)
		} else {
			// stack slot: fresh per execution is equivalent because SSA re-zeroes it
			fr.put(instr, &v)
		}
	case *ssa.MakeSlice:
		fr.put(instr, in.makeSlice(instr.Type(), fr.get(in, instr.Len), fr.get(in, instr.Cap), instr.Len.Type()))
	case *ssa.MakeMap:
		mt := instr.Type().Underlying().(*types.Map)
		fr.put(instr, newMap(mt.Key(), mt.Elem()))
	case *ssa.MakeChan:
		n, _ := fr.get(in, instr.Size).(uint64)
		fr.put(instr, &chanV{cap: int(n)})
	case *ssa.MakeClosure:
		cl := &closure{fn: instr.Fn.(*ssa.Function)}
		for _, b := range instr.Bindings {
			cl.free = append(cl.free, fr.get(in, b))
		}
		fr.put(instr, cl)
	case *ssa.FieldAddr:
		p := fr.get(in, instr.X)
		if u, ok := p.(unsafePtr); ok {
			p = u.v
		}
		pv, ok := p.(*Value)
		if !ok {
			unsupported("fieldaddr of %T", p)
		}
		if pv == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*pv).(structure)
		if !ok {
			unsupported("fieldaddr on %T", *pv)
		}
		fr.put(instr, &st[instr.Field])
	case *ssa.Field:
		fr.put(instr, copyVal(fr.get(in, instr.X).(structure)[instr.Field]))
	case *ssa.IndexAddr:
		fr.put(instr, in.indexAddr(fr, instr))
	case *ssa.Index:
		x := fr.get(in, instr.X)
		idx := fr.get(in, instr.Index)
		switch x := x.(type) {
		case array:
			fr.put(instr, in.indexVal([]Value(x), idx, instr.Index.Type(), instr.Type()))
		case string:
			fr.put(instr, in.indexVal(strBytes(x), idx, instr.Index.Type(), types.Typ[types.Uint8]))
		case *SymStr:
			fr.put(instr, in.indexVal(x.b, idx, instr.Index.Type(), types.Typ[types.Uint8]))
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(in, instr.X)
		k := fr.get(in, instr.Index)
		switch x := x.(type) {
		case string:
			fr.put(instr, in.indexVal(strBytes(x), k, instr.Index.Type(), types.Typ[types.Uint8]))
		case *SymStr:
			fr.put(instr, in.indexVal(x.b, k, instr.Index.Type(), types.Typ[types.Uint8]))
		case *MapV:
			mt := instr.X.Type().Underlying().(*types.Map)
			if kt, isT := k.(*Term); isT {
				if v, found, ok := in.mapSelect(x, kt, mt); ok {
					if instr.CommaOk {
						fr.put(instr, tuple{v, found})
					} else {
						fr.put(instr, v)
					}
					return
				}
			}
			v, ok := in.mapGet(x, k, mt.Key())
			if !ok {
				v = zero(mt.Elem())
			}
			if instr.CommaOk {
				fr.put(instr, tuple{copyVal(v), ok})
			} else {
				fr.put(instr, copyVal(v))
			}
		default:
			unsupported("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(in, instr.Map).(*MapV)
		mt := instr.Map.Type().Underlying().(*types.Map)
		in.mapSet(m, fr.get(in, instr.Key), fr.get(in, instr.Value), mt.Key())
	case *ssa.Range:
		x := fr.get(in, instr.X)
		fr.put(instr, in.rangeIter(x))
	case *ssa.Next:
		it := fr.get(in, instr.Iter).(*iter)
		fr.put(instr, in.next(it, instr.IsString))
	case *ssa.TypeAssert:
		fr.put(instr, in.typeAssert(instr, fr.get(in, instr.X).(iface)))
	case *ssa.Store:
		in.store(fr.get(in, instr.Addr), fr.get(in, instr.Val), instr.Val.Type())
	case *ssa.Defer:
		if in.spec > 0 {
			panic(specAbort{"defer"})
		}
		fn, args, bi := in.prepareCall(fr, &instr.Call)
		fr.defers = append(fr.defers, &deferred{fn: fn, args: args, bi: bi, inst: instr})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			in.runDefers(fr)
			if fr.panicking != nil {
				p := *fr.panicking
				fr.panicking = nil
				panic(p)
			}
		}
	case *ssa.Go:
		in.goStmt(fr, instr)
	case *ssa.Send:
		in.chanSend(fr.get(in, instr.Chan), fr.get(in, instr.X))
	case *ssa.Select:
		in.selectStmt(fr, instr)
	default:
		unsupported("instruction %T", instr)
	}
}

func strBytes(s string) []Value {
	b := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = uint64(s[i])
	}
	return b
}

// mkStr builds a string value from byte values, concrete if possible.
func mkStr(b []Value) Value {
	bs := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			c := make([]Value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
		bs[i] = byte(u)
	}
	return string(bs)
}
func bytesOf(v Value) []Value {
	switch v := v.(type) {
	case string:
		return strBytes(v)
	case *SymStr:
		return v.b
	case []Value:
		return v
	case array:
		return []Value(v)
	}
	unsupported("bytesOf %T", v)
	return nil
}

func (in *Interp) idxTerm(idx Value, t types.Type) (*Term, uint64, bool) {
	switch i := idx.(type) {
	case uint64:
		w, signed, _ := intInfo(t)
		if signed {
			return nil, uint64(sx(i, w)), false
		}
		return nil, i, false
	case *Term:
		w, signed, _ := intInfo(t)
		_ = w
		if i.w < 64 {
			if signed {
				return in.ctx.Sext(i, 64), 0, true
			}
			return in.ctx.Zext(i, 64), 0, true
		}
		return i, 0, true
	}
	unsupported("index %T", idx)
	return nil, 0, false
}

func (in *Interp) indexVal(arr []Value, idx Value, t types.Type, et types.Type) Value {
	it, c, sym := in.idxTerm(idx, t)
	if !sym {
		if c >= uint64(len(arr)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(c), len(arr)))
		}
		return copyVal(arr[c])
	}
	in.check(in.ctx.Ult(it, in.ctx.BV(uint64(len(arr)), 64)), fmt.Sprintf("index out of range with length %d", len(arr)))
	if len(arr) > 300 {
		return copyVal(arr[in.concretize(it, "index")])
	}
	return in.selectIdx(arr, it, et)
}

func (in *Interp) indexAddr(fr *frame, instr *ssa.IndexAddr) Value {
	x := fr.get(in, instr.X)
	idx := fr.get(in, instr.Index)
	var arr []Value
	switch x := x.(type) {
	case []Value:
		arr = x
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			unsupported("indexaddr on %T", *x)
		}
		arr = []Value(a)
	default:
		unsupported("indexaddr of %T", x)
	}
	it, c, sym := in.idxTerm(idx, instr.Index.Type())
	if !sym {
		if c >= uint64(len(arr)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(c), len(arr)))
		}
		return &arr[c]
	}
	in.check(in.ctx.Ult(it, in.ctx.BV(uint64(len(arr)), 64)), fmt.Sprintf("index out of range with length %d", len(arr)))
	et := instr.Type().Underlying().(*types.Pointer).Elem()
	if w := scalarWidth(et); (w > 0 || isBool(et)) && len(arr) <= 300 {
		return &SymAddr{arr: arr, idx: it}
	}
	return &arr[in.concretize(it, "index")]
}

// makeSlice checks Go's run-time limits, the allocation budget, and enumerates symbolic lengths.
func (in *Interp) makeSlice(t types.Type, l, c Value, lt types.Type) Value {
	et := t.Underlying().(*types.Slice).Elem()
	esz := max(sizes.Sizeof(et), 1)
	n := in.allocLen(l, esz, lt)
	k := n
	if ci, ok := c.(uint64); ok {
		k = int(int64(ci))
		if k < n {
			in.rtPanic("makeslice: cap out of range")
		}
		if k > n {
			in.charge(int64(k) * esz)
		}
	} else if c != l {
		k = in.allocLen(c, esz, lt)
		if k < n {
			in.rtPanic("makeslice: cap out of range")
		}
	}
	s := make([]Value, k)
	z := zero(et)
	for i := range s {
		s[i] = copyVal(z)
	}
	return s[:n]
}

func (in *Interp) charge(bytes int64) {
	if in.spec > 0 && bytes > 1<<16 {
		panic(specAbort{"alloc"})
	}
	p := in.path
	p.alloc += bytes
	if bytes > 1<<28 {
		panic(pathEnd{"limit", "huge concrete allocation at " + in.where()})
	}
}

const maxAlloc = 1 << 47

func (in *Interp) allocLen(l Value, esz int64, lt types.Type) int {
	w, signed, _ := intInfo(lt)
	switch l := l.(type) {
	case uint64:
		n := int64(l)
		if signed {
			n = sx(l, w)
		}
		if n < 0 || n > maxAlloc/esz {
			in.rtPanic("makeslice: len out of range")
		}
		if n*esz > in.path.allocLim {
			in.allocViolation(nil, esz)
		}
		in.charge(n * esz)
		return int(n)
	case *Term:
		t := l
		if t.w < 64 {
			if signed {
				t = in.ctx.Sext(t, 64)
			} else {
				t = in.ctx.Zext(t, 64)
			}
		}
		lim := uint64(maxAlloc / esz)
		in.check(in.ctx.Ule(t, in.ctx.BV(lim, 64)), "makeslice: len out of range")
		al := uint64(in.path.allocLim / esz)
		if !in.branch(in.ctx.Ule(t, in.ctx.BV(al, 64))) {
			in.allocViolation(t, esz)
		}
		if al > 1<<16 && !in.branch(in.ctx.Ule(t, in.ctx.BV(1<<16, 64))) {
			// one length is as good as another up there, and each costs memory
			panic(pathEnd{"limit", "huge symbolic allocation at " + in.where()})
		}
		n := in.concretize(t, "make length")
		in.charge(int64(n) * esz)
		return int(n)
	}
	unsupported("make length %T", l)
	return 0
}

func (in *Interp) allocViolation(t *Term, esz int64) {
	if in.spec > 0 {
		panic(specAbort{"alloc"})
	}
	if t != nil {
		// prefer a request that the native replay can show without exhausting memory
		for _, r := range [][2]int64{{1 << 28, 1 << 30}, {1 << 26, 1 << 31}, {1 << 24, 1 << 40}} {
			c := in.ctx.And(in.ctx.Ule(in.ctx.BV(uint64(r[0]/esz), 64), t), in.ctx.Ule(t, in.ctx.BV(uint64(r[1]/esz), 64)))
			res, m := in.solve(append(in.slice(c), c), in.path.model, false)
			if res == Sat {
				in.path.model = m
				in.addPC(c)
				break
			}
		}
	}
	in.violation("alloc", "allocation out of proportion to the input", in.where(), nil)
	panic(pathEnd{"violation", "alloc"})
}

var sizes = types.SizesFor("gc", "amd64")

func (in *Interp) slice3(fr *frame, instr *ssa.Slice) Value {
	x := fr.get(in, instr.X)
	var lo, hi, mx Value
	if instr.Low != nil {
		lo = fr.get(in, instr.Low)
	}
	if instr.High != nil {
		hi = fr.get(in, instr.High)
	}
	if instr.Max != nil {
		mx = fr.get(in, instr.Max)
	}
	var l, c int
	var arr []Value
	str := false
	switch x := x.(type) {
	case []Value:
		l, c = len(x), cap(x)
		arr = x
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			unsupported("slice of %T", *x)
		}
		arr = []Value(a)
		l, c = len(a), len(a)
		arr = arr[:l:l]
	case string, *SymStr:
		arr = bytesOf(x)
		l, c = len(arr), len(arr)
		str = true
	default:
		unsupported("slice of %T", x)
	}
	bound := func(v Value, def int, t ssa.Value, limit int, what string) int {
		if v == nil {
			return def
		}
		it, cv, sym := in.idxTerm(v, t.Type())
		if sym {
			in.check(in.ctx.Ule(it, in.ctx.BV(uint64(limit), 64)), "slice bounds out of range "+what)
			return int(in.concretize(it, "slice bound"))
		}
		if cv > uint64(limit) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%s%d] with capacity %d", what, int64(cv), limit))
		}
		return int(cv)
	}
	m := bound(mx, c, instr.Max, c, "::")
	hiLimit := m
	if str {
		hiLimit = l
	}
	h := bound(hi, l, instr.High, hiLimit, ":")
	if h > hiLimit {
		in.rtPanic("slice bounds out of range")
	}
	lw := bound(lo, 0, instr.Low, h, "")
	if str {
		if s, ok := x.(string); ok {
			return s[lw:h]
		}
		return mkStr(arr[lw:h])
	}
	if arr == nil {
		return []Value(nil)
	}
	return arr[lw:h:m]
}

func (in *Interp) unop(fr *frame, instr *ssa.UnOp, x Value) Value {
	switch instr.Op {
	case token.MUL:
		if sa, ok := x.(*SymAddr); ok {
			return in.selectIdx(sa.arr, sa.idx, instr.Type())
		}
		return in.load(x)
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		if o, ok := x.(*Opaque); ok {
			return o
		}
		return simp(in.ctx.Not(x.(*Term)))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		if o, ok := x.(*Opaque); ok {
			return o
		}
		if _, ok := x.(intFloat); ok {
			return in.floatOp(token.SUB, float64(0), x)
		}
		w, _, _ := intInfo(instr.Type())
		if u, ok := x.(uint64); ok {
			return -u & maskw(w)
		}
		return simp(in.ctx.Neg(x.(*Term)))
	case token.XOR:
		w, _, _ := intInfo(instr.Type())
		if u, ok := x.(uint64); ok {
			return ^u & maskw(w)
		}
		return simp(in.ctx.BNot(x.(*Term)))
	case token.ARROW:
		return in.chanRecv(x, instr.CommaOk, instr.X.Type())
	}
	unsupported("unop %s", instr.Op)
	return nil
}

func (in *Interp) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	if w, signed, ok := intInfo(t); ok {
		if _, ok := x.(*Opaque); ok {
			unsupported("arithmetic on opaque integer")
		}
		cx, okx := x.(uint64)
		cy, oky := y.(uint64)
		if op == token.SHL || op == token.SHR {
			return in.shift(op, w, signed, x, y, yt)
		}
		if okx && oky {
			m := maskw(w)
			switch op {
			case token.ADD:
				return (cx + cy) & m
			case token.SUB:
				return (cx - cy) & m
			case token.MUL:
				return (cx * cy) & m
			case token.QUO, token.REM:
				if cy == 0 {
					in.rtPanic("integer divide by zero")
				}
				if signed {
					a, b := sx(cx, w), sx(cy, w)
					if b == -1 {
						if op == token.QUO {
							return uint64(-a) & m
						}
						return uint64(0)
					}
					if op == token.QUO {
						return uint64(a/b) & m
					}
					return uint64(a%b) & m
				}
				if op == token.QUO {
					return cx / cy
				}
				return cx % cy
			case token.AND:
				return cx & cy
			case token.OR:
				return cx | cy
			case token.XOR:
				return cx ^ cy
			case token.AND_NOT:
				return cx &^ cy
			case token.EQL:
				return cx == cy
			case token.NEQ:
				return cx != cy
			case token.LSS:
				if signed {
					return sx(cx, w) < sx(cy, w)
				}
				return cx < cy
			case token.LEQ:
				if signed {
					return sx(cx, w) <= sx(cy, w)
				}
				return cx <= cy
			case token.GTR:
				if signed {
					return sx(cx, w) > sx(cy, w)
				}
				return cx > cy
			case token.GEQ:
				if signed {
					return sx(cx, w) >= sx(cy, w)
				}
				return cx >= cy
			}
			unsupported("int op %s", op)
		}
		a, b := in.term(x, w), in.term(y, w)
		c := in.ctx
		switch op {
		case token.ADD:
			return simp(c.Add(a, b))
		case token.SUB:
			return simp(c.Sub(a, b))
		case token.MUL:
			return simp(c.Mul(a, b))
		case token.QUO, token.REM:
			in.check(c.Not(c.Eq(b, c.BV(0, w))), "integer divide by zero")
			o := OUdiv
			switch {
			case signed && op == token.QUO:
				o = OSdiv
			case signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return simp(c.Div(o, a, b))
		case token.AND:
			return simp(c.Bitw(OBAnd, a, b))
		case token.OR:
			return simp(c.Bitw(OBOr, a, b))
		case token.XOR:
			return simp(c.Bitw(OBXor, a, b))
		case token.AND_NOT:
			return simp(c.Bitw(OBAnd, a, c.BNot(b)))
		case token.EQL:
			return simp(c.Eq(a, b))
		case token.NEQ:
			return simp(c.Not(c.Eq(a, b)))
		case token.LSS:
			if signed {
				return simp(c.Slt(a, b))
			}
			return simp(c.Ult(a, b))
		case token.LEQ:
			if signed {
				return simp(c.Sle(a, b))
			}
			return simp(c.Ule(a, b))
		case token.GTR:
			if signed {
				return simp(c.Slt(b, a))
			}
			return simp(c.Ult(b, a))
		case token.GEQ:
			if signed {
				return simp(c.Sle(b, a))
			}
			return simp(c.Ule(b, a))
		}
		unsupported("int op %s", op)
	}
	switch op {
	case token.EQL:
		return simpB(in.equal(t, x, y))
	case token.NEQ:
		r := in.equal(t, x, y)
		if o, ok := r.(*Opaque); ok {
			return o
		}
		return simp(in.ctx.Not(in.term(r, 0)))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			xs, okx := x.(string)
			ys, oky := y.(string)
			if okx && oky {
				return xs + ys
			}
			return mkStr(append(append([]Value(nil), bytesOf(x)...), bytesOf(y)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c := in.cmpBytes(bytesOf(x), bytesOf(y))
			switch op {
			case token.LSS:
				return simp(c.lt)
			case token.LEQ:
				return simp(in.ctx.Or(c.lt, c.eq))
			case token.GTR:
				return simp(in.ctx.Not(in.ctx.Or(c.lt, c.eq)))
			default:
				return simp(in.ctx.Not(c.lt))
			}
		}
	}
	if isFloat(t) {
		fx, okx := x.(float64)
		fy, oky := y.(float64)
		if !okx || !oky {
			return in.floatOp(op, x, y)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			fx, fy = float64(float32(fx)), float64(float32(fy))
		}
		switch op {
		case token.ADD:
			return fx + fy
		case token.SUB:
			return fx - fy
		case token.MUL:
			return fx * fy
		case token.QUO:
			return fx / fy
		case token.LSS:
			return fx < fy
		case token.LEQ:
			return fx <= fy
		case token.GTR:
			return fx > fy
		case token.GEQ:
			return fx >= fy
		}
	}
	unsupported("binop %s on %s", op, t)
	return nil
}

func simpB(v Value) Value {
	if t, ok := v.(*Term); ok {
		return simp(t)
	}
	return v
}

type cmpRes struct{ lt, eq *Term }

func (in *Interp) cmpBytes(a, b []Value) cmpRes {
	c := in.ctx
	n := min(len(a), len(b))
	lt := c.Bool(len(a) < len(b))
	eq := c.Bool(len(a) == len(b))
	if n > 0 {
		// compare the common prefix as one wide big-endian number
		at, bt := make([]*Term, n), make([]*Term, n)
		for i := 0; i < n; i++ {
			at[i], bt[i] = in.term(a[i], 8), in.term(b[i], 8)
		}
		A, B := c.Concat(at...), c.Concat(bt...)
		peq := c.Eq(A, B)
		lt = c.Or(c.Ult(A, B), c.And(peq, lt))
		eq = c.And(peq, eq)
	}
	return cmpRes{lt, eq}
}

func (in *Interp) shift(op token.Token, w int, signed bool, x, y Value, yt types.Type) Value {
	yw, ysigned, _ := intInfo(yt)
	if cy, ok := y.(uint64); ok {
		if ysigned && sx(cy, yw) < 0 {
			in.rtPanic("negative shift amount")
		}
		if cx, ok := x.(uint64); ok {
			if op == token.SHL {
				if cy >= 64 {
					return uint64(0)
				}
				return cx << cy & maskw(w)
			}
			if signed {
				if cy >= 64 {
					cy = 63
				}
				return uint64(sx(cx, w)>>cy) & maskw(w)
			}
			if cy >= 64 {
				return uint64(0)
			}
			return cx >> cy
		}
		k := int(min(cy, uint64(w)))
		t := x.(*Term)
		if op == token.SHL {
			return simp(in.ctx.ShlC(t, k))
		}
		if signed {
			return simp(in.ctx.AshrC(t, k))
		}
		return simp(in.ctx.LshrC(t, k))
	}
	yv := y.(*Term)
	if ysigned {
		in.check(in.ctx.Sle(in.ctx.BV(0, yw), yv), "negative shift amount")
	}
	c := in.ctx
	xt := in.term(x, w)
	// bring the amount to width w, saturating
	var amt *Term
	if yw > w {
		big := c.Not(c.Ult(yv, c.BV(uint64(w), yw)))
		amt = c.Ite(big, c.BV(uint64(w), w), c.Extract(yv, w-1, 0))
		if uint64(w) > maskw(w) {
			unsupported("shift width")
		}
	} else {
		amt = c.Zext(yv, w)
	}
	switch {
	case op == token.SHL:
		return simp(c.Shift(OShl, xt, amt))
	case signed:
		return simp(c.Shift(OAshr, xt, amt))
	default:
		return simp(c.Shift(OLshr, xt, amt))
	}
}

// equal returns bool or *Term (Bool).
func (in *Interp) equal(t types.Type, x, y Value) Value {
	c := in.ctx
	switch x := x.(type) {
	case uint64, bool, *Term:
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				return a == b
			}
			if b, ok := y.(*Term); ok {
				return c.Eq(c.BV(a, b.w), b)
			}
		}
		if a, ok := x.(bool); ok {
			if b, ok := y.(bool); ok {
				return a == b
			}
			return c.Eq(c.Bool(a), in.term(y, 0))
		}
		a := x.(*Term)
		if a.w == WBool {
			return c.Eq(a, in.term(y, 0))
		}
		return c.Eq(a, in.term(y, a.w))
	case string, *SymStr:
		a, b := bytesOf(x), bytesOf(y)
		if len(a) != len(b) {
			return false
		}
		if xs, ok := x.(string); ok {
			if ys, ok := y.(string); ok {
				return xs == ys
			}
		}
		return simp(in.eqBytes(a, b))
	case float64:
		if b, ok := y.(float64); ok {
			return x == b
		}
		return in.floatOp(token.EQL, x, y)
	case intFloat:
		return in.floatOp(token.EQL, x, y)
	case *Opaque:
		return x
	case structure:
		st := t.Underlying().(*types.Struct)
		ys := y.(structure)
		r := c.T
		for i := range x {
			e := in.equal(st.Field(i).Type(), x[i], ys[i])
			r = c.And(r, in.term(e, 0))
		}
		return simp(r)
	case array:
		at := t.Underlying().(*types.Array)
		ys := y.(array)
		if w := scalarWidth(at.Elem()); w == 8 {
			return simp(in.eqBytes([]Value(x), []Value(ys)))
		}
		r := c.T
		for i := range x {
			e := in.equal(at.Elem(), x[i], ys[i])
			r = c.And(r, in.term(e, 0))
		}
		return simp(r)
	case iface:
		yi, ok := y.(iface)
		if !ok {
			unsupported("iface compare with %T", y)
		}
		if x.t == nil || yi.t == nil {
			return x.t == nil && yi.t == nil
		}
		if !types.Identical(x.t, yi.t) {
			return false
		}
		return in.equal(x.t, x.v, yi.v)
	case *Value:
		switch y := y.(type) {
		case *Value:
			return x == y
		case *SymAddr:
			return false
		}
	case *SymAddr:
		return x == y
	case []Value:
		// only comparison with nil is legal
		yn, _ := y.([]Value)
		return x == nil && yn == nil
	case *MapV:
		yn, _ := y.(*MapV)
		return x == yn
	case *ssa.Function:
		switch yy := y.(type) {
		case *ssa.Function:
			return x == yy
		}
		return false
	case *closure:
		return false
	case *chanV:
		yn, _ := y.(*chanV)
		return x == yn
	case unsafePtr:
		if yu, ok := y.(unsafePtr); ok {
			return x.v == yu.v
		}
	case rtypeV:
		if yr, ok := y.(rtypeV); ok {
			return types.Identical(x.t, yr.t)
		}
		return false
	}
	unsupported("equal on %T / %T", x, y)
	return nil
}

// eqBytes compares two equally long byte sequences.
func (in *Interp) eqBytes(a, b []Value) *Term {
	c := in.ctx
	if len(a) != len(b) {
		return c.F
	}
	if len(a) == 0 {
		return c.T
	}
	concrete := true
	for i := range a {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if x != y {
				return c.F
			}
		} else {
			concrete = false
		}
	}
	if concrete {
		return c.T
	}
	// chunk so that whole 32-byte digests meet as single terms
	at, bt := make([]*Term, len(a)), make([]*Term, len(b))
	for i := range a {
		at[i], bt[i] = in.term(a[i], 8), in.term(b[i], 8)
	}
	return c.Eq(c.Concat(at...), c.Concat(bt...))
}

func (in *Interp) conv(to, from types.Type, x Value) Value {
	tu, fu := to.Underlying(), from.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		unsupported("type parameter conversion")
	}
	if w, _, ok := intInfo(tu); ok {
		if fw, fsigned, ok := intInfo(fu); ok {
			switch x := x.(type) {
			case uint64:
				if fsigned {
					return uint64(sx(x, fw)) & maskw(w)
				}
				return x & maskw(w)
			case *Term:
				if w < fw {
					return simp(in.ctx.Extract(x, w-1, 0))
				}
				if w == fw {
					return x
				}
				if fsigned {
					return simp(in.ctx.Sext(x, w))
				}
				return simp(in.ctx.Zext(x, w))
			}
		}
		if isFloat(fu) {
			if f, ok := x.(float64); ok {
				_, s, _ := intInfo(tu)
				if s {
					return uint64(int64(f)) & maskw(w)
				}
				return uint64(f) & maskw(w)
			}
			if f, ok := x.(intFloat); ok {
				if w == 64 {
					return simp(f.t)
				}
				return simp(in.ctx.Extract(f.t, w-1, 0))
			}
			// havoc: any integer value
			in.path.unreal = true
			return in.fresh("havocint", w)
		}
		if u, ok := x.(unsafePtr); ok {
			_ = u
			return uint64(0xdead0000)
		}
	}
	if isFloat(tu) {
		if fw, fsigned, ok := intInfo(fu); ok {
			if u, ok := x.(uint64); ok {
				if fsigned {
					return float64(sx(u, fw))
				}
				return float64(u)
			}
			if b := tu.(*types.Basic); b.Kind() != types.Float32 {
				return in.intFloat(x.(*Term), fw, fsigned)
			}
			return &Opaque{"int to float"}
		}
		if f, ok := x.(float64); ok {
			if b := tu.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		if _, ok := x.(intFloat); ok && tu.(*types.Basic).Kind() == types.Float32 {
			return &Opaque{"float"}
		}
		return x
	}
	if isString(tu) {
		switch x := x.(type) {
		case string, *SymStr:
			return x
		case []Value:
			st, ok := fu.(*types.Slice)
			if ok {
				if w, _, _ := intInfo(st.Elem()); w == 8 {
					return mkStr(x)
				}
				// []rune
				rs := make([]rune, len(x))
				for i, v := range x {
					u, ok := v.(uint64)
					if !ok {
						unsupported("symbolic rune slice to string")
					}
					rs[i] = rune(int32(u))
				}
				return string(rs)
			}
		case uint64:
			return string(rune(int32(x)))
		case *Term:
			// string(rune): fork ASCII
			t := x
			if t.w > 8 {
				if in.branch(in.ctx.Ult(t, in.ctx.BV(128, t.w))) {
					return &SymStr{[]Value{simp(in.ctx.Extract(t, 7, 0))}}
				}
			} else if in.branch(in.ctx.Ult(t, in.ctx.BV(128, t.w))) {
				return &SymStr{[]Value{simp(in.ctx.Zext(t, 8))}}
			}
			// two-byte UTF-8 for 128..255 sources
			if t.w == 8 || t.ub < 0x800 {
				e := in.ctx.Zext(t, 32)
				b1 := in.ctx.Bitw(OBOr, in.ctx.BV(0xC0, 8), in.ctx.Zext(in.ctx.Extract(e, 10, 6), 8))
				b2 := in.ctx.Bitw(OBOr, in.ctx.BV(0x80, 8), in.ctx.Zext(in.ctx.Extract(e, 5, 0), 8))
				return &SymStr{[]Value{simp(b1), simp(b2)}}
			}
			c := in.concretize(t, "rune")
			return string(rune(int32(c)))
		}
	}
	if st, ok := tu.(*types.Slice); ok {
		switch x.(type) {
		case string, *SymStr:
			if w, _, _ := intInfo(st.Elem()); w == 8 {
				b := bytesOf(x)
				n := make([]Value, len(b))
				copy(n, b)
				in.charge(int64(len(b)))
				return n
			}
			if s, ok := x.(string); ok {
				var out []Value
				for _, r := range s {
					out = append(out, uint64(uint32(r)))
				}
				return out
			}
			// symbolic string to runes: decode via the range iterator
			it := &iter{str: bytesOf(x)}
			var out []Value
			for {
				tp := in.next(it, true).(tuple)
				if b, ok := tp[0].(bool); ok && !b {
					break
				}
				out = append(out, tp[2])
			}
			return out
		}
		return x
	}
	if at, ok := tu.(*types.Array); ok {
		if s, ok := x.([]Value); ok {
			n := int(at.Len())
			if len(s) < n {
				in.rtPanic("cannot convert slice to array: length")
			}
			return copyVal(array(s[:n]))
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := x.(unsafePtr); ok {
			return u
		}
		return unsafePtr{x}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if u, ok := x.(unsafePtr); ok {
			return u.v
		}
		return x
	}
	return x
}

func (in *Interp) typeAssert(instr *ssa.TypeAssert, x iface) Value {
	var ok bool
	var v Value
	if it, isI := instr.AssertedType.Underlying().(*types.Interface); isI {
		v = x
		ok = x.t != nil && in.implements(x.t, it)
		if !ok && instr.CommaOk {
			v = iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, instr.AssertedType)
		if ok {
			v = copyVal(x.v)
		} else if instr.CommaOk {
			v = zero(instr.AssertedType)
		}
	}
	if instr.CommaOk {
		return tuple{v, ok}
	}
	if !ok {
		in.rtPanic(fmt.Sprintf("interface conversion: not %s", instr.AssertedType))
	}
	return v
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (in *Interp) prepareCall(fr *frame, c *ssa.CallCommon) (Value, []Value, *ssa.Builtin) {
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv, ok := fr.get(in, c.Value).(iface)
		if !ok {
			unsupported("invoke on %T", fr.get(in, c.Value))
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.lookupMethod(recv.t, c.Method)
		if fn == nil {
			unsupported("no method %s on %s", c.Method.Name(), recv.t)
		}
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, fr.get(in, a))
		}
		return fn, args, nil
	}
	f := fr.get(in, c.Value)
	for _, a := range c.Args {
		args = append(args, fr.get(in, a))
	}
	if b, ok := f.(*ssa.Builtin); ok {
		return nil, args, b
	}
	return f, args, nil
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) Value {
	if nt, ok := t.(nativeType); ok {
		_ = nt
	}
	fn := in.prog.ssa.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		return nil
	}
	return fn
}

type nativeType interface{ native() }

func (in *Interp) callCommon(fr *frame, c *ssa.CallCommon, instr ssa.Instruction) Value {
	fn, args, bi := in.prepareCall(fr, c)
	if bi != nil {
		return in.builtin(fr, bi, args, instr)
	}
	return in.callValue(fn, args)
}

func (in *Interp) appendVals(s []Value, add []Value, esz int64) []Value {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		if in.spec > 0 {
			panic(specAbort{"append"})
		}
		r := s[:n]
		for i, v := range add {
			in.set(&r[len(s)+i], copyVal(v))
		}
		return r
	}
	nc := cap(s)
	if nc < 256 {
		nc *= 2
	} else {
		nc += nc / 4
	}
	if nc < n {
		nc = n
	}
	if nc < 4 && esz <= 8 {
		nc = 4
		if esz == 1 {
			nc = 8
		}
	}
	in.charge(int64(nc) * esz)
	if in.path.alloc > 1<<31 {
		panic(pathEnd{"limit", "append growth at " + in.where()})
	}
	r := make([]Value, n, nc)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	full := r[:nc]
	if len(add) > 0 {
		for i := n; i < nc; i++ {
			full[i] = zeroLike(add[0])
		}
	}
	return r
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case uint64:
		return uint64(0)
	case bool:
		return false
	case *Term:
		if v.w == WBool {
			return false
		}
		return uint64(0)
	case string, *SymStr:
		return ""
	case structure:
		n := make(structure, len(v))
		for i := range v {
			n[i] = zeroLike(v[i])
		}
		return n
	case array:
		n := make(array, len(v))
		for i := range v {
			n[i] = zeroLike(v[i])
		}
		return n
	case *Value:
		return (*Value)(nil)
	case iface:
		return iface{}
	case []Value:
		return []Value(nil)
	case *MapV:
		return (*MapV)(nil)
	case float64, *Opaque, intFloat:
		return float64(0)
	case *ssa.Function, *closure:
		return (*ssa.Function)(nil)
	case *chanV:
		return (*chanV)(nil)
	}
	return nil
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, instr ssa.Instruction) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case []Value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *Value:
			if x == nil {
				return uint64(0)
			}
			return uint64(len((*x).(array)))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.keys))
		case *chanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(array)))
		case *chanV:
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		esz := int64(8)
		if sl, ok := b.Type().(*types.Signature); ok {
			if st, ok := sl.Params().At(0).Type().Underlying().(*types.Slice); ok {
				esz = max(sizes.Sizeof(st.Elem()), 1)
			}
		}
		switch y := args[1].(type) {
		case []Value:
			add = y
		case string, *SymStr:
			add = bytesOf(y)
		default:
			unsupported("append of %T", y)
		}
		return in.appendVals(s, add, esz)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		default:
			src = bytesOf(y)
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if in.spec > 0 {
				in.guardedStore(&dst[i], tmp[i], b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem())
			} else {
				in.assign(&dst[i], tmp[i])
			}
		}
		return uint64(n)
	case "delete":
		m := args[0].(*MapV)
		in.mapDelete(m, args[1])
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *MapV:
			if m != nil {
				in.mapTouch(m)
				m.keys, m.vals, m.idx, m.sym = nil, nil, map[string]int{}, false
			}
		case []Value:
			for i := range m {
				in.assign(&m[i], zeroLike(m[i]))
			}
		}
		return nil
	case "panic":
		in.raise(args[0], false, in.panicMsg(args[0]))
	case "recover":
		// the deferred function's caller is the panicking frame
		if fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			return p.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "close":
		args[0].(*chanV).closed = true
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, x := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := in.binop(op, t, x, r, t)
			if cb, ok := c.(bool); ok {
				if cb {
					r = x
				}
				continue
			}
			v, ok := in.iteT(in.term(c, 0), x, r, t)
			if !ok {
				unsupported("min/max")
			}
			r = v
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		return mkStr(unsafeSlice(args[0], args[1]))
	case "StringData":
		b := bytesOf(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		return &SliceData{b}
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &SliceData{s[:cap(s)]}
	case "Slice":
		s := unsafeSlice(args[0], args[1])
		return s
	}
	unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

// SliceData models unsafe.SliceData / unsafe.StringData pointers.
type SliceData struct{ s []Value }

func unsafeSlice(p, n Value) []Value {
	k, ok := n.(uint64)
	if !ok {
		unsupported("unsafe slice length")
	}
	switch p := p.(type) {
	case *SliceData:
		return p.s[:k]
	case unsafePtr:
		return unsafeSlice(p.v, n)
	case *Value:
		if p == nil || k == 0 {
			return nil
		}
	}
	unsupported("unsafe slice of %T", p)
	return nil
}

var bigOne = big.NewInt(1)
