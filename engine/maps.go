package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func newMap(kt, vt types.Type) *MapV {
	return &MapV{kt: kt, vt: vt, idx: map[string]int{}}
}

// keyStr renders a concrete key; ok is false if it contains symbolic parts.
func keyStr(v Value) (string, bool) {
	switch v := v.(type) {
	case uint64:
		return fmt.Sprintf("i%d", v), true
	case bool:
		return fmt.Sprintf("b%v", v), true
	case string:
		return "s" + v, true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case array, structure:
		var xs []Value
		if a, ok := v.(array); ok {
			xs = a
		} else {
			xs = v.(structure)
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for _, x := range xs {
			s, ok := keyStr(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := keyStr(v.v)
		return v.t.String() + ":" + s, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *ssa.Function:
		return fmt.Sprintf("fn%p", v), true
	case *chanV:
		return fmt.Sprintf("c%p", v), true
	case rtypeV:
		return "t" + types.TypeString(v.t, nil), true
	}
	return "", false
}

// find returns the index of key k, forking on symbolic equality.
func (in *Interp) mapFind(m *MapV, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	ks, conc := keyStr(k)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i, o := range m.keys {
		if conc {
			if _, oc := keyStr(o); oc {
				continue
			}
		}
		e := in.equal(kt, o, k)
		switch e := e.(type) {
		case bool:
			if e {
				return i
			}
		case *Term:
			if in.branch(e) {
				return i
			}
		default:
			unsupported("map key compare")
		}
	}
	return -1
}

func (in *Interp) mapGet(m *MapV, k Value, kt types.Type) (Value, bool) {
	i := in.mapFind(m, k, kt)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

// mapTouch logs the whole map for rollback.
func (in *Interp) mapTouch(m *MapV) {
	if in.spec > 0 {
		panic(specAbort{"map update"})
	}
	if !in.logging {
		return
	}
	keys := append([]Value(nil), m.keys...)
	vals := append([]Value(nil), m.vals...)
	idx := make(map[string]int, len(m.idx))
	for k, v := range m.idx {
		idx[k] = v
	}
	sym := m.sym
	in.logFn(func() { m.keys, m.vals, m.idx, m.sym = keys, vals, idx, sym })
}

func (in *Interp) mapSet(m *MapV, k, v Value, kt types.Type) {
	if m == nil {
		in.raise(iface{t: types.Typ[types.String], v: "assignment to entry in nil map"}, true, "assignment to entry in nil map")
	}
	i := in.mapFind(m, k, kt)
	if i >= 0 {
		if in.spec > 0 {
			panic(specAbort{"map update"})
		}
		if in.logging {
			old := m.vals[i]
			in.logFn(func() { m.vals[i] = old })
		}
		m.vals[i] = copyVal(v)
		return
	}
	if in.spec > 0 {
		panic(specAbort{"map update"})
	}
	ks, conc := keyStr(k)
	oldSym := m.sym
	if in.logging {
		in.logFn(func() {
			m.keys = m.keys[:len(m.keys)-1]
			m.vals = m.vals[:len(m.vals)-1]
			if conc {
				delete(m.idx, ks)
			}
			m.sym = oldSym
		})
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	if conc {
		m.idx[ks] = len(m.keys) - 1
	} else {
		m.sym = true
	}
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	i := in.mapFind(m, k, m.kt)
	if i < 0 {
		return
	}
	in.mapTouch(m)
	m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]Value(nil), m.vals[:i]...), m.vals[i+1:]...)
	m.idx = map[string]int{}
	m.sym = false
	for j, o := range m.keys {
		if s, ok := keyStr(o); ok {
			m.idx[s] = j
		} else {
			m.sym = true
		}
	}
}

type iter struct {
	m     *MapV
	order []Value // keys in iteration order
	pos   int
	str   []Value
	conc  string
	isStr bool
}

const maxMapPerm = 4

func (in *Interp) rangeIter(x Value) Value {
	switch x := x.(type) {
	case *MapV:
		it := &iter{m: x}
		if x != nil {
			it.order = append(it.order, x.keys...)
			n := len(it.order)
			if n > 1 && !in.ex.cfg.FixedOrder && !in.prog.fixedMapOrder(in) {
				// Go randomises map order: every permutation is possible
				in.path.mapOrd = true
				if n <= maxMapPerm {
					var perm []Value
					rest := append([]Value(nil), it.order...)
					for len(rest) > 1 {
						k := in.choose("maporder", len(rest))
						perm = append(perm, rest[k])
						rest = append(append([]Value(nil), rest[:k]...), rest[k+1:]...)
					}
					it.order = append(perm, rest...)
				} else {
					// larger maps: any entry may come first, the rest in insertion or reverse order
					k := in.choose("maporder", n)
					if in.choose("maprev", 2) == 1 {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							it.order[i], it.order[j] = it.order[j], it.order[i]
						}
					}
					it.order[0], it.order[k] = it.order[k], it.order[0]
				}
			}
		}
		return it
	case string:
		return &iter{isStr: true, str: strBytes(x), conc: x}
	case *SymStr:
		return &iter{isStr: true, str: x.b}
	}
	unsupported("range over %T", x)
	return nil
}

// fixedMapOrder is true while initialising packages (order cannot matter for a correct program
// and forks are impossible there).
func (p *Program) fixedMapOrder(in *Interp) bool {
	for _, fr := range in.stack {
		if fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
			return true
		}
	}
	return false
}

func (in *Interp) next(it *iter, isString bool) Value {
	if it.isStr || isString {
		if it.pos >= len(it.str) {
			return tuple{false, uint64(0), uint64(0)}
		}
		i := it.pos
		b := it.str[i]
		if u, ok := b.(uint64); ok && u < 0x80 {
			it.pos++
			return tuple{true, uint64(i), u}
		}
		if t, ok := b.(*Term); ok {
			if in.branch(in.ctx.Ult(t, in.ctx.BV(0x80, 8))) {
				it.pos++
				return tuple{true, uint64(i), simp(in.ctx.Zext(t, 32))}
			}
		}
		// multi-byte: concretise up to 4 bytes
		var buf []byte
		for j := i; j < len(it.str) && j < i+4; j++ {
			switch y := it.str[j].(type) {
			case uint64:
				buf = append(buf, byte(y))
			case *Term:
				// RuneError shortcut: a non-ASCII lead byte followed by symbolic bytes is enumerated by value
				buf = append(buf, byte(in.concretize(y, "utf8 byte")))
			}
			if utf8.FullRune(buf) {
				break
			}
		}
		r, sz := utf8.DecodeRune(buf)
		it.pos += sz
		return tuple{true, uint64(i), uint64(uint32(r))}
	}
	for it.pos < len(it.order) {
		k := it.order[it.pos]
		it.pos++
		// skip entries deleted during iteration
		for j, o := range it.m.keys {
			if sameKey(o, k) {
				return tuple{true, copyVal(k), copyVal(it.m.vals[j])}
			}
		}
	}
	return tuple{false, nil, nil}
}

func sameKey(a, b Value) bool {
	as, ok1 := keyStr(a)
	bs, ok2 := keyStr(b)
	if ok1 && ok2 {
		return as == bs
	}
	if ok1 != ok2 {
		return false
	}
	return symKeyStr(a) == symKeyStr(b)
}
func symKeyStr(v Value) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", v.id)
	case *SymStr:
		return symKeyStr(array(v.b))
	case array:
		var sb strings.Builder
		for _, x := range v {
			sb.WriteString(symKeyStr(x) + ",")
		}
		return sb.String()
	case structure:
		return symKeyStr(array(v))
	case iface:
		return symKeyStr(v.v)
	}
	s, _ := keyStr(v)
	return s
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- channels and goroutines ----

func (in *Interp) goStmt(fr *frame, instr *ssa.Go) {
	if in.spec > 0 {
		panic(specAbort{"go"})
	}
	// goroutines are outside the sequential model: the spawned call is not executed
	in.ex.note("goroutine not executed at " + in.where())
}

func (in *Interp) chanSend(c Value, v Value) {
	ch := c.(*chanV)
	if in.spec > 0 {
		panic(specAbort{"chan"})
	}
	if ch == nil {
		panic(pathEnd{"unsupported", "send on nil channel"})
	}
	if ch.closed {
		in.raise(iface{t: types.Typ[types.String], v: "send on closed channel"}, true, "send on closed channel")
	}
	old := ch.buf
	in.logFn(func() { ch.buf = old })
	ch.buf = append(append([]Value(nil), ch.buf...), v)
}
func (in *Interp) chanRecv(c Value, commaOk bool, t types.Type) Value {
	ch, _ := c.(*chanV)
	if in.spec > 0 {
		panic(specAbort{"chan"})
	}
	if ch == nil {
		unsupported("receive on nil channel")
	}
	et := t.Underlying().(*types.Chan).Elem()
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		old := ch.buf
		in.logFn(func() { ch.buf = old })
		ch.buf = ch.buf[1:]
		if commaOk {
			return tuple{v, true}
		}
		return v
	}
	if ch.closed {
		if commaOk {
			return tuple{zero(et), false}
		}
		return zero(et)
	}
	unsupported("blocking receive at %s", in.where())
	return nil
}
func (in *Interp) selectStmt(fr *frame, instr *ssa.Select) {
	if in.spec > 0 {
		panic(specAbort{"select"})
	}
	// ready cases in order; default when none is ready
	n := len(instr.States)
	res := make(tuple, 2)
	for _, st := range instr.States {
		if st.Dir == types.RecvOnly {
			res = append(res, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	for i := 0; i < n; i++ {
		st := instr.States[i]
		ch, _ := fr.get(in, st.Chan).(*chanV)
		if ch == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			in.chanSend(ch, fr.get(in, st.Send))
			res[0], res[1] = uint64(i), false
			fr.put(instr, res)
			return
		}
		if len(ch.buf) > 0 || ch.closed {
			tp := in.chanRecv(ch, true, st.Chan.Type()).(tuple)
			res[0], res[1] = uint64(i), tp[1]
			k := 2
			for j := 0; j < i; j++ {
				if instr.States[j].Dir == types.RecvOnly {
					k++
				}
			}
			res[k] = tp[0]
			fr.put(instr, res)
			return
		}
	}
	if !instr.Blocking {
		res[0], res[1] = maskw(64), false
		fr.put(instr, res)
		return
	}
	unsupported("blocking select at %s", in.where())
}

// ---- locks ----
type lockState struct {
	writer  bool
	readers int
	pos     string
}

func (in *Interp) lockOf(p Value) *lockState {
	pv, ok := p.(*Value)
	if !ok || pv == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.spec > 0 {
		panic(specAbort{"lock"})
	}
	l := in.path.locks[pv]
	if l == nil {
		l = &lockState{}
		in.path.locks[pv] = l
	}
	return l
}

func (in *Interp) deadlock(msg string) {
	in.violation("deadlock", msg, in.where(), nil)
	panic(pathEnd{"violation", msg})
}

func (in *Interp) fatal(msg string) {
	in.violation("fatal", msg, in.where(), nil)
	panic(pathEnd{"violation", msg})
}

func (in *Interp) lock(p Value) {
	l := in.lockOf(p)
	if l.writer || l.readers > 0 {
		in.deadlock("lock acquired twice on one path (deadlock)")
	}
	l.writer = true
	l.pos = in.where()
}
func (in *Interp) unlock(p Value) {
	l := in.lockOf(p)
	if !l.writer {
		in.fatal("fatal error: sync: unlock of unlocked mutex")
	}
	l.writer = false
}
func (in *Interp) rlock(p Value) {
	l := in.lockOf(p)
	if l.writer {
		in.deadlock("read lock acquired while write-locked on one path (deadlock)")
	}
	l.readers++
	l.pos = in.where()
}
func (in *Interp) runlock(p Value) {
	l := in.lockOf(p)
	if l.readers == 0 {
		in.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	l.readers--
}

// checkLocksAtEnd reports locks still held when the harness returns.
func (in *Interp) checkLocksAtEnd() {
	for _, l := range in.path.locks {
		if l.writer || l.readers > 0 {
			in.ex.note("lock still held when the harness returned, taken at " + l.pos)
		}
	}
}

// mapSelect looks a symbolic key up in a map with concrete keys and scalar values without forking.
func (in *Interp) mapSelect(m *MapV, k *Term, mt *types.Map) (Value, Value, bool) {
	w := scalarWidth(mt.Elem())
	if m == nil || m.sym || len(m.keys) == 0 || k.w <= 0 || (w == 0 && !isBool(mt.Elem())) {
		return nil, nil, false
	}
	c := in.ctx
	found := c.F
	val := in.term(zero(mt.Elem()), w)
	for i, o := range m.keys {
		u, ok := o.(uint64)
		if !ok {
			return nil, nil, false
		}
		if smallIdx(k) && u > k.ub {
			continue
		}
		switch m.vals[i].(type) {
		case uint64, bool, *Term:
		default:
			return nil, nil, false
		}
		e := c.Eq(k, c.BV(u, k.w))
		found = c.Or(found, e)
		val = c.Ite(e, in.term(m.vals[i], w), val)
	}
	return simp(val), simp(found), true
}
