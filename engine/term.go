package main

// Hash-consed terms over Bool, fixed-width bit vectors and mathematical integers,
// with local simplification chosen so that byte packing/unpacking folds away.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd // boolean, n-ary
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat // args most significant first
	OExtract
	OSext
	OApp    // uninterpreted function
	OKeccak // args are bytes, result 256 bits, byte 0 of the digest is most significant
	// integers
	OIAdd
	OIMul
	OIDiv // floor division
	OIMod // floor modulus
	OILe
	OILt
	OU2I // bit vector to unsigned integer
	OS2I // bit vector to signed integer
	OTab // constant table indexed by a small unsigned term
)

var opNames = [...]string{"const", "var", "not", "and", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "app", "keccak", "+", "*", "div", "mod", "<=", "<", "u2i", "s2i", "tab"}

const (
	WBool = 0
	WInt  = -1
)

type Term struct {
	id     int
	op     Op
	w      int
	args   []*Term
	u      uint64   // constants up to 64 bits (and bools)
	big    *big.Int // wider constants, Int constants
	name   string   // vars, UFs
	hi, lo int      // extract
	h1, h2 uint64   // structural hash
	vs     *VarSet
	lb, ub uint64 // unsigned range for BV w<=64
	ctx    *Ctx
	hasKec bool
	tab    []uint64
	size   int // rough dag size (saturating tree size)
}

// VarSet is an immutable set of var ids.
type VarSet struct{ bits []uint64 }

func (a *VarSet) union(b *VarSet) *VarSet {
	if a == b || b == nil || len(b.bits) == 0 {
		return a
	}
	if a == nil || len(a.bits) == 0 {
		return b
	}
	if len(a.bits) < len(b.bits) {
		a, b = b, a
	}
	sub := true
	for i, x := range b.bits {
		if x&^a.bits[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	n := make([]uint64, len(a.bits))
	copy(n, a.bits)
	for i, x := range b.bits {
		n[i] |= x
	}
	return &VarSet{n}
}
func (a *VarSet) intersects(b *VarSet) bool {
	if a == nil || b == nil {
		return false
	}
	n := len(a.bits)
	if len(b.bits) < n {
		n = len(b.bits)
	}
	for i := 0; i < n; i++ {
		if a.bits[i]&b.bits[i] != 0 {
			return true
		}
	}
	return false
}
func (a *VarSet) empty() bool { return a == nil || len(a.bits) == 0 }

type Ctx struct {
	tab   map[uint64][]*Term
	next  int
	vars  []*Term
	varBy map[string]*Term
	T, F  *Term
	small [65][]*Term
	wide  bool              // keep sums as they are
	uf    *Term             // pseudo variable connecting all uninterpreted applications
	known map[string][]byte // inputs of the digests computed from constants
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}, varBy: map[string]*Term{}, known: map[string][]byte{}}
	c.uf = c.Var("!uf", 8)
	c.T = c.mk(&Term{op: OConst, w: WBool, u: 1})
	c.F = c.mk(&Term{op: OConst, w: WBool, u: 0})
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x
	hi, lo := bits.Mul64(h, 0x9E3779B97F4A7C15)
	return hi ^ lo ^ (h >> 29)
}

func (c *Ctx) mk(t *Term) *Term {
	h1 := mix(uint64(t.op)*1315423911+17, uint64(int64(t.w)))
	h2 := mix(uint64(t.op)*2654435761+91, uint64(int64(t.w))+7)
	h1 = mix(h1, t.u)
	h2 = mix(h2, t.u+0x1234567)
	h1 = mix(h1, uint64(t.hi)<<20|uint64(t.lo))
	h2 = mix(h2, uint64(t.hi)<<21|uint64(t.lo)+5)
	if t.big != nil {
		s := uint64(t.big.Sign() + 3)
		h1 = mix(h1, s)
		for _, w := range t.big.Bits() {
			h1 = mix(h1, uint64(w))
			h2 = mix(h2, uint64(w)+s)
		}
	}
	for i := 0; i < len(t.name); i++ {
		h1 = mix(h1, uint64(t.name[i])+31)
		h2 = mix(h2, uint64(t.name[i])+77)
	}
	for _, a := range t.args {
		h1 = mix(h1, a.h1)
		h2 = mix(h2, a.h2)
	}
	for _, x := range t.tab {
		h1 = mix(h1, x+3)
		h2 = mix(h2, x+9)
	}
	t.h1, t.h2 = h1, h2
	for _, o := range c.tab[h1] {
		if o.h2 == h2 && o.op == t.op && o.w == t.w {
			return o
		}
	}
	t.id = c.next
	c.next++
	t.ctx = c
	t.size = 1
	if t.op == OVar {
		vid := len(c.vars)
		c.vars = append(c.vars, t)
		b := make([]uint64, vid/64+1)
		b[vid/64] = 1 << (vid % 64)
		t.vs = &VarSet{b}
	} else {
		for _, a := range t.args {
			t.vs = t.vs.union(a.vs)
			t.hasKec = t.hasKec || a.hasKec
			t.size += a.size
		}
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if t.op == OKeccak || t.op == OApp {
		t.hasKec = true
		t.vs = t.vs.union(c.uf.vs)
	}
	t.lb, t.ub = c.rangeOf(t)
	c.tab[h1] = append(c.tab[h1], t)
	return t
}

func maskw(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

// rangeOf gives unsigned bounds for BV terms of at most 64 bits.
func (c *Ctx) rangeOf(t *Term) (uint64, uint64) {
	if t.w <= 0 || t.w > 64 {
		return 0, ^uint64(0)
	}
	m := maskw(t.w)
	switch t.op {
	case OConst:
		return t.u, t.u
	case OConcat:
		var l, u uint64
		for _, a := range t.args {
			l = l<<uint(a.w) | a.lb
			u = u<<uint(a.w) | a.ub
		}
		return l, u
	case OExtract:
		a := t.args[0]
		if a.w <= 64 && t.lo == 0 && a.ub <= m {
			return a.lb, a.ub
		}
		if a.w <= 64 && t.hi == a.w-1 {
			return a.lb >> uint(t.lo), a.ub >> uint(t.lo)
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		return min(a.lb, b.lb), max(a.ub, b.ub)
	case OAdd:
		var l, u uint64
		for _, a := range t.args {
			s, carry := bits.Add64(u, a.ub, 0)
			if carry != 0 || s > m {
				return 0, m
			}
			u = s
			l += a.lb
		}
		return l, u
	case OSub:
		a, b := t.args[0], t.args[1]
		if a.lb >= b.ub {
			return a.lb - b.ub, a.ub - b.lb
		}
	case OMul:
		u := uint64(1)
		l := uint64(1)
		for _, a := range t.args {
			hi, lo := bits.Mul64(u, a.ub)
			if hi != 0 || lo > m {
				return 0, m
			}
			u = lo
			l *= a.lb
		}
		return l, u
	case OUdiv:
		a, b := t.args[0], t.args[1]
		if b.lb > 0 {
			return a.lb / b.ub, a.ub / b.lb
		}
	case OUrem:
		a, b := t.args[0], t.args[1]
		if b.lb > 0 {
			return 0, min(a.ub, b.ub-1)
		}
	case OBAnd:
		u := m
		for _, a := range t.args {
			u = min(u, a.ub)
		}
		return 0, u
	case OBOr, OBXor:
		var u, l uint64
		for _, a := range t.args {
			u |= a.ub
			l = max(l, a.lb)
		}
		if t.op == OBXor {
			l = 0
		}
		if n := bits.Len64(u); n < 64 {
			u = uint64(1)<<uint(n) - 1
		} else {
			u = ^uint64(0)
		}
		return l, u
	case OLshr:
		return 0, t.args[0].ub
	case OTab:
		l, u := ^uint64(0), uint64(0)
		for _, x := range t.tab {
			l, u = min(l, x), max(u, x)
		}
		return l, u
	}
	return 0, m
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == WBool && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == WBool && t.u == 0 }

// cbig returns the constant's value as a big integer.
func (t *Term) cbig() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) BV(v uint64, w int) *Term {
	if w > 64 {
		return c.BVBig(new(big.Int).SetUint64(v), w)
	}
	return c.mk(&Term{op: OConst, w: w, u: v & maskw(w)})
}
func (c *Ctx) BVBytes(b []byte) *Term { return c.BVBig(new(big.Int).SetBytes(b), 8*len(b)) }

func (c *Ctx) BVBig(v *big.Int, w int) *Term {
	if w <= 64 {
		m := new(big.Int).And(v, new(big.Int).SetUint64(maskw(w)))
		return c.BV(m.Uint64(), w)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return c.mk(&Term{op: OConst, w: w, big: new(big.Int).Mod(v, m)})
}
func (c *Ctx) Int(v *big.Int) *Term { return c.mk(&Term{op: OConst, w: WInt, big: v}) }
func (c *Ctx) IntI(v int64) *Term   { return c.Int(big.NewInt(v)) }
func (c *Ctx) Var(name string, w int) *Term {
	if t, ok := c.varBy[name]; ok {
		if t.w != w {
			panic("var width clash " + name)
		}
		return t
	}
	t := c.mk(&Term{op: OVar, w: w, name: name})
	c.varBy[name] = t
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.u == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.op == OTab {
		n := make([]uint64, len(a.tab))
		for i, x := range a.tab {
			n[i] = 1 - x
		}
		return c.Tab(a.args[0], WBool, n)
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	case OILe:
		return c.ILt(a.args[1], a.args[0])
	case OILt:
		return c.ILe(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, w: WBool, args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isConst() {
			return x.u == 1
		}
		if x.op == OAnd {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	if m := c.mergeTabs(out); m != nil {
		return c.And(m...)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].h1 != out[j].h1 {
			return out[i].h1 < out[j].h1
		}
		return out[i].h2 < out[j].h2
	})
	return c.mk(&Term{op: OAnd, w: WBool, args: out})
}
func (c *Ctx) Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = c.Not(x)
	}
	return c.Not(c.And(ys...))
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == WBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
		if a == c.Not(b) {
			return c.Eq(cond, a)
		}
	}
	if a.w > 0 && a.w <= 64 {
		if idx := idxOf(cond); idx != nil {
			if ta := c.tabOf(a, idx); ta != nil {
				if tb := c.tabOf(b, idx); tb != nil {
					tc := c.tabOf(cond, idx)
					n := make([]uint64, len(tc))
					for i := range n {
						if tc[i] == 1 {
							n[i] = ta[i]
						} else {
							n[i] = tb[i]
						}
					}
					return c.Tab(idx, a.w, n)
				}
			}
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0].op == OAnd {
		a = c.underCond(a, cond, c.Not(cond))
	}
	if b.op == OIte && b.args[0].op == OAnd {
		b = c.underCond(b, c.Not(cond), cond)
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return c.Ite(c.And(c.Not(cond), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return c.Ite(c.And(cond, a.args[0]), a.args[1], b)
	}
	// common leading zero bits
	if a.w > 0 && (a.op == OConcat || b.op == OConcat) {
		z := min(leadZeros(a), leadZeros(b))
		if z > 0 && z < a.w {
			return c.Concat(c.BV(0, z), c.Ite(cond, c.Extract(a, a.w-1-z, 0), c.Extract(b, b.w-1-z, 0)))
		}
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// underCond simplifies an ite over a conjunction when one conjunct is known to hold or to fail.
func (c *Ctx) underCond(t, holds, fails *Term) *Term {
	for i, x := range t.args[0].args {
		if x == fails {
			return t.args[2]
		}
		if x == holds {
			rest := append(append([]*Term{}, t.args[0].args[:i]...), t.args[0].args[i+1:]...)
			return c.Ite(c.And(rest...), t.args[1], t.args[2])
		}
	}
	return t
}

func leadZeros(t *Term) int {
	if t.op == OTab {
		return t.w - bits.Len64(t.ub)
	}
	if t.op == OConst {
		if t.big != nil {
			return t.w - t.big.BitLen()
		}
		return t.w - bits.Len64(t.u)
	}
	if t.op == OConcat {
		n := 0
		for _, a := range t.args {
			if a.isConst() && a.cbig().Sign() == 0 {
				n += a.w
				continue
			}
			if a.isConst() {
				n += leadZeros(a)
			}
			break
		}
		return n
	}
	return 0
}

func constEq(a, b *Term) bool {
	if a.big != nil || b.big != nil {
		return a.cbig().Cmp(b.cbig()) == 0
	}
	return a.u == b.u
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(constEq(a, b))
	}
	if a.w == WBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	}
	if a.w > 0 {
		if a.w <= 64 && (a.ub < b.lb || b.ub < a.lb) {
			return c.F
		}
		if t := c.lift2(a, b, WBool, func(x, y uint64) uint64 { return b2u(x == y) }); t != nil {
			return t
		}
		if a.op == OKeccak && b.op == OKeccak {
			// collision-freedom assumption
			if len(a.args) != len(b.args) {
				return c.F
			}
			return c.Eq(c.Concat(a.args...), c.Concat(b.args...))
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
			if a.op == OKeccak {
				// collision-freedom assumption
				if in, ok := c.known[string(b.cbig().FillBytes(make([]byte, 32)))]; ok {
					if len(in) != len(a.args) {
						return c.F
					}
					es := make([]*Term, len(in))
					for i := range in {
						es[i] = c.Eq(a.args[i], c.BV(uint64(in[i]), 8))
					}
					return c.And(es...)
				}
			}
			if a.op == OBNot {
				return c.Eq(a.args[0], c.BNot(b))
			}
			if a.op == OAdd && len(a.args) == 2 && a.args[1].isConst() {
				return c.Eq(a.args[0], c.Sub(b, a.args[1]))
			}
			if a.op == OBXor && len(a.args) == 2 && a.args[1].isConst() {
				return c.Eq(a.args[0], c.Bitw(OBXor, b, a.args[1]))
			}
			if a.op == OSext {
				x := a.args[0]
				lowb := c.Extract(b, x.w-1, 0)
				if c.Sext(lowb, a.w) != b {
					return c.F
				}
				return c.Eq(x, lowb)
			}
		}
		if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OConcat || b.op == OConcat {
			var es []*Term
			cuts := cutPoints(a, b)
			hi := a.w - 1
			for _, lo := range cuts {
				es = append(es, c.Eq(c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
				if es[len(es)-1].isFalse() {
					return c.F
				}
				hi = lo - 1
			}
			if len(es) > 1 {
				return c.And(es...)
			}
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
		}
	}
	if a.h1 > b.h1 && !b.isConst() {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, w: WBool, args: []*Term{a, b}})
}

// cutPoints returns descending low-bit positions at which either operand's concat splits; last is 0.
func cutPoints(ts ...*Term) []int {
	m := map[int]bool{0: true}
	for _, t := range ts {
		if t.op == OConcat {
			p := t.w
			for _, a := range t.args {
				p -= a.w
				m[p] = true
			}
		}
	}
	out := make([]int, 0, len(m))
	for p := range m {
		out = append(out, p)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(out)))
	return out
}

func (c *Ctx) Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.w == 0 {
			panic("concat of bool")
		}
		if x.op == OConcat {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isConst() && x.isConst() {
				v := new(big.Int).Lsh(p.cbig(), uint(x.w))
				v.Or(v, x.cbig())
				out[n-1] = c.BVBig(v, p.w+x.w)
				return
			}
			pb, ph, pl := p, p.w-1, 0
			if p.op == OExtract {
				pb, ph, pl = p.args[0], p.hi, p.lo
			}
			xb, xh, xl := x, x.w-1, 0
			if x.op == OExtract {
				xb, xh, xl = x.args[0], x.hi, x.lo
			}
			if pb == xb && pl == xh+1 {
				out[n-1] = c.Extract(pb, ph, xl)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		if x != nil {
			add(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	var idx *Term
	okTab := true
	for _, x := range out {
		w += x.w
		switch {
		case x.op == OTab && (idx == nil || idx == x.args[0]):
			idx = x.args[0]
		case x.isConst():
		default:
			okTab = false
		}
	}
	if okTab && idx != nil && w <= 64 {
		n := make([]uint64, int(idx.ub)+1)
		for _, x := range out {
			tx := c.tabOf(x, idx)
			for i := range n {
				n[i] = n[i]<<uint(x.w) | tx[i]
			}
		}
		return c.Tab(idx, w, n)
	}
	return c.mk(&Term{op: OConcat, w: w, args: out})
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	if lo > hi || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	w := hi - lo + 1
	switch a.op {
	case OTab:
		return c.lift1(a, w, func(x uint64) uint64 { return x >> uint(lo) & maskw(w) })
	case OConst:
		if a.big == nil {
			return c.BV(a.u>>uint(lo), w)
		}
		return c.BVBig(new(big.Int).Rsh(a.big, uint(lo)), w)
	case OExtract:
		return c.Extract(a.args[0], hi+a.lo, lo+a.lo)
	case OConcat:
		p := a.w
		var parts []*Term
		for _, x := range a.args {
			top := p - 1
			p -= x.w
			if top < lo || p > hi {
				continue
			}
			h, l := min(hi, top), max(lo, p)
			parts = append(parts, c.Extract(x, h-p, l-p))
		}
		return c.Concat(parts...)
	case OSext:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
		if lo < x.w {
			return c.Sext(c.Extract(x, x.w-1, lo), w)
		}
		return c.Sext(c.Extract(x, x.w-1, x.w-1), w)
	case OBAnd, OBOr, OBXor:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.Extract(x, hi, lo)
		}
		r := xs[0]
		for _, x := range xs[1:] {
			r = c.Bitw(a.op, r, x)
		}
		return r
	case OBNot:
		return c.BNot(c.Extract(a.args[0], hi, lo))
	case OIte:
		x, y := a.args[1], a.args[2]
		if x.isConst() || y.isConst() || x.op == OConcat || y.op == OConcat {
			return c.Ite(a.args[0], c.Extract(x, hi, lo), c.Extract(y, hi, lo))
		}
	case OAdd, OMul:
		// low bits only depend on low bits
		if lo == 0 && !c.wide {
			xs := make([]*Term, len(a.args))
			for i, x := range a.args {
				xs[i] = c.Extract(x, hi, 0)
			}
			if a.op == OAdd {
				return c.Add(xs...)
			}
			r := xs[0]
			for _, x := range xs[1:] {
				r = c.Mul(r, x)
			}
			return r
		}
	case OSub:
		if lo == 0 && !c.wide {
			return c.Sub(c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	if a.w <= 64 && lo > 0 && bits.Len64(a.ub) <= lo {
		return c.BV(0, w)
	}
	return c.mk(&Term{op: OExtract, w: w, hi: hi, lo: lo, args: []*Term{a}})
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	return c.Concat(c.BV(0, w-a.w), a)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		v := new(big.Int).Set(a.cbig())
		if v.Bit(a.w-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(a.w)))
		}
		return c.BVBig(v, w)
	}
	if leadZeros(a) > 0 || (a.w <= 64 && a.ub <= maskw(a.w-1)) {
		return c.Zext(a, w)
	}
	if a.op == OTab && w <= 64 {
		return c.lift1(a, w, func(x uint64) uint64 { return uint64(sx(x, a.w)) & maskw(w) })
	}
	if a.op == OSext {
		return c.Sext(a.args[0], w)
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{a}})
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.w))
		m.Sub(m, big.NewInt(1))
		return c.BVBig(m.Xor(m, a.cbig()), a.w)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OTab {
		return c.lift1(a, a.w, func(x uint64) uint64 { return ^x & maskw(a.w) })
	}
	if a.op == OConcat {
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.BNot(x)
		}
		return c.Concat(xs...)
	}
	return c.mk(&Term{op: OBNot, w: a.w, args: []*Term{a}})
}

func isZero(t *Term) bool { return t.isConst() && t.cbig().Sign() == 0 }
func isOnes(t *Term) bool {
	if !t.isConst() {
		return false
	}
	if t.big == nil {
		return t.u == maskw(t.w)
	}
	return t.big.BitLen() == t.w && new(big.Int).Add(t.big, big.NewInt(1)).TrailingZeroBits() == uint(t.w)
}

// Bitw builds and/or/xor.
func (c *Ctx) Bitw(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("bitw width")
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		x, y := a.cbig(), b.cbig()
		r := new(big.Int)
		switch op {
		case OBAnd:
			r.And(x, y)
		case OBOr:
			r.Or(x, y)
		default:
			r.Xor(x, y)
		}
		return c.BVBig(r, a.w)
	}
	if a == b {
		if op == OBXor {
			return c.BV(0, a.w)
		}
		return a
	}
	if isZero(b) {
		if op == OBAnd {
			return b
		}
		return a
	}
	if isOnes(b) {
		switch op {
		case OBAnd:
			return a
		case OBOr:
			return b
		default:
			return c.BNot(a)
		}
	}
	if t := c.lift2(a, b, a.w, func(x, y uint64) uint64 {
		switch op {
		case OBAnd:
			return x & y
		case OBOr:
			return x | y
		}
		return x ^ y
	}); t != nil {
		return t
	}
	// split at constant runs / concat boundaries
	var cuts []int
	if b.isConst() {
		v := b.cbig()
		runs := []int{}
		cur := v.Bit(b.w - 1)
		for i := b.w - 2; i >= 0; i-- {
			if v.Bit(i) != cur {
				runs = append(runs, i+1)
				cur = v.Bit(i)
			}
		}
		runs = append(runs, 0)
		if len(runs) <= 9 {
			cuts = runs
			if a.op == OConcat {
				m := map[int]bool{}
				for _, x := range cuts {
					m[x] = true
				}
				for _, x := range cutPoints(a) {
					m[x] = true
				}
				cuts = cuts[:0]
				for x := range m {
					cuts = append(cuts, x)
				}
				sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
			}
		}
	}
	if cuts == nil && (a.op == OConcat || b.op == OConcat) {
		cuts = cutPoints(a, b)
	}
	if len(cuts) > 1 {
		trivial := false
		hi := a.w - 1
		for _, lo := range cuts {
			x, y := c.Extract(a, hi, lo), c.Extract(b, hi, lo)
			if isZero(x) || isZero(y) || isOnes(x) || isOnes(y) || (x.isConst() && y.isConst()) || x == y {
				trivial = true
				break
			}
			hi = lo - 1
		}
		if trivial {
			var parts []*Term
			hi := a.w - 1
			for _, lo := range cuts {
				parts = append(parts, c.Bitw(op, c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
				hi = lo - 1
			}
			return c.Concat(parts...)
		}
	}
	// flatten one level for associativity with constants
	if b.isConst() && a.op == op && len(a.args) == 2 && a.args[1].isConst() {
		return c.Bitw(op, a.args[0], c.Bitw(op, a.args[1], b))
	}
	if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
		if op == OBAnd {
			return c.BV(0, a.w)
		}
		return c.BNot(c.BV(0, a.w))
	}
	if op == OBXor {
		if a.op == OBXor && len(a.args) == 2 {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
		if b.op == OBXor && len(b.args) == 2 {
			if b.args[0] == a {
				return b.args[1]
			}
			if b.args[1] == a {
				return b.args[0]
			}
		}
	}
	if !b.isConst() && a.h1 > b.h1 {
		a, b = b, a
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

// Add builds a canonical sum: linear terms with coefficients collected, constant last.
func (c *Ctx) Add(xs ...*Term) *Term {
	w := xs[0].w
	return c.linear(w, xs, nil)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.w)
	}
	if isZero(b) {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.BVBig(new(big.Int).Sub(a.cbig(), b.cbig()), a.w)
	}
	if b.isConst() {
		return c.Add(a, c.BVBig(new(big.Int).Neg(b.cbig()), a.w))
	}
	// cancel shared summands
	r := c.linear(a.w, []*Term{a}, []*Term{b})
	return r
}

type linItem struct {
	t *Term
	k *big.Int
}

func (c *Ctx) linear(w int, pos, neg []*Term) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	k := new(big.Int)
	items := map[*Term]*big.Int{}
	var order []*Term
	var add func(t *Term, f *big.Int)
	add = func(t *Term, f *big.Int) {
		switch {
		case t.isConst():
			k.Add(k, new(big.Int).Mul(t.cbig(), f))
		case c.wide && t.op != OMul && t.op != ONeg:
			if o, ok := items[t]; ok {
				o.Add(o, f)
			} else {
				items[t] = new(big.Int).Set(f)
				order = append(order, t)
			}
		case t.op == OAdd:
			for _, x := range t.args {
				add(x, f)
			}
		case t.op == OSub:
			add(t.args[0], f)
			add(t.args[1], new(big.Int).Neg(f))
		case t.op == ONeg:
			add(t.args[0], new(big.Int).Neg(f))
		case t.op == OMul && len(t.args) == 2 && t.args[1].isConst():
			add(t.args[0], new(big.Int).Mul(f, t.args[1].cbig()))
		default:
			if o, ok := items[t]; ok {
				o.Add(o, f)
			} else {
				items[t] = new(big.Int).Set(f)
				order = append(order, t)
			}
		}
	}
	one := big.NewInt(1)
	mone := big.NewInt(-1)
	for _, t := range pos {
		add(t, one)
	}
	for _, t := range neg {
		add(t, mone)
	}
	k.Mod(k, m)
	var ps, ns []*Term
	sort.Slice(order, func(i, j int) bool { return order[i].h1 < order[j].h1 })
	half := new(big.Int).Rsh(m, 1)
	for _, t := range order {
		f := new(big.Int).Mod(items[t], m)
		if f.Sign() == 0 {
			continue
		}
		if f.Cmp(one) == 0 {
			ps = append(ps, t)
		} else if f.Cmp(half) > 0 {
			g := new(big.Int).Sub(m, f)
			if g.Cmp(one) == 0 {
				ns = append(ns, t)
			} else {
				ns = append(ns, c.mk(&Term{op: OMul, w: w, args: []*Term{t, c.BVBig(g, w)}}))
			}
		} else {
			ps = append(ps, c.mulConst(t, f))
		}
	}
	sum := func(ts []*Term, k *big.Int) *Term {
		// disjoint bits: use or
		if len(ts) == 0 {
			return c.BVBig(k, w)
		}
		all := append([]*Term(nil), ts...)
		if k.Sign() != 0 {
			all = append(all, c.BVBig(k, w))
		}
		if len(all) == 1 {
			return all[0]
		}
		if len(all) == 2 {
			if t := c.lift2(all[0], all[1], w, func(x, y uint64) uint64 { return (x + y) & maskw(w) }); t != nil {
				return t
			}
		}
		if len(all) <= 40 && disjoint(all) {
			r := all[0]
			for _, x := range all[1:] {
				r = c.Bitw(OBOr, r, x)
			}
			return r
		}
		return c.mk(&Term{op: OAdd, w: w, args: all})
	}
	if len(ns) == 0 {
		return sum(ps, k)
	}
	// keep constants on the positive side
	p := sum(ps, k)
	if len(ps) == 0 && k.Sign() == 0 && len(ns) == 1 {
		return c.mk(&Term{op: ONeg, w: w, args: []*Term{ns[0]}})
	}
	return c.mk(&Term{op: OSub, w: w, args: []*Term{p, sum(ns, new(big.Int))}})
}

func (c *Ctx) mulConst(t *Term, f *big.Int) *Term {
	w := t.w
	if f.Sign() == 0 {
		return c.BV(0, w)
	}
	if f.BitLen() == int(f.TrailingZeroBits())+1 {
		return c.ShlC(t, int(f.TrailingZeroBits()))
	}
	return c.mk(&Term{op: OMul, w: w, args: []*Term{t, c.BVBig(f, w)}})
}

// nonzeroMask over-approximates the bits that can be one (w<=256 only through big ints).
func nonzeroMask(t *Term) *big.Int {
	switch t.op {
	case OConst:
		return t.cbig()
	case OConcat:
		r := new(big.Int)
		for _, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, nonzeroMask(a))
		}
		return r
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
	if t.w <= 64 {
		m.Lsh(big.NewInt(1), uint(bits.Len64(t.ub)))
	}
	return m.Sub(m, big.NewInt(1))
}
func disjoint(ts []*Term) bool {
	acc := new(big.Int)
	for _, t := range ts {
		m := nonzeroMask(t)
		if new(big.Int).And(acc, m).Sign() != 0 {
			return false
		}
		acc.Or(acc, m)
	}
	return true
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.w), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BVBig(new(big.Int).Mul(a.cbig(), b.cbig()), a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		f := b.cbig()
		if f.Sign() == 0 {
			return b
		}
		if f.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == OAdd || a.op == OSub || a.op == ONeg || (a.op == OMul && a.args[1].isConst()) {
			if a.op == OMul {
				return c.Mul(a.args[0], c.Mul(a.args[1], b))
			}
			if a.op == OAdd && !c.wide {
				xs := make([]*Term, len(a.args))
				for i, x := range a.args {
					xs[i] = c.Mul(x, b)
				}
				return c.Add(xs...)
			}
		}
		return c.mulConst(a, f)
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// Div builds udiv/urem/sdiv/srem; divisor must be known non-zero on the path.
func (c *Ctx) Div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.cbig().Sign() != 0 {
		x, y := a.cbig(), b.cbig()
		switch op {
		case OUdiv:
			return c.BVBig(new(big.Int).Quo(x, y), a.w)
		case OUrem:
			return c.BVBig(new(big.Int).Rem(x, y), a.w)
		case OSdiv:
			return c.BVBig(new(big.Int).Quo(toSigned(x, a.w), toSigned(y, a.w)), a.w)
		case OSrem:
			return c.BVBig(new(big.Int).Rem(toSigned(x, a.w), toSigned(y, a.w)), a.w)
		}
	}
	if op == OSdiv || op == OSrem {
		nn := func(t *Term) bool {
			return leadZeros(t) > 0 || (t.w <= 64 && t.ub <= maskw(t.w-1))
		}
		if nn(a) && nn(b) {
			if op == OSdiv {
				return c.Div(OUdiv, a, b)
			}
			return c.Div(OUrem, a, b)
		}
	}
	if b.isConst() {
		f := b.cbig()
		if op == OUdiv || op == OUrem {
			if f.Sign() != 0 && f.BitLen() == int(f.TrailingZeroBits())+1 {
				k := int(f.TrailingZeroBits())
				if op == OUdiv {
					return c.LshrC(a, k)
				}
				if k == 0 {
					return c.BV(0, a.w)
				}
				return c.Zext(c.Extract(a, k-1, 0), a.w)
			}
		}
		if f.Cmp(big.NewInt(1)) == 0 {
			if op == OSdiv {
				return a
			}
			return c.BV(0, a.w)
		}
		// shrink: zero-extended operands
		if z := min(leadZeros(a), leadZeros(b)); z > 0 && (op == OUdiv || op == OUrem) {
			n := a.w - z
			return c.Zext(c.Div(op, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
		}
		if a.op == OTab && f.IsUint64() && (op == OUdiv || op == OUrem) && f.Sign() > 0 {
			d := f.Uint64()
			return c.lift1(a, a.w, func(x uint64) uint64 {
				if op == OUdiv {
					return x / d
				}
				return x % d
			})
		}
		if a.w <= 64 && op == OUdiv && a.op == OMul && len(a.args) == 2 && a.args[1] == b {
			if hi, lo := bits.Mul64(a.args[0].ub, b.u); hi == 0 && lo <= maskw(a.w) {
				return a.args[0]
			}
		}
		if a.w <= 64 && f.IsUint64() && (op == OUdiv || op == OUrem) && a.ub < f.Uint64() {
			if op == OUdiv {
				return c.BV(0, a.w)
			}
			return a
		}
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) ShlC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.BV(0, a.w)
	}
	return c.Concat(c.Extract(a, a.w-1-k, 0), c.BV(0, k))
}
func (c *Ctx) LshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.BV(0, a.w)
	}
	return c.Concat(c.BV(0, k), c.Extract(a, a.w-1, k))
}
func (c *Ctx) AshrC(a *Term, k int) *Term {
	if k >= a.w {
		k = a.w - 1
	}
	if k == 0 {
		return a
	}
	return c.Sext(c.Extract(a, a.w-1, k), a.w)
}

// Shift with arbitrary amount of the same width; amounts >= w saturate as in Go.
func (c *Ctx) Shift(op Op, a, k *Term) *Term {
	if k.isConst() {
		n := a.w
		if k.cbig().IsInt64() && k.cbig().Int64() < int64(n) {
			n = int(k.cbig().Int64())
		}
		switch op {
		case OShl:
			return c.ShlC(a, n)
		case OLshr:
			return c.LshrC(a, n)
		default:
			return c.AshrC(a, n)
		}
	}
	if op != OAshr && isZero(a) {
		return a
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, k}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.w != b.w {
		panic("Ult width")
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cbig().Cmp(b.cbig()) < 0)
	}
	if a.w <= 64 {
		if a.ub < b.lb {
			return c.T
		}
		if a.lb >= b.ub {
			return c.F
		}
	}
	if z := min(leadZeros(a), leadZeros(b)); z > 0 && z < a.w {
		return c.Ult(c.Extract(a, a.w-1-z, 0), c.Extract(b, b.w-1-z, 0))
	}
	if b.isConst() && b.w <= 64 && b.u == 1 {
		return c.Eq(a, c.BV(0, a.w))
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	if t := c.lift2(a, b, WBool, func(x, y uint64) uint64 { return b2u(x < y) }); t != nil {
		return t
	}
	return c.mk(&Term{op: OUlt, w: WBool, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cbig().Cmp(b.cbig()) <= 0)
	}
	if a.w <= 64 {
		if a.ub <= b.lb {
			return c.T
		}
		if a.lb > b.ub {
			return c.F
		}
		// normalise to strict comparison with constants
		if a.isConst() && a.u > 0 {
			return c.Ult(c.BV(a.u-1, a.w), b)
		}
		if b.isConst() && b.u < maskw(b.w) {
			return c.Ult(a, c.BV(b.u+1, b.w))
		}
	}
	if z := min(leadZeros(a), leadZeros(b)); z > 0 && z < a.w {
		return c.Ule(c.Extract(a, a.w-1-z, 0), c.Extract(b, b.w-1-z, 0))
	}
	if t := c.lift2(a, b, WBool, func(x, y uint64) uint64 { return b2u(x <= y) }); t != nil {
		return t
	}
	return c.mk(&Term{op: OUle, w: WBool, args: []*Term{a, b}})
}
func nonNeg(t *Term) bool {
	return leadZeros(t) > 0 || (t.w <= 64 && t.ub <= maskw(t.w-1))
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(toSigned(a.cbig(), a.w).Cmp(toSigned(b.cbig(), b.w)) < 0)
	}
	if nonNeg(a) && nonNeg(b) {
		return c.Ult(a, b)
	}
	if isZero(b) {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.BV(1, 1))
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if t := c.lift2(a, b, WBool, func(x, y uint64) uint64 { return b2u(sx(x, a.w) < sx(y, a.w)) }); t != nil {
		return t
	}
	return c.mk(&Term{op: OSlt, w: WBool, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(toSigned(a.cbig(), a.w).Cmp(toSigned(b.cbig(), b.w)) <= 0)
	}
	if nonNeg(a) && nonNeg(b) {
		return c.Ule(a, b)
	}
	if isZero(a) {
		return c.Eq(c.Extract(b, b.w-1, b.w-1), c.BV(0, 1))
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Sle(a.args[0], b.args[0])
	}
	if t := c.lift2(a, b, WBool, func(x, y uint64) uint64 { return b2u(sx(x, a.w) <= sx(y, a.w)) }); t != nil {
		return t
	}
	return c.mk(&Term{op: OSle, w: WBool, args: []*Term{a, b}})
}

func (c *Ctx) App(name string, w int, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, w: w, name: name, args: args})
}

func (c *Ctx) Keccak(bs []*Term) *Term {
	all := true
	for _, b := range bs {
		if !b.isConst() {
			all = false
			break
		}
	}
	if all {
		in := make([]byte, len(bs))
		for i, b := range bs {
			in[i] = byte(b.u)
		}
		d := keccak256(in)
		c.known[string(d[:])] = in
		return c.BVBig(new(big.Int).SetBytes(d[:]), 256)
	}
	return c.mk(&Term{op: OKeccak, w: 256, args: append([]*Term(nil), bs...)})
}

// ---- integers ----

func (c *Ctx) IAdd(xs ...*Term) *Term {
	k := new(big.Int)
	items := map[*Term]*big.Int{}
	var order []*Term
	var add func(t *Term, f *big.Int)
	add = func(t *Term, f *big.Int) {
		switch {
		case t.isConst():
			k.Add(k, new(big.Int).Mul(f, t.big))
		case t.op == OIAdd:
			for _, x := range t.args {
				add(x, f)
			}
		case t.op == OIMul && len(t.args) == 2 && t.args[1].isConst():
			add(t.args[0], new(big.Int).Mul(f, t.args[1].big))
		default:
			if o, ok := items[t]; ok {
				o.Add(o, f)
			} else {
				items[t] = new(big.Int).Set(f)
				order = append(order, t)
			}
		}
	}
	for _, x := range xs {
		add(x, big.NewInt(1))
	}
	sort.Slice(order, func(i, j int) bool { return order[i].h1 < order[j].h1 })
	var out []*Term
	for _, t := range order {
		f := items[t]
		if f.Sign() == 0 {
			continue
		}
		if f.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, c.mk(&Term{op: OIMul, w: WInt, args: []*Term{t, c.Int(f)}}))
		}
	}
	if k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.Int(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OIAdd, w: WInt, args: out})
}
func (c *Ctx) IMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Mul(a.big, b.big))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.big.Sign() == 0 {
			return b
		}
		if b.big.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == OIAdd {
			xs := make([]*Term, len(a.args))
			for i, x := range a.args {
				xs[i] = c.IMul(x, b)
			}
			return c.IAdd(xs...)
		}
		if a.op == OIMul && a.args[1].isConst() {
			return c.IMul(a.args[0], c.Int(new(big.Int).Mul(a.args[1].big, b.big)))
		}
		return c.mk(&Term{op: OIMul, w: WInt, args: []*Term{a, b}})
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return c.mk(&Term{op: OIMul, w: WInt, args: []*Term{a, b}})
}
func (c *Ctx) INeg(a *Term) *Term    { return c.IMul(a, c.IntI(-1)) }
func (c *Ctx) ISub(a, b *Term) *Term { return c.IAdd(a, c.INeg(b)) }
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean
	if b.Sign() < 0 && m.Sign() != 0 {
		// Euclidean with negative divisor: q = ceil -> floor is q-1
		q.Sub(q, big.NewInt(1))
	}
	return q
}
func floorMod(a, b *big.Int) *big.Int {
	return new(big.Int).Sub(a, new(big.Int).Mul(b, floorDiv(a, b)))
}
func (c *Ctx) IDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.big.Sign() != 0 {
		return c.Int(floorDiv(a.big, b.big))
	}
	if b.isConst() && b.big.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk(&Term{op: OIDiv, w: WInt, args: []*Term{a, b}})
}
func (c *Ctx) IMod(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.big.Sign() != 0 {
		return c.Int(floorMod(a.big, b.big))
	}
	return c.mk(&Term{op: OIMod, w: WInt, args: []*Term{a, b}})
}
func (c *Ctx) ILe(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.big.Cmp(b.big) <= 0)
	}
	return c.mk(&Term{op: OILe, w: WBool, args: []*Term{a, b}})
}
func (c *Ctx) ILt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.big.Cmp(b.big) < 0)
	}
	return c.mk(&Term{op: OILt, w: WBool, args: []*Term{a, b}})
}
func (c *Ctx) U2I(a *Term) *Term {
	if a.isConst() {
		return c.Int(a.cbig())
	}
	return c.mk(&Term{op: OU2I, w: WInt, args: []*Term{a}})
}
func (c *Ctx) S2I(a *Term) *Term {
	if a.isConst() {
		return c.Int(toSigned(a.cbig(), a.w))
	}
	if nonNeg(a) {
		return c.U2I(a)
	}
	return c.mk(&Term{op: OS2I, w: WInt, args: []*Term{a}})
}

// ---- printing for debugging ----
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == WBool {
			return fmt.Sprint(t.u == 1)
		}
		return fmt.Sprintf("%s:%d", t.cbig().Text(10), t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.hi, t.lo)
	}
	if t.op == OApp {
		sb.WriteString(" " + t.name)
	}
	for i, a := range t.args {
		if i > 8 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	return sb.String() + ")"
}

// ---- tables ----

const maxTab = 256

// Tab is the function idx -> tab[idx]; tab covers 0..idx.ub.
func (c *Ctx) Tab(idx *Term, w int, tab []uint64) *Term {
	if idx.isConst() {
		return c.constW(tab[idx.u], w)
	}
	n := int(idx.ub) + 1
	if idx.op == OTab {
		out := make([]uint64, len(idx.tab))
		for i, x := range idx.tab {
			out[i] = tab[x]
		}
		return c.Tab(idx.args[0], w, out)
	}
	// zero-extended index: use the payload
	if idx.op == OConcat && len(idx.args) == 2 && isZero(idx.args[0]) {
		return c.Tab(idx.args[1], w, tab[:int(idx.args[1].ub)+1])
	}
	tab = append([]uint64(nil), tab[:n]...)
	lb := int(idx.lb)
	for i := 0; i < lb; i++ {
		tab[i] = tab[lb]
	}
	same, ident := true, w > 0
	ones := 0
	for i := lb; i < n; i++ {
		same = same && tab[i] == tab[lb]
		ident = ident && tab[i] == uint64(i)
		ones += int(tab[i] & 1)
	}
	if same {
		return c.constW(tab[lb], w)
	}
	if ident {
		if w >= idx.w {
			return c.Zext(idx, w)
		}
		return c.Extract(idx, w-1, 0)
	}
	if w == WBool {
		k := n - lb
		if ones == 1 || ones == k-1 {
			want := uint64(1)
			if ones != 1 {
				want = 0
			}
			for i := lb; i < n; i++ {
				if tab[i] == want {
					e := c.mk(&Term{op: OEq, w: WBool, args: []*Term{idx, c.BV(uint64(i), idx.w)}})
					if want == 1 {
						return e
					}
					return c.mk(&Term{op: ONot, w: WBool, args: []*Term{e}})
				}
			}
		}
		changes := 0
		at := 0
		for i := lb + 1; i < n; i++ {
			if tab[i] != tab[i-1] {
				changes++
				at = i
			}
		}
		if changes == 1 {
			if tab[lb] == 1 {
				return c.mk(&Term{op: OUlt, w: WBool, args: []*Term{idx, c.BV(uint64(at), idx.w)}})
			}
			return c.mk(&Term{op: OUle, w: WBool, args: []*Term{c.BV(uint64(at), idx.w), idx}})
		}
	}
	return c.mk(&Term{op: OTab, w: w, args: []*Term{idx}, tab: tab})
}

func (c *Ctx) constW(u uint64, w int) *Term {
	if w == WBool {
		return c.Bool(u == 1)
	}
	return c.BV(u, w)
}

func smallIdx(t *Term) bool { return t.w > 0 && t.w <= 64 && t.ub < maxTab && !t.isConst() }

// stripZ removes a zero extension.
func stripZ(t *Term) *Term {
	if t.op == OConcat && len(t.args) == 2 && isZero(t.args[0]) {
		return t.args[1]
	}
	return t
}

// idxOf returns the small term a boolean or table depends on.
func idxOf(t *Term) *Term {
	switch t.op {
	case OTab:
		return t.args[0]
	case ONot:
		return idxOf(t.args[0])
	case OEq, OUlt, OUle:
		a, b := t.args[0], t.args[1]
		if b.isConst() && smallIdx(a) {
			return stripZ(a)
		}
		if a.isConst() && smallIdx(b) {
			return stripZ(b)
		}
	}
	return nil
}

// tabOf tabulates t over idx; nil if t depends on anything else.
func (c *Ctx) tabOf(t, idx *Term) []uint64 {
	n := int(idx.ub) + 1
	out := make([]uint64, n)
	if t.isConst() {
		if t.big != nil {
			return nil
		}
		for i := range out {
			out[i] = t.u
		}
		return out
	}
	if stripZ(t) == idx {
		for i := range out {
			out[i] = uint64(i)
		}
		return out
	}
	switch t.op {
	case OTab:
		if t.args[0] == idx {
			return t.tab
		}
	case ONot:
		x := c.tabOf(t.args[0], idx)
		if x == nil {
			return nil
		}
		for i := range out {
			out[i] = 1 - x[i]
		}
		return out
	case OEq, OUlt, OUle:
		a, b := t.args[0], t.args[1]
		if (a.isConst() || stripZ(a) == idx) && (b.isConst() || stripZ(b) == idx) && a.w <= 64 {
			for i := range out {
				x, y := uint64(i), uint64(i)
				if a.isConst() {
					x = a.u
				}
				if b.isConst() {
					y = b.u
				}
				switch t.op {
				case OEq:
					out[i] = b2u(x == y)
				case OUlt:
					out[i] = b2u(x < y)
				default:
					out[i] = b2u(x <= y)
				}
			}
			return out
		}
	}
	return nil
}

func (c *Ctx) lift1(a *Term, w int, f func(uint64) uint64) *Term {
	n := make([]uint64, len(a.tab))
	for i, x := range a.tab {
		n[i] = f(x)
	}
	return c.Tab(a.args[0], w, n)
}

// lift2 applies f pointwise when at least one operand is a table and the other is a constant or over the same index.
func (c *Ctx) lift2(a, b *Term, w int, f func(x, y uint64) uint64) *Term {
	var idx *Term
	if a.op == OTab {
		idx = a.args[0]
	} else if b.op == OTab {
		idx = b.args[0]
	} else {
		return nil
	}
	if w > 64 || a.w > 64 {
		return nil
	}
	ta, tb := c.tabOf(a, idx), c.tabOf(b, idx)
	if ta == nil || tb == nil {
		return nil
	}
	n := make([]uint64, len(ta))
	for i := range n {
		n[i] = f(ta[i], tb[i])
	}
	return c.Tab(idx, w, n)
}

// mergeTabs joins conjuncts over the same small term; nil if nothing was joined.
func (c *Ctx) mergeTabs(xs []*Term) []*Term {
	groups := map[*Term]int{}
	any := false
	for _, x := range xs {
		if i := idxOf(x); i != nil {
			groups[i]++
			if groups[i] > 1 {
				any = true
			}
		}
	}
	if !any {
		return nil
	}
	acc := map[*Term][]uint64{}
	var out, order []*Term
	for _, x := range xs {
		i := idxOf(x)
		if i == nil || groups[i] < 2 {
			out = append(out, x)
			continue
		}
		t := c.tabOf(x, i)
		if t == nil {
			return nil
		}
		if acc[i] == nil {
			acc[i] = append([]uint64(nil), t...)
			order = append(order, i)
			continue
		}
		for k := range t {
			acc[i][k] &= t[k]
		}
	}
	for _, i := range order {
		out = append(out, c.Tab(i, WBool, acc[i]))
	}
	return out
}
