package main

// Integer encoding of bit-vector and integer terms: machine words become polynomials over integer
// atoms that are kept unreduced ("raw", congruent modulo 2^w) until the canonical value is needed;
// wrap-around becomes a quotient whose range follows from interval analysis. Exact, not an approximation,
// except that in the linear stage products of atoms are atoms of their own (an unsat answer stays sound).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func pow2(k int) *big.Int { return new(big.Int).Lsh(big1, uint(k)) }

type ival struct{ lo, hi *big.Int } // nil = unbounded

type poly struct {
	t    map[string]*big.Int // monomial key -> coefficient (non-zero)
	c    *big.Int
	iv   *ival
	gen  int // generation of facts iv was computed in
	skey string
	vkey string
}

type iatom struct {
	id    int
	iv    ival
	base  *poly // for a remainder or quotient: the dividend
	div   *big.Int
	rem   *iatom
	quots []*iatom
	then  *branch // for an ite: what holds in each branch
	other *branch
	kind  byte // v variable, q quotient, r remainder, i ite, m monomial, b table
}

// branch is one side of an ite: its value and polynomials that are <= 0 there.
type branch struct {
	p *poly
	d []*poly
}

type intEnc struct {
	sb       strings.Builder
	atoms    []*iatom
	raw      map[*Term]*poly
	canon    map[*Term]*poly
	sgn      map[*Term]*poly
	boolv    map[*Term]string
	divs     map[string][2]*poly
	ites     map[string]*poly
	monos    map[string][]int
	thenD    []*poly // for the ite being built
	otherD   []*poly
	monoIv   map[string]ival
	emitM    map[string]bool
	vars     []*Term
	bnds     map[*Term]*varBound
	cuts     map[*Term]map[int]bool
	nonlin   bool
	linear   bool
	wide     bool // limb arithmetic: sums are not narrowed, bits are differences of quotients
	approx   bool
	facts    map[string]ival
	tabCands map[*Term][]*Term
	rems     map[string]*iatom
	fixed    map[string]*poly
	anyQ     bool
	tabBusy  map[*Term]bool
	sliced   map[string]bool
	gen      int
	fail     string
}

type varBound struct{ slo, shi, ulo, uhi *big.Int }

type encFail struct{ why string }

func (e *intEnc) bad(f string, a ...interface{}) { panic(encFail{fmt.Sprintf(f, a...)}) }

// ---- polynomials ----

func pconst(v *big.Int) *poly { return &poly{c: v} }

func (p *poly) isConst() bool { return len(p.t) == 0 }

func (p *poly) key() string {
	if p.skey != "" {
		return p.skey
	}
	ks := p.sorted()
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('*')
		sb.WriteString(p.t[k].Text(36))
		sb.WriteByte('+')
	}
	sb.WriteString(p.c.Text(36))
	p.skey = sb.String()
	return p.skey
}
func (p *poly) sorted() []string {
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func padd(a, b *poly, f *big.Int) *poly { // a + f*b
	if b.isConst() && b.c.Sign() == 0 {
		return a
	}
	r := &poly{t: make(map[string]*big.Int, len(a.t)+len(b.t)), c: new(big.Int)}
	for k, v := range a.t {
		r.t[k] = v
	}
	for k, v := range b.t {
		x := new(big.Int).Mul(v, f)
		if o, ok := r.t[k]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.t, k)
		} else {
			r.t[k] = x
		}
	}
	r.c.Mul(b.c, f)
	r.c.Add(r.c, a.c)
	return r
}
func pscale(a *poly, f *big.Int) *poly { return padd(pconst(big0), a, f) }

func (e *intEnc) pmul(a, b *poly) *poly {
	if a.isConst() {
		return pscale(b, a.c)
	}
	if b.isConst() {
		return pscale(a, b.c)
	}
	if len(a.t)*len(b.t) > 40000 {
		e.bad("polynomial too large")
	}
	r := &poly{t: map[string]*big.Int{}, c: new(big.Int).Mul(a.c, b.c)}
	add := func(k string, v *big.Int) {
		x := v
		if o, ok := r.t[k]; ok {
			x = new(big.Int).Add(o, v)
		}
		if x.Sign() == 0 {
			delete(r.t, k)
		} else {
			r.t[k] = x
		}
	}
	for ka, va := range a.t {
		for kb, vb := range b.t {
			add(e.mulKey(ka, kb), new(big.Int).Mul(va, vb))
		}
		if b.c.Sign() != 0 {
			add(ka, new(big.Int).Mul(va, b.c))
		}
	}
	if a.c.Sign() != 0 {
		for kb, vb := range b.t {
			add(kb, new(big.Int).Mul(vb, a.c))
		}
	}
	return r
}

// monomial keys are "a1.a5.a5"
func (e *intEnc) mulKey(a, b string) string {
	x, y := e.factors(a), e.factors(b)
	ids := append(append([]int(nil), x...), y...)
	sort.Ints(ids)
	ss := make([]string, len(ids))
	for i, d := range ids {
		ss[i] = fmt.Sprintf("a%d", d)
	}
	k := strings.Join(ss, ".")
	if len(ids) > 1 {
		e.nonlin = true
		if _, ok := e.monos[k]; !ok {
			e.monos[k] = ids
		}
	}
	return k
}
func (e *intEnc) factors(k string) []int {
	if ids, ok := e.monos[k]; ok {
		return ids
	}
	var n int
	fmt.Sscanf(k, "a%d", &n)
	return []int{n}
}

func mulIv(a, b ival) ival {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		xs := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := xs[0], xs[0]
		for _, x := range xs[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return ival{lo, hi}
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		return ival{new(big.Int).Mul(a.lo, b.lo), nil}
	}
	return ival{}
}

func (e *intEnc) monoIval(k string) ival {
	if iv, ok := e.monoIv[k]; ok {
		return iv
	}
	ids := e.factors(k)
	iv := e.atoms[ids[0]].iv
	if len(ids) == 2 && ids[0] == ids[1] && iv.lo != nil && iv.hi != nil {
		sq := mulIv(iv, iv)
		if iv.lo.Sign() <= 0 && iv.hi.Sign() >= 0 {
			sq.lo = big0
		} else if sq.lo.Sign() < 0 {
			sq.lo = big0
		}
		e.monoIv[k] = sq
		return sq
	}
	for _, d := range ids[1:] {
		iv = mulIv(iv, e.atoms[d].iv)
	}
	e.monoIv[k] = iv
	return iv
}

func (e *intEnc) ivOf(p *poly) ival {
	if p.iv != nil && p.gen == e.gen {
		return *p.iv
	}
	lo, hi := new(big.Int).Set(p.c), new(big.Int).Set(p.c)
	for k, v := range p.t {
		iv := e.monoIval(k)
		a, b := iv.lo, iv.hi
		if v.Sign() < 0 {
			a, b = b, a
		}
		if a == nil {
			lo = nil
		} else if lo != nil {
			lo.Add(lo, new(big.Int).Mul(a, v))
		}
		if b == nil {
			hi = nil
		} else if hi != nil {
			hi.Add(hi, new(big.Int).Mul(b, v))
		}
		if lo == nil && hi == nil {
			break
		}
	}
	if len(e.facts) > 0 && len(p.t) > 0 {
		if f, ok := e.facts[p.varKey()]; ok {
			if f.lo != nil {
				if l := new(big.Int).Add(f.lo, p.c); lo == nil || l.Cmp(lo) > 0 {
					lo = l
				}
			}
			if f.hi != nil {
				if h := new(big.Int).Add(f.hi, p.c); hi == nil || h.Cmp(hi) < 0 {
					hi = h
				}
			}
		}
	}
	p.iv, p.gen = &ival{lo, hi}, e.gen
	return *p.iv
}

// varKey identifies the polynomial without its constant.
func (p *poly) varKey() string {
	if p.vkey == "" {
		p.vkey = (&poly{t: p.t, c: big0}).key()
	}
	return p.vkey
}

// learn records that p <= 0 in every model of the constraints emitted so far; later encoding uses the range.
func (e *intEnc) learn(p *poly, depth int) {
	if len(p.t) == 0 || len(p.t) > 200 || depth > 6 {
		return
	}
	// V <= -c for the variable part V, so -V >= c
	up := new(big.Int).Neg(p.c)
	e.gen++
	set := func(v *poly, lo, hi *big.Int) {
		f := e.facts[v.varKey()]
		if lo != nil && (f.lo == nil || lo.Cmp(f.lo) > 0) {
			f.lo = lo
		}
		if hi != nil && (f.hi == nil || hi.Cmp(f.hi) < 0) {
			f.hi = hi
		}
		e.facts[v.varKey()] = f
	}
	v := &poly{t: p.t, c: big0}
	set(v, nil, up)
	set(pscale(v, big.NewInt(-1)), p.c, nil)
	if len(p.t) != 1 {
		// a remainder written out may leave its quotient alone
		for _, k := range p.sorted() {
			if strings.IndexByte(k, '.') >= 0 {
				continue
			}
			r := e.atoms[e.factors(k)[0]]
			for _, qa := range r.quots {
				n := &poly{t: map[string]*big.Int{}, c: p.c}
				for x, y := range p.t {
					if x != k {
						n.t[x] = y
					}
				}
				n = padd(n, qa.base, p.t[k])
				n = padd(n, &poly{t: map[string]*big.Int{fmt.Sprintf("a%d", qa.id): qa.div}, c: big0}, new(big.Int).Neg(p.t[k]))
				if len(n.t) == 1 {
					e.learn(n, depth+1)
				}
			}
		}
		return
	}
	for k, co := range p.t {
		ids := e.factors(k)
		if len(ids) != 1 {
			return
		}
		a := e.atoms[ids[0]]
		if co.Sign() > 0 { // a <= floor(up/co)
			h := floorDiv(up, co)
			if a.iv.hi == nil || h.Cmp(a.iv.hi) < 0 {
				a.iv.hi = h
				delete(e.monoIv, k)
			}
			e.fix(a, k)
			if a.kind == 'q' && a.div != nil { // base <= div*h + div-1
				e.learn(padd(a.base, pconst(new(big.Int).Add(new(big.Int).Mul(a.div, h), new(big.Int).Sub(a.div, big1))), big.NewInt(-1)), depth+1)
			}
			return
		}
		// a >= ceil(up/co) = ceil(-up/|co|)
		n := new(big.Int).Neg(co)
		l := floorDiv(new(big.Int).Sub(new(big.Int).Add(new(big.Int).Neg(up), n), big1), n)
		if a.iv.lo == nil || l.Cmp(a.iv.lo) > 0 {
			a.iv.lo = l
			delete(e.monoIv, k)
		}
		e.fix(a, k)
		if a.kind == 'q' && a.div != nil { // base >= div*l
			e.learn(padd(pconst(new(big.Int).Mul(a.div, l)), a.base, big.NewInt(-1)), depth+1)
		}
	}
}

// fix remembers atoms whose range has become a single value.
func (e *intEnc) fix(a *iatom, k string) {
	if a.iv.lo != nil && a.iv.hi != nil && a.iv.lo.Cmp(a.iv.hi) == 0 && e.fixed[k] == nil {
		e.fixed[k] = pconst(a.iv.lo)
		if a.kind == 'q' && a.rem != nil {
			rk := fmt.Sprintf("a%d", a.rem.id)
			if e.fixed[rk] == nil && a.base.t[rk] == nil {
				e.fixed[rk] = padd(a.base, pconst(new(big.Int).Mul(a.div, a.iv.lo)), big.NewInt(-1))
			}
		}
	}
}

// subst replaces fixed atoms by their values.
func (e *intEnc) subst(p *poly) *poly {
	if len(e.fixed) == 0 {
		return p
	}
	hit := false
	for k := range p.t {
		if e.fixed[k] != nil {
			hit = true
			break
		}
	}
	if !hit {
		return p
	}
	n := &poly{t: map[string]*big.Int{}, c: new(big.Int).Set(p.c)}
	for k, v := range p.t {
		if e.fixed[k] == nil {
			n.t[k] = v
		}
	}
	for k, v := range p.t {
		if f := e.fixed[k]; f != nil {
			n = padd(n, f, v)
		}
	}
	return n
}

// learnTerm extracts ranges from an emitted constraint.
func (e *intEnc) learnTerm(t *Term, pos bool) {
	neg := big.NewInt(-1)
	switch t.op {
	case OAnd:
		if pos {
			for _, a := range t.args {
				e.learnTerm(a, true)
			}
		}
		return
	case ONot:
		e.learnTerm(t.args[0], !pos)
		return
	}
	a, b, strict := e.sides(t)
	if a == nil {
		return
	}
	if t.op == OEq {
		d := padd(a, b, neg)
		if pos {
			e.learn(d, 0)
			e.learn(pscale(d, neg), 0)
		} else {
			iv := e.ivOf(d)
			if iv.lo != nil && iv.lo.Sign() == 0 {
				e.learn(padd(pconst(big1), d, neg), 0)
			} else if iv.hi != nil && iv.hi.Sign() == 0 {
				e.learn(padd(d, pconst(big1), big1), 0)
			}
		}
		return
	}
	e.learn(gap(a, b, strict, pos), 0)
}

// sides returns the two sides of a comparison as exact integers.
func (e *intEnc) sides(t *Term) (a, b *poly, strict bool) {
	if len(t.args) != 2 || t.args[0].w == WBool {
		return nil, nil, false
	}
	switch t.op {
	case OEq, OUlt, OUle:
		if t.args[0].w == WInt {
			a, b = e.rawOf(t.args[0]), e.rawOf(t.args[1])
		} else {
			a, b = e.canonOf(t.args[0]), e.canonOf(t.args[1])
		}
	case OSlt, OSle:
		a, b = e.signedOf(t.args[0]), e.signedOf(t.args[1])
	case OILt, OILe:
		a, b = e.rawOf(t.args[0]), e.rawOf(t.args[1])
	}
	return a, b, t.op == OUlt || t.op == OSlt || t.op == OILt
}

// gap is a polynomial that is <= 0 exactly when a < b (strict) or a <= b holds, or fails when pos is false.
func gap(a, b *poly, strict, pos bool) *poly {
	if !pos {
		a, b, strict = b, a, !strict
	}
	d := padd(a, b, big.NewInt(-1))
	if strict {
		d = padd(d, pconst(big1), big1)
	}
	return d
}

// iteT is iteP for a condition term: in each branch the condition narrows the range.
func (e *intEnc) iteT(t *Term, a, b *poly) *poly {
	c := e.boolOf(t)
	if c == "true" || c == "false" || a.key() == b.key() {
		return e.iteP(c, a, b)
	}
	td, od := e.gaps(t)
	e.thenD, e.otherD = td, od
	p := e.iteP(c, a, b)
	e.thenD, e.otherD = nil, nil
	return p
}

// gaps returns polynomials that are <= 0 where the condition holds and where it fails.
func (e *intEnc) gaps(t *Term) (then, other []*poly) {
	pos := true
	for t.op == ONot {
		t, pos = t.args[0], !pos
	}
	if t.op == OAnd {
		for _, x := range t.args {
			d, _ := e.gaps(x)
			then = append(then, d...)
		}
		if !pos {
			return nil, then
		}
		return then, nil
	}
	if t.op == OEq {
		return nil, nil
	}
	if x, y, strict := e.sides(t); x != nil {
		return []*poly{gap(x, y, strict, pos)}, []*poly{gap(x, y, strict, !pos)}
	}
	return nil, nil
}

// under is the range of p where every d is <= 0.
func (e *intEnc) under(p *poly, ds []*poly, depth int) ival {
	iv := e.ivOf(p)
	if len(p.t) == 0 {
		return iv
	}
	meet := func(o ival) {
		if o.lo != nil && (iv.lo == nil || o.lo.Cmp(iv.lo) > 0) {
			iv.lo = o.lo
		}
		if o.hi != nil && (iv.hi == nil || o.hi.Cmp(iv.hi) < 0) {
			iv.hi = o.hi
		}
	}
	for _, d := range ds {
		if d == nil {
			continue
		}
		// p = d + (rest): p <= rest
		if r := padd(p, d, big.NewInt(-1)); len(r.t) < len(p.t)+len(d.t) {
			if h := e.ivOf(r).hi; h != nil {
				meet(ival{nil, h})
			}
		}
		// p = -d + (rest): p >= rest
		if r := padd(p, d, big1); len(r.t) < len(p.t)+len(d.t) {
			if l := e.ivOf(r).lo; l != nil {
				meet(ival{l, nil})
			}
		}
	}
	if len(p.t) <= 4 && depth < 5 {
		// split on the latest ite
		var at *iatom
		key := ""
		for k := range p.t {
			ids := e.factors(k)
			if len(ids) != 1 {
				continue
			}
			if x := e.atoms[ids[0]]; x.then != nil && (at == nil || x.id > at.id) {
				at, key = x, k
			}
		}
		if at != nil {
			v := p.t[key]
			rest := padd(p, &poly{t: map[string]*big.Int{key: big1}, c: big0}, new(big.Int).Neg(v))
			x := e.under(padd(rest, at.then.p, v), append(ds[:len(ds):len(ds)], at.then.d...), depth+1)
			y := e.under(padd(rest, at.other.p, v), append(ds[:len(ds):len(ds)], at.other.d...), depth+1)
			meet(join(x, y))
		}
	}
	return iv
}

func join(x, y ival) (iv ival) {
	if x.lo != nil && y.lo != nil {
		iv.lo = x.lo
		if y.lo.Cmp(iv.lo) < 0 {
			iv.lo = y.lo
		}
	}
	if x.hi != nil && y.hi != nil {
		iv.hi = x.hi
		if y.hi.Cmp(iv.hi) > 0 {
			iv.hi = y.hi
		}
	}
	return
}

func (iv ival) within(lo, hi *big.Int) bool { // hi exclusive
	return iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) < 0
}

func (e *intEnc) newAtom(kind byte, iv ival) (*iatom, *poly) {
	a := &iatom{id: len(e.atoms), iv: iv, kind: kind}
	e.atoms = append(e.atoms, a)
	k := fmt.Sprintf("a%d", a.id)
	return a, &poly{t: map[string]*big.Int{k: big1}, c: big0}
}
func (e *intEnc) declare(a *iatom) {
	fmt.Fprintf(&e.sb, "(declare-fun a%d () Int)\n", a.id)
	if a.iv.lo != nil {
		fmt.Fprintf(&e.sb, "(assert (<= %s a%d))\n", ilit(a.iv.lo), a.id)
	}
	if a.iv.hi != nil {
		fmt.Fprintf(&e.sb, "(assert (<= a%d %s))\n", a.id, ilit(a.iv.hi))
	}
}

func ilit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).Text(10) + ")"
	}
	return v.Text(10)
}

// str prints a polynomial, declaring its monomials.
func (e *intEnc) str(p *poly) string {
	if p.isConst() {
		return ilit(p.c)
	}
	var parts []string
	for _, k := range p.sorted() {
		v := p.t[k]
		name := k
		if ids, ok := e.monos[k]; ok {
			name = "m_" + strings.ReplaceAll(k, ".", "_")
			if !e.emitM[k] {
				e.emitM[k] = true
				if e.linear {
					iv := e.monoIval(k)
					fmt.Fprintf(&e.sb, "(declare-fun %s () Int)\n", name)
					if iv.lo != nil {
						fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", ilit(iv.lo), name)
					}
					if iv.hi != nil {
						fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", name, ilit(iv.hi))
					}
				} else {
					ss := make([]string, len(ids))
					for i, d := range ids {
						ss[i] = fmt.Sprintf("a%d", d)
					}
					fmt.Fprintf(&e.sb, "(define-fun %s () Int (* %s))\n", name, strings.Join(ss, " "))
				}
			}
		}
		if v.Cmp(big1) == 0 {
			parts = append(parts, name)
		} else {
			parts = append(parts, "(* "+ilit(v)+" "+name+")")
		}
	}
	if p.c.Sign() != 0 {
		parts = append(parts, ilit(p.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// divmod returns floor(p/m) and p mod m for a positive constant m.
func (e *intEnc) divmod(p *poly, m *big.Int) (*poly, *poly) {
	q, r := e.divmod1(p, m)
	if len(e.facts) > 0 && len(q.t) > 1 {
		// the quotient inherits the range known for the dividend
		iv, qi := e.ivOf(p), e.ivOf(q)
		if iv.lo != nil {
			if l := floorDiv(iv.lo, m); qi.lo == nil || l.Cmp(qi.lo) > 0 {
				e.learn(padd(pconst(l), q, big.NewInt(-1)), 0)
			}
		}
		if iv.hi != nil {
			if h := floorDiv(iv.hi, m); qi.hi == nil || h.Cmp(qi.hi) < 0 {
				e.learn(padd(q, pconst(h), big.NewInt(-1)), 0)
			}
		}
	}
	return q, r
}

func (e *intEnc) divmod1(p *poly, m *big.Int) (*poly, *poly) {
	if m.Cmp(big1) == 0 {
		return p, pconst(big0)
	}
	// split off multiples of m
	A := &poly{t: map[string]*big.Int{}, c: new(big.Int)}
	B := &poly{t: map[string]*big.Int{}, c: new(big.Int)}
	for k, v := range p.t {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(v, m, r)
		if r.Sign() == 0 {
			A.t[k] = q
			continue
		}
		B.t[k] = v
	}
	qc, rc := new(big.Int), new(big.Int)
	qc.DivMod(p.c, m, rc)
	A.c = qc
	B.c = rc
	if len(B.t) == 0 {
		return A, B
	}
	iv := e.ivOf(B)
	if iv.within(big0, m) {
		return A, B
	}
	if iv.lo != nil && iv.hi != nil {
		l, h := floorDiv(iv.lo, m), floorDiv(iv.hi, m)
		if l.Cmp(h) == 0 {
			return padd(A, pconst(l), big1), padd(B, pconst(new(big.Int).Mul(l, m)), big.NewInt(-1))
		}
	}
	q, r := e.dm(B, m)
	return padd(A, q, big1), r
}

// dm introduces (or reuses) quotient and remainder of B by m; no simplification applies any more.
func (e *intEnc) dm(B *poly, m *big.Int) (*poly, *poly) {
	// common factor of all coefficients and m
	g := new(big.Int).Set(m)
	for _, v := range B.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
		if g.Cmp(big1) == 0 {
			break
		}
	}
	if g.Cmp(big1) > 0 {
		n := &poly{t: map[string]*big.Int{}, c: floorDiv(B.c, g)}
		for k, v := range B.t {
			n.t[k] = new(big.Int).Quo(v, g)
		}
		md := new(big.Int).Quo(m, g)
		q, r := e.divmod(n, md)
		rest := floorMod(B.c, g)
		return q, padd(pscale(r, g), pconst(rest), big1)
	}
	// floor(floor(x/a)/b) = floor(x/(ab))
	if len(B.t) == 1 && B.c.Sign() == 0 {
		for k, v := range B.t {
			if ids := e.factors(k); len(ids) == 1 && v.Cmp(big1) == 0 {
				a := e.atoms[ids[0]]
				if a.kind == 'q' && a.div != nil {
					q, _ := e.divmod(a.base, new(big.Int).Mul(a.div, m))
					// remainder expressed through the quotient
					return q, padd(B, pscale(q, m), big.NewInt(-1))
				}
			}
		}
	}
	key := B.key() + "%" + m.Text(36)
	if x, ok := e.divs[key]; ok {
		return x[0], x[1]
	}
	iv := e.ivOf(B)
	qi := ival{}
	if iv.lo != nil {
		qi.lo = floorDiv(iv.lo, m)
	}
	if iv.hi != nil {
		qi.hi = floorDiv(iv.hi, m)
	}
	s := e.str(B)
	qa, q := e.newAtom('q', qi)
	qa.base, qa.div = B, m
	e.declare(qa)
	// congruent dividends share the remainder
	rkey := e.residue(B, m).key() + "%r" + m.Text(36)
	ra, r := e.rems[rkey], (*poly)(nil)
	if ra == nil {
		ra, r = e.newAtom('r', ival{big0, new(big.Int).Sub(m, big1)})
		ra.base, ra.div = B, m
		e.declare(ra)
		e.rems[rkey] = ra
	} else {
		r = &poly{t: map[string]*big.Int{fmt.Sprintf("a%d", ra.id): big1}, c: big0}
	}
	qa.rem = ra
	ra.quots = append(ra.quots, qa)
	e.anyQ = true
	fmt.Fprintf(&e.sb, "(assert (= %s (+ (* %s a%d) a%d)))\n", s, ilit(m), qa.id, ra.id)
	e.divs[key] = [2]*poly{q, r}
	return q, r
}

// reduceC reduces every coefficient into [0,m).
func (e *intEnc) reduceC(p *poly, m *big.Int) *poly {
	n := &poly{t: map[string]*big.Int{}, c: floorMod(p.c, m)}
	for k, v := range p.t {
		if r := floorMod(v, m); r.Sign() != 0 {
			n.t[k] = r
		}
	}
	return n
}

// residue is a polynomial congruent to p modulo m that recognises equal residues.
func (e *intEnc) residue(p *poly, m *big.Int) *poly {
	p = e.reduceC(p, m)
	if e.wide {
		// replace remainders by dividend and quotient, the latest first: carries cancel
		x := p
		for len(x.t) < 20000 {
			top := -1
			var tk string
			for k := range x.t {
				ids := e.factors(k)
				if len(ids) != 1 {
					continue
				}
				if a := e.atoms[ids[0]]; a.kind == 'r' && a.div != nil && len(a.quots) > 0 && a.id > top {
					top, tk = a.id, k
				}
			}
			if top < 0 {
				break
			}
			a := e.atoms[top]
			v := x.t[tk]
			n := &poly{t: map[string]*big.Int{}, c: x.c}
			for k, y := range x.t {
				if k != tk {
					n.t[k] = y
				}
			}
			n = padd(n, a.base, v)
			x = e.reduceC(padd(n, &poly{t: map[string]*big.Int{fmt.Sprintf("a%d", a.quots[0].id): a.div}, c: big0}, new(big.Int).Neg(v)), m)
		}
		clean := true
		for k := range x.t {
			for _, id := range e.factors(k) {
				clean = clean && e.atoms[id].kind != 'q' && e.atoms[id].kind != 'r'
			}
		}
		if clean {
			return x
		}
	}
	return e.recombineMod(p, m)
}

// sameResidue reports that p is x - r for a remainder r of some m, where x is in [0,m) and congruent to r.
func (e *intEnc) sameResidue(p *poly) bool {
	for _, k := range p.sorted() {
		ids := e.factors(k)
		if len(ids) != 1 || p.t[k].CmpAbs(big1) != 0 {
			continue
		}
		a := e.atoms[ids[0]]
		if a.kind != 'r' || a.div == nil || a.base.t[k] != nil {
			continue
		}
		x := &poly{t: map[string]*big.Int{}, c: p.c}
		for j, v := range p.t {
			if j != k {
				x.t[j] = v
			}
		}
		if p.t[k].Sign() > 0 {
			x = pscale(x, big.NewInt(-1))
		}
		if !e.ivOf(x).within(big0, a.div) {
			continue
		}
		if r := e.residue(padd(x, a.base, big.NewInt(-1)), a.div); r.isConst() && r.c.Sign() == 0 {
			return true
		}
	}
	return false
}

// recombine rewrites v*m*q + v*r to v*B for a quotient and remainder of one division of B by m.
func (e *intEnc) recombine(p *poly) *poly { return e.recombineMod(p, nil) }

// recombineMod does so up to congruence modulo a number.
func (e *intEnc) recombineMod(p *poly, mod *big.Int) *poly {
	if !e.anyQ || len(p.t) < 2 {
		return p
	}
	rounds := 20
	if mod != nil {
		rounds = 4000
		p = e.reduceC(p, mod)
	}
	for round := 0; round < rounds; round++ {
		ch := false
		for _, k := range p.sorted() {
			v := p.t[k]
			if strings.IndexByte(k, '.') >= 0 {
				continue
			}
			a := e.atoms[e.factors(k)[0]]
			if a.kind != 'q' || a.rem == nil {
				continue
			}
			rk := fmt.Sprintf("a%d", a.rem.id)
			w := p.t[rk]
			if w == nil {
				continue
			}
			if x := new(big.Int).Mul(w, a.div); x.Cmp(v) != 0 && (mod == nil || new(big.Int).Mod(x.Sub(x, v), mod).Sign() != 0) {
				continue
			}
			n := &poly{t: map[string]*big.Int{}, c: p.c}
			for x, y := range p.t {
				if x != k && x != rk {
					n.t[x] = y
				}
			}
			p = padd(n, a.base, w)
			if mod != nil {
				p = e.reduceC(p, mod)
			}
			ch = true
			break
		}
		if !ch {
			return p
		}
	}
	return p
}

// unbase rewrites v*B - v*m*q to v*r for a quotient and remainder of one division of B by m.
func (e *intEnc) unbase(p *poly) *poly {
	if !e.anyQ || len(p.t) < 2 {
		return p
	}
	again := false
	for _, k := range p.sorted() {
		v := p.t[k]
		if v == nil || v.Sign() > 0 || strings.IndexByte(k, '.') >= 0 {
			continue
		}
		a := e.atoms[e.factors(k)[0]]
		if a.kind != 'q' || a.rem == nil {
			continue
		}
		x, y := new(big.Int).QuoRem(new(big.Int).Neg(v), a.div, new(big.Int))
		if y.Sign() != 0 {
			continue
		}
		r := &poly{t: map[string]*big.Int{fmt.Sprintf("a%d", a.rem.id): x}, c: new(big.Int)}
		r.t[k] = new(big.Int).Neg(v)
		n := padd(padd(p, a.base, new(big.Int).Neg(x)), r, big1)
		if len(n.t) < len(p.t) {
			p, again = n, true
		}
	}
	if again {
		return e.unbase(p)
	}
	return p
}

// reduce replaces remainder atoms by their dividends where that is a congruence modulo m and drops multiples of m.
func (e *intEnc) reduce(p *poly, m *big.Int) *poly {
	half := new(big.Int).Rsh(m, 1)
	n := &poly{t: map[string]*big.Int{}, c: floorMod(p.c, m)}
	if n.c.Cmp(half) > 0 {
		n.c = new(big.Int).Sub(n.c, m)
	}
	ch := false
	for k, v := range p.t {
		r := floorMod(v, m)
		if r.Sign() == 0 {
			ch = true
			continue
		}
		if r.Cmp(half) > 0 {
			r.Sub(r, m)
		}
		if r.Cmp(v) != 0 {
			ch = true
		}
		n.t[k] = r
	}
	if !ch && n.c.Cmp(p.c) == 0 {
		return p
	}
	return n
}

// expand substitutes remainder atoms r = base mod d by base when coefficient*d is a multiple of m.
func (e *intEnc) expand(p *poly, m *big.Int) *poly {
	for round := 0; round < 20; round++ {
		var hit string
		var base *poly
		for k, v := range p.t {
			ids := e.factors(k)
			if len(ids) != 1 {
				continue
			}
			a := e.atoms[ids[0]]
			if a.kind != 'r' || a.div == nil {
				continue
			}
			x := new(big.Int).Mul(v, a.div)
			if new(big.Int).Mod(x, m).Sign() == 0 {
				hit, base = k, a.base
				break
			}
		}
		if hit == "" {
			return p
		}
		v := p.t[hit]
		n := &poly{t: map[string]*big.Int{}, c: p.c}
		for k, x := range p.t {
			if k != hit {
				n.t[k] = x
			}
		}
		p = e.reduce(padd(n, base, v), m)
		if len(p.t) > 5000 {
			return p
		}
	}
	return p
}

// ---- terms ----

func (e *intEnc) rawOf(t *Term) *poly {
	if p, ok := e.raw[t]; ok {
		return e.subst(p)
	}
	p := e.recombine(e.rawOf1(t))
	e.raw[t] = p
	return p
}

func (e *intEnc) canonOf(t *Term) *poly {
	if p, ok := e.canon[t]; ok {
		return e.subst(p)
	}
	m := pow2(t.w)
	p := e.rawOf(t)
	if !e.ivOf(p).within(big0, m) {
		r := e.reduce(p, m)
		if e.ivOf(r).within(big0, m) {
			p = r
		} else {
			if !e.wide {
				r = e.expand(r, m)
			}
			if e.wide && e.nonNeg(p, m) {
				e.canon[t] = p
				return p
			}
			_, p = e.divmod(r, m)
		}
	}
	e.canon[t] = p
	return p
}

func (e *intEnc) signedOf(t *Term) *poly {
	if p, ok := e.sgn[t]; ok {
		return e.subst(p)
	}
	h, m := pow2(t.w-1), pow2(t.w)
	nh := new(big.Int).Neg(h)
	if t.op == OExtract && t.hi == t.args[0].w-1 && t.lo > 0 {
		// an arithmetic shift
		p, _ := e.divmod(e.signedOf(t.args[0]), pow2(t.lo))
		e.sgn[t] = p
		return p
	}
	p := e.rawOf(t)
	if !e.ivOf(p).within(nh, h) {
		r := e.reduce(p, m)
		if e.ivOf(r).within(nh, h) {
			p = r
		} else {
			if !e.wide {
				r = e.expand(r, m)
			}
			if e.ivOf(r).within(nh, h) {
				p = r
			} else {
				_, x := e.divmod(padd(r, pconst(h), big1), m)
				p = padd(x, pconst(h), big.NewInt(-1))
			}
		}
	}
	e.sgn[t] = p
	return p
}

func (e *intEnc) varPoly(t *Term) *poly {
	e.vars = append(e.vars, t)
	b := e.bnds[t]
	h := pow2(t.w - 1)
	top := new(big.Int).Sub(pow2(t.w), big1)
	if b != nil && b.slo != nil && b.shi != nil && b.slo.Sign() < 0 && (b.slo.Cmp(new(big.Int).Neg(h)) > 0 || b.shi.Cmp(new(big.Int).Sub(h, big1)) < 0) {
		a, p := e.newAtom('v', ival{b.slo, b.shi})
		e.declare(a)
		return p
	}
	lo, hi := big0, top
	if b != nil {
		if b.ulo != nil && b.ulo.Cmp(lo) > 0 {
			lo = b.ulo
		}
		if b.uhi != nil && b.uhi.Cmp(hi) < 0 {
			hi = b.uhi
		}
		if b.slo != nil && b.slo.Sign() >= 0 && b.shi != nil {
			if b.slo.Cmp(lo) > 0 {
				lo = b.slo
			}
			if b.shi.Cmp(hi) < 0 {
				hi = b.shi
			}
		}
	}
	if lo.Cmp(hi) > 0 {
		lo, hi = big0, top
	}
	if lo.Cmp(hi) == 0 {
		return pconst(lo)
	}
	var cs []int
	for k := range e.cuts[t] {
		if k > 0 && k < t.w && k < hi.BitLen() {
			cs = append(cs, k)
		}
	}
	if len(cs) == 0 || len(cs) > 16 {
		a, p := e.newAtom('v', ival{lo, hi})
		e.declare(a)
		return p
	}
	sort.Ints(cs)
	cs = append(cs, hi.BitLen())
	r := pconst(big0)
	at := 0
	for _, k := range cs {
		mx := new(big.Int).Sub(pow2(k-at), big1)
		if k == hi.BitLen() {
			mx = new(big.Int).Rsh(hi, uint(at))
		}
		a, p := e.newAtom('v', ival{big0, mx})
		e.declare(a)
		r = padd(r, p, pow2(at))
		at = k
	}
	iv := e.ivOf(r)
	if iv.lo.Cmp(lo) < 0 {
		fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", ilit(lo), e.str(r))
	}
	if iv.hi.Cmp(hi) > 0 {
		fmt.Fprintf(&e.sb, "(assert (<= %s %s))\n", e.str(r), ilit(hi))
	}
	return r
}

// nonNeg asks the solver whether a value that is below m and could be negative by its interval is ever so.
func (e *intEnc) nonNeg(p *poly, m *big.Int) bool {
	iv := e.ivOf(p)
	if iv.lo == nil || iv.hi == nil || iv.lo.Sign() >= 0 || iv.hi.Cmp(m) >= 0 || iv.lo.CmpAbs(m) >= 0 {
		return false
	}
	if !proveLemma(e.sb.String(), "(assert (< "+e.str(p)+" 0))\n") {
		return false
	}
	e.learn(pscale(p, big.NewInt(-1)), 0)
	fmt.Fprintf(&e.sb, "(assert (<= 0 %s))\n", e.str(p))
	return true
}

func addIv(x, y ival, f int) (r ival) {
	if f < 0 {
		y.lo, y.hi = y.hi, y.lo
	}
	add := func(a, b *big.Int) *big.Int {
		if a == nil || b == nil {
			return nil
		}
		if f < 0 {
			return new(big.Int).Sub(a, b)
		}
		return new(big.Int).Add(a, b)
	}
	return ival{add(x.lo, y.lo), add(x.hi, y.hi)}
}

// known records a range of p that follows from how it was built.
func (e *intEnc) known(p *poly, iv ival) {
	if len(p.t) < 2 {
		return
	}
	cur := e.ivOf(p)
	if (iv.lo == nil || cur.lo != nil && cur.lo.Cmp(iv.lo) >= 0) && (iv.hi == nil || cur.hi != nil && cur.hi.Cmp(iv.hi) <= 0) {
		return
	}
	e.gen++
	set := func(v *poly, lo, hi *big.Int) {
		f := e.facts[v.varKey()]
		if lo != nil && (f.lo == nil || lo.Cmp(f.lo) > 0) {
			f.lo = lo
		}
		if hi != nil && (f.hi == nil || hi.Cmp(f.hi) < 0) {
			f.hi = hi
		}
		e.facts[v.varKey()] = f
	}
	v := &poly{t: p.t, c: big0}
	var lo, hi, nlo, nhi *big.Int
	if iv.lo != nil {
		lo = new(big.Int).Sub(iv.lo, p.c)
		nhi = new(big.Int).Neg(lo)
	}
	if iv.hi != nil {
		hi = new(big.Int).Sub(iv.hi, p.c)
		nlo = new(big.Int).Neg(hi)
	}
	set(v, lo, hi)
	set(pscale(v, big.NewInt(-1)), nlo, nhi)
}

// slice is bits hi..lo of a non-negative value, written so that adjacent slices add up to the value.
func (e *intEnc) slice(p *poly, hi, lo int) *poly {
	a, b := p, pconst(big0)
	if lo > 0 {
		a, _ = e.divmod(p, pow2(lo))
	}
	b, _ = e.divmod(p, pow2(hi+1))
	if b.isConst() && b.c.Sign() == 0 {
		return a
	}
	n := pow2(hi + 1 - lo)
	r := padd(a, b, new(big.Int).Neg(n))
	if len(r.t) > 1 {
		e.known(r, ival{big0, new(big.Int).Sub(n, big1)})
		if s := e.str(r); !e.sliced[s] {
			e.sliced[s] = true
			fmt.Fprintf(&e.sb, "(assert (<= 0 %s %s))\n", s, ilit(new(big.Int).Sub(n, big1)))
		}
	}
	return r
}

// bits extracts bits hi..lo of the canonical value of t.
func (e *intEnc) bits(t *Term, hi, lo int) *poly {
	var p *poly
	m := pow2(hi + 1)
	if e.wide {
		return e.slice(e.canonOf(t), hi, lo)
	}
	r := e.rawOf(t)
	if hi+1 == t.w {
		p = e.canonOf(t)
	} else {
		if e.ivOf(r).within(big0, m) {
			p = r
		} else {
			r = e.expand(e.reduce(r, m), m)
			_, p = e.divmod(r, m)
		}
	}
	if lo > 0 {
		p, _ = e.divmod(p, pow2(lo))
	}
	return p
}

func (e *intEnc) iteP(c string, a, b *poly) *poly {
	switch c {
	case "true":
		return a
	case "false":
		return b
	}
	if a.key() == b.key() {
		return a
	}
	k := c + "?" + a.key() + ":" + b.key()
	if p, ok := e.ites[k]; ok {
		return p
	}
	// factor the common part out
	d := padd(a, b, big.NewInt(-1))
	x, y := e.ivOf(a), e.ivOf(b)
	var p *poly
	if d.isConst() {
		// b + ite(c, d, 0)
		lo, hi := big0, d.c
		if d.c.Sign() < 0 {
			lo, hi = d.c, big0
		}
		at, v := e.newAtom('i', ival{lo, hi})
		fmt.Fprintf(&e.sb, "(define-fun a%d () Int (ite %s %s 0))\n", at.id, c, ilit(d.c))
		p = padd(b, v, big1)
	} else {
		if e.thenD != nil || e.otherD != nil {
			x, y = e.under(a, e.thenD, 0), e.under(b, e.otherD, 0)
		}
		iv := join(x, y)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
			iv = join(e.ivOf(a), e.ivOf(b))
		}
		sa, sb := e.str(a), e.str(b)
		at, v := e.newAtom('i', iv)
		fmt.Fprintf(&e.sb, "(define-fun a%d () Int (ite %s %s %s))\n", at.id, c, sa, sb)
		if e.thenD != nil || e.otherD != nil {
			at.then, at.other = &branch{a, e.thenD}, &branch{b, e.otherD}
		}
		p = v
	}
	e.ites[k] = p
	return p
}

func trailZ(e *intEnc, p *poly) int {
	n := 1 << 20
	if p.c.Sign() != 0 {
		n = int(p.c.TrailingZeroBits())
	}
	for _, v := range p.t {
		n = min(n, int(new(big.Int).Abs(v).TrailingZeroBits()))
	}
	return n
}

// maskPoly is x & m for constant m.
func (e *intEnc) maskPoly(t *Term, m *big.Int) *poly {
	r := pconst(big0)
	i := 0
	for i < t.w {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < t.w && m.Bit(j) == 1 {
			j++
		}
		r = padd(r, e.bits(t, j-1, i), pow2(i))
		i = j
	}
	return r
}

func (e *intEnc) divTerms(p, d *poly) (*poly, *poly) {
	if d.isConst() {
		if d.c.Sign() <= 0 {
			e.bad("division by non-positive constant")
		}
		return e.divmod(p, d.c)
	}
	div := e.ivOf(d)
	if div.lo == nil || div.lo.Sign() <= 0 {
		return nil, nil
	}
	key := p.key() + "%%" + d.key()
	if x, ok := e.divs[key]; ok {
		return x[0], x[1]
	}
	iv := e.ivOf(p)
	qi := ival{}
	ri := ival{lo: big0}
	if div.hi != nil {
		ri.hi = new(big.Int).Sub(div.hi, big1)
	}
	if iv.lo != nil && iv.lo.Sign() >= 0 {
		qi.lo = big0
		if div.hi != nil {
			qi.lo = floorDiv(iv.lo, div.hi)
		}
		if iv.hi != nil {
			qi.hi = floorDiv(iv.hi, div.lo)
			if ri.hi == nil || iv.hi.Cmp(ri.hi) < 0 {
				ri.hi = iv.hi
			}
		}
	} else if iv.lo != nil && iv.hi != nil {
		mx := iv.lo
		if new(big.Int).Abs(iv.hi).Cmp(new(big.Int).Abs(mx)) > 0 {
			mx = iv.hi
		}
		a := new(big.Int).Add(new(big.Int).Abs(mx), big1)
		qi = ival{new(big.Int).Neg(a), a}
	}
	qa, q := e.newAtom('Q', qi)
	e.declare(qa)
	ra, r := e.newAtom('R', ri)
	e.declare(ra)
	prod := e.pmul(d, q)
	fmt.Fprintf(&e.sb, "(assert (= %s %s))\n", e.str(p), e.str(padd(prod, r, big1)))
	fmt.Fprintf(&e.sb, "(assert (< a%d %s))\n", ra.id, e.str(d))
	e.divs[key] = [2]*poly{q, r}
	return q, r
}

func (e *intEnc) rawOf1(t *Term) *poly {
	if t.w == WInt {
		return e.intOf(t)
	}
	switch t.op {
	case OConst:
		return pconst(t.cbig())
	case OVar:
		return e.varPoly(t)
	case OAdd:
		p := e.rawOf(t.args[0])
		for _, a := range t.args[1:] {
			p = padd(p, e.rawOf(a), big1)
		}
		p = e.unbase(p)
		if e.wide {
			iv := ival{big0, big0}
			for _, a := range t.args {
				iv = addIv(iv, e.ivOf(e.rawOf(a)), 1)
			}
			e.known(p, iv)
		}
		return e.reduce(p, pow2(t.w))
	case OSub:
		a, b := e.rawOf(t.args[0]), e.rawOf(t.args[1])
		p := e.unbase(padd(a, b, big.NewInt(-1)))
		if e.wide {
			e.known(p, addIv(e.ivOf(a), e.ivOf(b), -1))
		}
		return e.reduce(p, pow2(t.w))
	case ONeg:
		return pscale(e.rawOf(t.args[0]), big.NewInt(-1))
	case OBNot:
		return padd(pconst(big.NewInt(-1)), e.rawOf(t.args[0]), big.NewInt(-1))
	case OMul:
		p := e.mulArg(t.args[0])
		for _, a := range t.args[1:] {
			a := e.mulArg(a)
			x := mulIv(e.ivOf(p), e.ivOf(a))
			p = e.pmul(p, a)
			if e.wide {
				e.known(p, x)
			}
		}
		return e.reduce(p, pow2(t.w))
	case OConcat:
		p := pconst(big0)
		w := t.w
		first := true
		for _, a := range t.args {
			w -= a.w
			if a.isConst() {
				p = padd(p, pconst(new(big.Int).Lsh(a.cbig(), uint(w))), big1)
				first = first && a.cbig().Sign() == 0 && false
				continue
			}
			// the most significant part may stay unreduced
			x := a
			if w+a.w == t.w {
				p = padd(p, e.rawOf(x), pow2(w))
			} else {
				p = padd(p, e.canonOf(x), pow2(w))
			}
			first = false
		}
		return p
	case OExtract:
		if t.lo == 0 {
			if t.w > 32 && t.args[0].op == OVar {
				// congruent as it is; whoever needs the low bits alone reduces it
				return e.rawOf(t.args[0])
			}
			if e.wide {
				h := pow2(t.hi)
				if p := e.rawOf(t.args[0]); e.ivOf(p).within(new(big.Int).Neg(h), h) {
					return p
				}
				if p := e.signedOf(t.args[0]); e.ivOf(p).within(new(big.Int).Neg(h), h) {
					return p
				}
				return e.slice(e.canonOf(t.args[0]), t.hi, 0)
			}
			return e.reduce(e.rawOf(t.args[0]), pow2(t.w))
		}
		if x := t.args[0]; t.hi == x.w-1 {
			// any representative will do; the signed one keeps the relation to a signed dividend
			iv, h := e.ivOf(e.rawOf(x)), pow2(x.w-1)
			if iv.lo != nil && iv.lo.Sign() < 0 && iv.within(new(big.Int).Neg(h), h) {
				return e.signedOf(t)
			}
		}
		return e.bits(t.args[0], t.hi, t.lo)
	case OSext:
		return e.signedOf(t.args[0])
	case OIte:
		a, b := e.rawOf(t.args[1]), e.rawOf(t.args[2])
		m := pow2(t.w)
		td, od := e.gaps(t.args[0])
		x, y := e.under(a, td, 0), e.under(b, od, 0)
		if !x.within(big0, m) || !y.within(big0, m) {
			h := pow2(t.w - 1)
			nh := new(big.Int).Neg(h)
			// a negative constant is written unsigned; keep the signed form when the other side has it
			if xs, ys := x.within(nh, h), y.within(nh, h); xs != ys && (xs || a.isConst()) && (ys || b.isConst()) {
				if !xs {
					a = e.signedOf(t.args[1])
				} else {
					b = e.signedOf(t.args[2])
				}
			} else if !xs || !ys {
				a, b = e.canonOf(t.args[1]), e.canonOf(t.args[2])
			}
		}
		return e.iteT(t.args[0], a, b)
	case OTab:
		ip := e.canonOf(t.args[0])
		if ip.isConst() && ip.c.IsUint64() && ip.c.Uint64() < uint64(len(t.tab)) {
			return pconst(new(big.Int).SetUint64(t.tab[ip.c.Uint64()]))
		}
		// a multiple of another table over the same index
		for _, b := range e.tabCands[t.args[0]] {
			if b == t {
				continue
			}
			if k, ok := tabMultiple(b, t); ok && !e.tabBusy[b] {
				e.tabBusy[t] = true
				p := e.canonOf(b)
				delete(e.tabBusy, t)
				return pscale(p, k)
			}
		}
		idx := e.str(ip)
		iv := ival{new(big.Int).SetUint64(t.lb), new(big.Int).SetUint64(t.ub)}
		body := tabSMT(t, nil, func(k int) string { return fmt.Sprintf("(< %s %d)", idx, k) }, func(v uint64) string { return fmt.Sprint(v) })
		a, p := e.newAtom('b', iv)
		fmt.Fprintf(&e.sb, "(define-fun a%d () Int %s)\n", a.id, body)
		return p
	case OUdiv, OUrem:
		a, b := e.canonOf(t.args[0]), e.canonOf(t.args[1])
		if b.isConst() && b.c.Sign() == 0 {
			if t.op == OUrem {
				return a
			}
			return pconst(big.NewInt(-1))
		}
		q, r := e.divGuarded(a, b)
		if t.op == OUdiv {
			return q
		}
		return r
	case OSdiv, OSrem:
		a, b := e.signedOf(t.args[0]), e.signedOf(t.args[1])
		bi := e.ivOf(b)
		if bi.lo == nil || bi.lo.Sign() <= 0 {
			e.bad("signed division by a possibly non-positive value")
		}
		ai := e.ivOf(a)
		var q *poly
		if ai.lo != nil && ai.lo.Sign() >= 0 {
			q, _ = e.divTerms(a, b)
		} else {
			q1, _ := e.divTerms(a, b)
			q2, _ := e.divTerms(pscale(a, big.NewInt(-1)), b)
			q = e.iteP(e.cmp(a, "<", true), pscale(q2, big.NewInt(-1)), q1)
		}
		if t.op == OSdiv {
			return q
		}
		return padd(a, e.pmul(q, b), big.NewInt(-1))
	case OBAnd, OBOr, OBXor:
		return e.bitwise(t)
	case OShl, OLshr, OAshr:
		return e.shiftSym(t)
	}
	e.bad("op %s", opNames[t.op])
	return nil
}

func (e *intEnc) mulArg(t *Term) *poly {
	m := pow2(t.w)
	p := e.rawOf(t)
	iv := e.ivOf(p)
	h := new(big.Int).Rsh(m, 1)
	if iv.within(big0, m) || iv.within(new(big.Int).Neg(h), h) {
		return p
	}
	return p
}

// divGuarded handles a divisor that may be zero on paths excluded by other constraints.
func (e *intEnc) divGuarded(a, b *poly) (*poly, *poly) {
	q, r := e.divTerms(a, b)
	if q != nil {
		return q, r
	}
	// x / max(b,1): callers have the path constraint b != 0
	z := e.cmp(padd(b, pconst(big1), big.NewInt(-1)), "<", true) // b-1 < 0
	nb := e.iteP(z, pconst(big1), b)
	iv := e.ivOf(nb)
	nb.iv = &ival{big1, iv.hi}
	for k := range nb.t {
		ids := e.factors(k)
		if len(nb.t) == 1 && len(ids) == 1 {
			e.atoms[ids[0]].iv.lo = big1
		}
	}
	q, r = e.divTerms(a, nb)
	if q == nil {
		e.bad("divisor range")
	}
	// bit-vector division by zero yields all ones, remainder the dividend
	return e.iteP(z, pconst(big.NewInt(-1)), q), e.iteP(z, a, r)
}

func (e *intEnc) bitwise(t *Term) *poly {
	if len(t.args) != 2 {
		e.bad("n-ary bitwise")
	}
	a, b := t.args[0], t.args[1]
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		x := e.rawOf(a)
		m := b.cbig()
		and := e.maskPoly(a, m)
		switch t.op {
		case OBAnd:
			return and
		case OBOr:
			return padd(padd(x, pconst(m), big1), and, big.NewInt(-1))
		}
		return padd(padd(x, pconst(m), big1), and, big.NewInt(-2))
	}
	// ite(c, -1, 0) masks
	for i := 0; i < 2; i++ {
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() && t.op == OBAnd {
			c := e.boolOf(a.args[0])
			if isOnes(a.args[1]) && isZero(a.args[2]) {
				return e.iteP(c, e.canonOf(b), pconst(big0))
			}
			if isZero(a.args[1]) && isOnes(a.args[2]) {
				return e.iteP(c, pconst(big0), e.canonOf(b))
			}
		}
		a, b = b, a
	}
	x, y := e.canonOf(a), e.canonOf(b)
	for i := 0; i < 2; i++ {
		tz := trailZ(e, x)
		if tz > 0 && e.ivOf(y).within(big0, pow2(min(tz, t.w))) {
			if t.op == OBAnd {
				return pconst(big0)
			}
			return padd(x, y, big1)
		}
		x, y = y, x
	}
	w := t.w
	bl := func(p *poly) int {
		iv := e.ivOf(p)
		if iv.hi == nil {
			return w
		}
		return iv.hi.BitLen()
	}
	n := min(w, max(bl(x), bl(y)))
	if n <= 8 || (t.op == OBAnd && min(bl(x), bl(y)) <= 8) {
		if t.op == OBAnd {
			n = min(n, min(bl(x), bl(y)))
		}
		r := pconst(big0)
		for i := 0; i < n; i++ {
			p, q := e.bits(a, i, i), e.bits(b, i, i)
			and := e.iteP(e.cmp(padd(padd(p, q, big1), pconst(big.NewInt(2)), big.NewInt(-1)), "=", true), pconst(big1), pconst(big0))
			var v *poly
			switch t.op {
			case OBAnd:
				v = and
			case OBOr:
				v = padd(padd(p, q, big1), and, big.NewInt(-1))
			default:
				v = padd(padd(p, q, big1), and, big.NewInt(-2))
			}
			r = padd(r, v, pow2(i))
		}
		return r
	}
	// over-approximation: the common bits z satisfy 0 <= z <= x, y and x+y-z < 2^w (a model is rechecked)
	e.approx = true
	key := fmt.Sprintf("&%p:%p", a, b)
	if b.id < a.id {
		key = fmt.Sprintf("&%p:%p", b, a)
	}
	var z *poly
	if c, ok := e.divs[key]; ok {
		z = c[0]
	} else {
		hi := e.ivOf(x).hi
		if h := e.ivOf(y).hi; hi == nil || h != nil && h.Cmp(hi) < 0 {
			hi = h
		}
		if hi == nil {
			hi = new(big.Int).Sub(pow2(w), big1)
		}
		za, p := e.newAtom('v', ival{big0, hi})
		e.declare(za)
		z = p
		sx, sy, sz := e.str(x), e.str(y), e.str(z)
		fmt.Fprintf(&e.sb, "(assert (and (<= %s %s) (<= %s %s) (< (- (+ %s %s) %s) %s)))\n", sz, sx, sz, sy, sx, sy, sz, pow2(n))
		e.divs[key] = [2]*poly{z, z}
	}
	switch t.op {
	case OBAnd:
		return z
	case OBOr:
		return padd(padd(x, y, big1), z, big.NewInt(-1))
	}
	return padd(padd(x, y, big1), z, big.NewInt(-2))
}

func (e *intEnc) shiftSym(t *Term) *poly {
	k := t.args[1]
	if k.w > 64 || k.ub > 64 {
		e.bad("symbolic shift")
	}
	kc := e.canonOf(k)
	var r *poly
	for i := int(k.ub); i >= int(k.lb); i-- {
		var v *poly
		switch {
		case t.op == OShl:
			v = pconst(big0)
			if i < t.w {
				_, v = e.divmod(pscale(e.canonOf(t.args[0]), pow2(i)), pow2(t.w))
			}
		case t.op == OLshr:
			v = pconst(big0)
			if i < t.w {
				v, _ = e.divmod(e.canonOf(t.args[0]), pow2(i))
			}
		default:
			v, _ = e.divmod(e.signedOf(t.args[0]), pow2(min(i, t.w-1)))
		}
		if r == nil {
			r = v
		} else {
			r = e.iteP(e.cmp(padd(kc, pconst(big.NewInt(int64(i))), big.NewInt(-1)), "=", true), v, r)
		}
	}
	return r
}

func (e *intEnc) intOf(t *Term) *poly {
	switch t.op {
	case OConst:
		return pconst(t.big)
	case OVar:
		a, p := e.newAtom('v', ival{})
		e.vars = append(e.vars, t)
		e.declare(a)
		return p
	case OIAdd:
		p := e.rawOf(t.args[0])
		for _, a := range t.args[1:] {
			p = padd(p, e.rawOf(a), big1)
		}
		return p
	case OIMul:
		return e.pmul(e.rawOf(t.args[0]), e.rawOf(t.args[1]))
	case OIDiv, OIMod:
		q, r := e.intDiv(e.rawOf(t.args[0]), e.rawOf(t.args[1]))
		if t.op == OIDiv {
			return q
		}
		return r
	case OIte:
		return e.iteT(t.args[0], e.rawOf(t.args[1]), e.rawOf(t.args[2]))
	case OU2I:
		return e.canonOf(t.args[0])
	case OS2I:
		return e.signedOf(t.args[0])
	}
	e.bad("int op %s", opNames[t.op])
	return nil
}

func (e *intEnc) intDiv(p, d *poly) (*poly, *poly) {
	if d.isConst() && d.c.Sign() == 0 {
		return pconst(big0), pconst(big0)
	}
	if d.isConst() && d.c.Sign() < 0 {
		q, r := e.divmod(pscale(p, big.NewInt(-1)), new(big.Int).Neg(d.c))
		return q, pscale(r, big.NewInt(-1))
	}
	q, r := e.divTerms(p, d)
	if q != nil {
		return q, r
	}
	iv := e.ivOf(d)
	if iv.lo == nil || iv.lo.Sign() < 0 {
		e.bad("ghost division by a possibly negative value")
	}
	z := e.cmp(padd(d, pconst(big1), big.NewInt(-1)), "<", true)
	nd := e.iteP(z, pconst(big1), d)
	nd.iv = &ival{big1, e.ivOf(nd).hi}
	for k := range nd.t {
		ids := e.factors(k)
		if len(nd.t) == 1 && len(ids) == 1 {
			e.atoms[ids[0]].iv.lo = big1
		}
	}
	q, r = e.divTerms(p, nd)
	return e.iteP(z, pconst(big0), q), e.iteP(z, pconst(big0), r)
}

// cmp prints p OP 0 (positive) or its negation.
func (e *intEnc) cmp(p *poly, op string, positive bool) string {
	iv := e.ivOf(p)
	res := ""
	switch op {
	case "<":
		if iv.hi != nil && iv.hi.Sign() < 0 {
			res = "true"
		} else if iv.lo != nil && iv.lo.Sign() >= 0 {
			res = "false"
		}
	case "<=":
		if iv.hi != nil && iv.hi.Sign() <= 0 {
			res = "true"
		} else if iv.lo != nil && iv.lo.Sign() > 0 {
			res = "false"
		}
	case "=":
		if p.isConst() {
			res = "false"
			if p.c.Sign() == 0 {
				res = "true"
			}
		} else if iv.hi != nil && iv.hi.Sign() < 0 || iv.lo != nil && iv.lo.Sign() > 0 {
			res = "false"
		} else {
			// gcd test
			g := new(big.Int)
			for _, v := range p.t {
				g.GCD(nil, nil, g, new(big.Int).Abs(v))
			}
			if g.Sign() > 0 && new(big.Int).Mod(p.c, g).Sign() != 0 {
				res = "false"
			} else if e.wide && e.sameResidue(p) {
				res = "true"
			}
		}
	}
	if res != "" {
		if !positive {
			return map[string]string{"true": "false", "false": "true"}[res]
		}
		return res
	}
	s := "(" + op + " " + e.str(p) + " 0)"
	if !positive {
		s = "(not " + s + ")"
	}
	return s
}

func (e *intEnc) boolOf(t *Term) string {
	if s, ok := e.boolv[t]; ok {
		return s
	}
	s := e.boolOf1(t)
	if len(s) > 60 {
		n := fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () Bool %s)\n", n, s)
		s = n
	}
	e.boolv[t] = s
	return s
}

func (e *intEnc) boolOf1(t *Term) string {
	neg := big.NewInt(-1)
	switch t.op {
	case OConst:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case OVar:
		e.vars = append(e.vars, t)
		fmt.Fprintf(&e.sb, "(declare-fun vb%d () Bool)\n", t.id)
		return fmt.Sprintf("vb%d", t.id)
	case ONot:
		s := e.boolOf(t.args[0])
		switch s {
		case "true":
			return "false"
		case "false":
			return "true"
		}
		return "(not " + s + ")"
	case OAnd:
		var parts []string
		for _, a := range t.args {
			s := e.boolOf(a)
			if s == "false" {
				return "false"
			}
			if s != "true" {
				parts = append(parts, s)
			}
		}
		switch len(parts) {
		case 0:
			return "true"
		case 1:
			return parts[0]
		}
		return "(and " + strings.Join(parts, " ") + ")"
	case OIte:
		c, a, b := e.boolOf(t.args[0]), e.boolOf(t.args[1]), e.boolOf(t.args[2])
		if c == "true" {
			return a
		}
		if c == "false" {
			return b
		}
		return "(ite " + c + " " + a + " " + b + ")"
	case OTab:
		idx := e.str(e.canonOf(t.args[0]))
		return tabSMT(t, func(lo, hi int) string {
			if lo == hi {
				return fmt.Sprintf("(= %s %d)", idx, lo)
			}
			return fmt.Sprintf("(<= %d %s %d)", lo, idx, hi)
		}, nil, nil)
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == WBool {
			return "(= " + e.boolOf(a) + " " + e.boolOf(b) + ")"
		}
		if a.w == WInt {
			return e.cmp(padd(e.rawOf(a), e.rawOf(b), neg), "=", true)
		}
		m := pow2(a.w)
		d := e.reduce(padd(e.rawOf(a), e.rawOf(b), neg), m)
		if d.isConst() {
			if d.c.Sign() == 0 {
				return "true"
			}
			return "false"
		}
		if e.ivOf(d).within(new(big.Int).Add(new(big.Int).Neg(m), big1), m) {
			return e.cmp(d, "=", true)
		}
		return e.cmp(padd(e.canonOf(a), e.canonOf(b), neg), "=", true)
	case OUlt, OUle:
		op := "<"
		if t.op == OUle {
			op = "<="
		}
		return e.cmp(padd(e.canonOf(t.args[0]), e.canonOf(t.args[1]), neg), op, true)
	case OSlt, OSle:
		op := "<"
		if t.op == OSle {
			op = "<="
		}
		return e.cmp(padd(e.signedOf(t.args[0]), e.signedOf(t.args[1]), neg), op, true)
	case OILt, OILe:
		op := "<"
		if t.op == OILe {
			op = "<="
		}
		return e.cmp(padd(e.rawOf(t.args[0]), e.rawOf(t.args[1]), neg), op, true)
	}
	e.bad("bool op %s", opNames[t.op])
	return ""
}

// bound collects variable ranges from top-level constraints.
func (e *intEnc) bound(t *Term, pos bool) {
	get := func(v *Term) *varBound {
		b := e.bnds[v]
		if b == nil {
			b = &varBound{}
			e.bnds[v] = b
		}
		return b
	}
	up := func(p **big.Int, v *big.Int) {
		if *p == nil || v.Cmp(*p) < 0 {
			*p = v
		}
	}
	dn := func(p **big.Int, v *big.Int) {
		if *p == nil || v.Cmp(*p) > 0 {
			*p = v
		}
	}
	switch t.op {
	case OAnd:
		if pos {
			for _, a := range t.args {
				e.bound(a, true)
			}
		}
	case ONot:
		e.bound(t.args[0], !pos)
	case OUlt, OUle, OSlt, OSle:
		if !pos {
			return
		}
		a, b := t.args[0], t.args[1]
		strict := big0
		if t.op == OUlt || t.op == OSlt {
			strict = big1
		}
		signed := t.op == OSlt || t.op == OSle
		val := func(x *Term) *big.Int {
			if signed {
				return toSigned(x.cbig(), x.w)
			}
			return x.cbig()
		}
		// look through extensions
		strip := func(x *Term) *Term {
			if signed && x.op == OSext {
				return x.args[0]
			}
			if !signed {
				return stripZ(x)
			}
			return x
		}
		if a.op != OConst && b.op == OConst {
			if v := strip(a); v.op == OVar {
				k := new(big.Int).Sub(val(b), strict)
				if signed {
					up(&get(v).shi, k)
				} else {
					up(&get(v).uhi, k)
				}
			}
		}
		if b.op != OConst && a.op == OConst {
			if v := strip(b); v.op == OVar {
				k := new(big.Int).Add(val(a), strict)
				if signed {
					dn(&get(v).slo, k)
				} else {
					dn(&get(v).ulo, k)
				}
			}
		}
	}
}

func (e *intEnc) findCuts(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	cut := func(v *Term, ks ...int) {
		if v.op != OVar {
			return
		}
		if e.cuts[v] == nil {
			e.cuts[v] = map[int]bool{}
		}
		for _, k := range ks {
			e.cuts[v][k] = true
		}
	}
	switch t.op {
	case OExtract:
		cut(t.args[0], t.lo, t.hi+1)
	case OTab:
		if t.w > WBool && t.w <= 64 {
			for _, v := range t.tab {
				if v == 1 {
					l := append(e.tabCands[t.args[0]], t)
					sort.SliceStable(l, func(i, j int) bool { return l[i].w > l[j].w })
					e.tabCands[t.args[0]] = l
					break
				}
			}
		}
	case OBAnd, OBOr, OBXor:
		if t.args[1].isConst() {
			m := t.args[1].cbig()
			for i := 1; i < t.w; i++ {
				if m.Bit(i) != m.Bit(i-1) {
					cut(t.args[0], i)
				}
			}
		}
	}
	for _, a := range t.args {
		e.findCuts(a, seen)
	}
}

func newIntEnc(linear bool) *intEnc {
	return &intEnc{sliced: map[string]bool{}, fixed: map[string]*poly{}, rems: map[string]*iatom{}, tabCands: map[*Term][]*Term{}, tabBusy: map[*Term]bool{}, facts: map[string]ival{}, raw: map[*Term]*poly{}, canon: map[*Term]*poly{}, sgn: map[*Term]*poly{}, boolv: map[*Term]string{}, divs: map[string][2]*poly{}, ites: map[string]*poly{}, monos: map[string][]int{}, monoIv: map[string]ival{}, emitM: map[string]bool{}, bnds: map[*Term]*varBound{}, cuts: map[*Term]map[int]bool{}, linear: linear}
}

// intScript encodes the conjunction; nil if some operation is outside the encoding.
func intScript(cs []*Term, wide bool) *Script { s, _ := intScriptL(cs, false, wide); return s }

func intScriptL(cs []*Term, linear, wide bool) (sc *Script, nonlin bool) {
	e := newIntEnc(linear)
	e.wide = wide
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(encFail); ok {
				debugf("int encoding: %s\n", f.why)
				sc = nil
				return
			}
			panic(r)
		}
	}()
	seen := map[*Term]bool{}
	for _, c := range cs {
		if c.hasKec {
			return nil, false
		}
		e.bound(c, true)
		e.findCuts(c, seen)
	}
	var as []string
	for i, c := range cs {
		s := e.boolOf(c)
		if s == "false" {
			return &Script{trivial: Unsat}, false
		}
		if s != "true" {
			as = append(as, s)
			if i < len(cs)-1 {
				e.learnTerm(c, true)
			}
		}
	}
	em := newEmitter()
	sc = &Script{em: em}
	for _, v := range e.vars {
		if v.w == WBool {
			em.done[v] = fmt.Sprintf("vb%d", v.id)
		} else {
			n := fmt.Sprintf("val%d", v.id)
			s := e.str(e.rawOf(v))
			fmt.Fprintf(&e.sb, "(define-fun %s () Int %s)\n", n, s)
			em.done[v] = n
		}
		sc.vars = append(sc.vars, v)
	}
	for _, a := range as {
		fmt.Fprintf(&e.sb, "(assert %s)\n", a)
	}
	sc.text = e.sb.String()
	sc.approx = e.approx
	return sc, e.nonlin
}

// tabMultiple finds k with t = k*b modulo 2^t.w entry by entry (0 <= entry of b, b at least as wide).
func tabMultiple(b, t *Term) (*big.Int, bool) {
	if b.w < t.w || len(b.tab) != len(t.tab) || t.w > 64 {
		return nil, false
	}
	var k uint64
	for i, v := range b.tab {
		if v == 1 {
			k = t.tab[i]
		}
	}
	mask := ^uint64(0) >> uint(64-t.w)
	for i, v := range b.tab {
		if (k*v)&mask != t.tab[i] {
			return nil, false
		}
	}
	if b.w == t.w && k == 1 {
		return nil, false
	}
	return new(big.Int).SetUint64(k), true
}
