package crypto

import (
	"crypto/rand"
	"encoding/binary"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// Under the engine the functions of the package edwards25519 are replaced by what C29 and C36 show of them. A scalar
// is a handle to a polynomial in unknown numbers; a point is a handle to a combination of bases, which are the base
// point and one base for each hash, and of the point of order two. What the solver does not prove to be equal is
// different: points and scalars are equal by construction and not by chance.
type verifPoint struct {
	c []vs.Z
	t vs.Z
}

type verifEntry struct {
	b      [32]byte
	scalar bool
	z      vs.Z
	over   bool // the group order was added
	raw    bool // not known to be below the group order
	odd    vs.Z
	hasOdd bool
	p      verifPoint
}

var verifEntries []verifEntry

// verifHashes are the arguments of the map to curve points; hash i has the base i+1.
var verifHashes []verifReduced

type verifReduced struct {
	in []byte
	e  int
}

var verifReductions []verifReduced

const verifMark = 0x5eed3333

func verifHandle(kind byte) [32]byte {
	n := len(verifEntries)
	return [32]byte{byte(n), byte(n >> 8), 0x5e, 0xed, kind, 28: 5, 29: 5, 30: 5, 31: 5}
}

func verifNewScalar(z vs.Z) [32]byte {
	h := verifHandle(1)
	verifEntries = append(verifEntries, verifEntry{b: h, scalar: true, z: z})
	return h
}

func verifFind(b *[32]byte) int {
	for i := range verifEntries {
		if vs.Must(verifEntries[i].b == *b) {
			return i
		}
	}
	return -1
}

// verifScalarOf is the entry of a scalar.
func verifScalarOf(b *[32]byte) *verifEntry {
	i := verifFind(b)
	if i < 0 || !verifEntries[i].scalar {
		if vs.Must(*b == [32]byte{}) {
			return &verifEntry{z: vs.ZI(0), scalar: true, hasOdd: true, odd: vs.ZI(0)}
		}
		verifEntries = append(verifEntries, verifEntry{b: *b, scalar: true, raw: true, z: vs.ZVar("raw", 255)})
		i = len(verifEntries) - 1
	}
	return &verifEntries[i]
}

func (e *verifEntry) parity() vs.Z {
	if !e.hasOdd {
		e.odd = vs.ZVar("odd", 1)
		e.hasOdd = true
	}
	return e.odd
}

func verifZero() verifPoint { return verifPoint{t: vs.ZI(0)} }

func verifBase(i int) verifPoint {
	p := verifZero()
	for len(p.c) < i {
		p.c = append(p.c, vs.ZI(0))
	}
	p.c = append(p.c, vs.ZI(1))
	return p
}

func (p verifPoint) coef(i int) vs.Z {
	if i < len(p.c) {
		return p.c[i]
	}
	return vs.ZI(0)
}

func (p verifPoint) plus(q verifPoint, k int64) verifPoint {
	n := len(p.c)
	if len(q.c) > n {
		n = len(q.c)
	}
	r := verifPoint{t: p.t.Add(q.t)}
	for i := 0; i < n; i++ {
		r.c = append(r.c, p.coef(i).Add(q.coef(i).Mul(vs.ZI(k))))
	}
	return r
}

func (p verifPoint) pure() bool { return vs.Must(p.t.Mod(vs.ZI(2)).Eq(vs.ZI(0))) }

func (p verifPoint) times(b *[32]byte) verifPoint {
	e := verifScalarOf(b)
	r := verifZero()
	for _, c := range p.c {
		r.c = append(r.c, c.Mul(e.z))
	}
	if !p.pure() {
		r.t = p.t.Mul(e.parity())
	}
	return r
}

func (p verifPoint) equal(q verifPoint) bool {
	d := p.plus(q, -1)
	for _, c := range d.c {
		if !vs.Must(c.Eq(vs.ZI(0))) {
			return false
		}
	}
	return d.pure()
}

func verifCoord(i int) ed.FieldElement { return ed.FieldElement{int32(i), 9: verifMark} }

func verifPut(p verifPoint) ed.FieldElement {
	verifPoints = append(verifPoints, p)
	return verifCoord(len(verifPoints) - 1)
}

var verifPoints []verifPoint

func verifGet(f *ed.FieldElement) verifPoint {
	if f[9] != verifMark {
		return verifZero() // the neutral element, or a point nobody set
	}
	return verifPoints[f[0]]
}

func verifEncode(p verifPoint) [32]byte {
	if p.equal(verifZero()) {
		return infinityPoint
	}
	for i := range verifEntries {
		if !verifEntries[i].scalar && verifEntries[i].p.equal(p) {
			return verifEntries[i].b
		}
	}
	h := verifHandle(2)
	verifEntries = append(verifEntries, verifEntry{b: h, p: p})
	return h
}

func verifEToBytes(p *ed.ExtendedGroupElement) [32]byte   { return verifEncode(verifGet(&p.X)) }
func verifPToBytes(p *ed.ProjectiveGroupElement) [32]byte { return verifEncode(verifGet(&p.X)) }

func verifDecode(p *ed.ExtendedGroupElement, b *[32]byte) bool {
	if vs.Must(*b == [32]byte(infinityPoint)) {
		p.X = verifPut(verifZero())
		return true
	}
	if i := verifFind(b); i >= 0 && !verifEntries[i].scalar {
		p.X = verifPut(verifEntries[i].p)
		return true
	}
	return false
}

func verifMultBase(h *ed.ExtendedGroupElement, a *[32]byte) { h.X = verifPut(verifBase(0).times(a)) }

func verifMult(a *[32]byte, A *ed.ExtendedGroupElement) (r ed.ProjectiveGroupElement) {
	r.X = verifPut(verifGet(&A.X).times(a))
	return
}

func verifDouble(r *ed.ProjectiveGroupElement, a *[32]byte, A *ed.ExtendedGroupElement, b *[32]byte) {
	r.X = verifPut(verifGet(&A.X).times(a).plus(verifBase(0).times(b), 1))
}

func verifDSM(s *ed.ExtendedGroupElement) (r [8]ed.CachedGroupElement) {
	f := verifPut(verifGet(&s.X))
	for i := range r {
		r[i].Z = f
	}
	return
}

func verifDoublePre(r *ed.ProjectiveGroupElement, a *[32]byte, A *ed.ExtendedGroupElement, b *[32]byte, Bi [8]ed.CachedGroupElement) {
	r.X = verifPut(verifGet(&A.X).times(a).plus(verifGet(&Bi[0].Z).times(b), 1))
}

func verifSubGroup(p [8]ed.CachedGroupElement) int32 {
	if verifGet(&p[0].Z).pure() {
		return 0
	}
	return 1
}

func verifMul8(r *ed.CompletedGroupElement, t *ed.ProjectiveGroupElement) {
	p := verifZero()
	for _, c := range verifGet(&t.X).c {
		p.c = append(p.c, c.Mul(vs.ZI(8)))
	}
	r.X = verifPut(p)
}

func verifCToP(p *ed.CompletedGroupElement, r *ed.ProjectiveGroupElement) { r.X = p.X }
func verifCToE(p *ed.CompletedGroupElement, r *ed.ExtendedGroupElement)   { r.X = p.X }
func verifEToP(p *ed.ExtendedGroupElement, r *ed.ProjectiveGroupElement)  { r.X = p.X }
func verifToCached(p *ed.ExtendedGroupElement, r *ed.CachedGroupElement)  { r.Z = p.X }

func verifAdd(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.CachedGroupElement) {
	r.X = verifPut(verifGet(&p.X).plus(verifGet(&q.Z), 1))
}

func verifSub(r *ed.CompletedGroupElement, p *ed.ExtendedGroupElement, q *ed.CachedGroupElement) {
	r.X = verifPut(verifGet(&p.X).plus(verifGet(&q.Z), -1))
}

// verifElligator replaces the map from hashes to points: a base of its own for each hash, with an unknown torsion.
func verifElligator(p *ed.ProjectiveGroupElement, s *[32]byte) error {
	k := -1
	for i := range verifHashes {
		if vs.Must([32]byte(*s) == verifArray(verifHashes[i].in)) {
			k = i
		}
	}
	if k < 0 {
		k = len(verifHashes)
		verifHashes = append(verifHashes, verifReduced{in: append([]byte{}, s[:]...)})
	}
	q := verifBase(k + 1)
	q.t = vs.ZVar("torsion", 1)
	p.X = verifPut(q)
	return nil
}

func verifArray(b []byte) (r [32]byte) {
	copy(r[:], b)
	return
}

func verifReduce32(s [32]byte) [32]byte {
	for _, r := range verifReductions {
		if vs.Must(verifArray(r.in) == s) {
			return verifEntries[r.e].b
		}
	}
	var h [32]byte
	if i := verifFind(&s); i >= 0 && verifEntries[i].scalar && !verifEntries[i].raw {
		h = verifNewScalar(verifEntries[i].z)
	} else {
		h = verifNewScalar(vs.ZVar("hash", 253))
	}
	verifReductions = append(verifReductions, verifReduced{append([]byte{}, s[:]...), len(verifEntries) - 1})
	return h
}

func verifReduce64(s [64]byte) [32]byte {
	if vs.Must(verifArray(s[32:]) == [32]byte{}) {
		return verifReduce32(verifArray(s[:32]))
	}
	return verifNewScalar(vs.ZVar("wide", 253))
}

func verifScAdd(a, b *[32]byte) [32]byte {
	return verifNewScalar(verifScalarOf(a).z.Add(verifScalarOf(b).z))
}

func verifScSub(a, b [32]byte) [32]byte {
	return verifNewScalar(verifScalarOf(&a).z.Sub(verifScalarOf(&b).z))
}

func verifScMulSub(a, b, c [32]byte) [32]byte {
	x := verifScalarOf(&c).z
	return verifNewScalar(x.Sub(verifScalarOf(&a).z.Mul(verifScalarOf(&b).z)))
}

func verifScCheck(s [32]byte) bool {
	e := verifScalarOf(&s)
	return !e.over && !e.raw
}

func verifScIsNonZero(s [32]byte) bool {
	e := verifScalarOf(&s)
	return !vs.Must(e.z.Eq(vs.ZI(0)))
}

func verifRandomScalar() EllipticCurveScalar { return verifNewScalar(vs.ZVar("random", 253)) }

// verifScalar is an unknown scalar; natively one that the seed determines.
func verifScalar(name string) [32]byte {
	seed := vs.U64(name)
	if vs.Symbolic() {
		return verifNewScalar(vs.ZVar(name+".z", 253))
	}
	return verifSeeded(name, seed+verifShift<<32+uint64(verifCount(name))<<48)
}

func verifSeeded(name string, seed uint64) [32]byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	return ed.ScReduce32(HashFromBytes(append(b[:], name...)))
}

// verifEqualScalar is a scalar with another encoding of the same number modulo the group order.
func verifPlusOrder(s [32]byte) (r [32]byte) {
	if vs.Symbolic() {
		e := *verifScalarOf(&s)
		e.b = verifHandle(3)
		e.over = true
		e.hasOdd = false
		verifEntries = append(verifEntries, e)
		return e.b
	}
	copy(r[:], vs.ZBytesLE(s[:]).Add(vs.ZBytesLE(L[:])).Bytes(32))
	return
}

// verifPlusOne is the next scalar.
func verifPlusOne(s [32]byte) (r [32]byte) {
	if vs.Symbolic() {
		return verifNewScalar(verifScalarOf(&s).z.Add(vs.ZI(1)))
	}
	return ed.ScAdd(&s, &[32]byte{1})
}

// verifBadPoint does not decode.
var verifBadPoint = [32]byte{2}

// verifOrder2 is the point of order two.
var verifOrder2 = [32]byte{0xec, 31: 0x7f}

func init() {
	for i := 1; i < 31; i++ {
		verifOrder2[i] = 0xff
	}
}

// verifTwist adds the point of order two.
func verifTwist(b [32]byte) [32]byte {
	if vs.Symbolic() {
		p := verifEntries[verifFind(&b)].p
		return verifEncode(p.plus(verifPoint{t: vs.ZI(1)}, 1))
	}
	p, _ := ed.GeFromBytes(&b)
	q, _ := ed.GeFromBytes(&verifOrder2)
	return verifSum(p, q, false)
}

func verifSum(p, q *ed.ExtendedGroupElement, minus bool) [32]byte {
	var c ed.CachedGroupElement
	var r ed.CompletedGroupElement
	var s ed.ProjectiveGroupElement
	q.ToCached(&c)
	if minus {
		ed.GeSub(&r, p, &c)
	} else {
		ed.GeAdd(&r, p, &c)
	}
	r.ToProjective(&s)
	return s.ToBytes()
}

// verifTimes is s*P, verifG is s*G.
func verifTimes(s [32]byte, p [32]byte) [32]byte {
	q, _ := ed.GeFromBytes(&p)
	r := ed.GeScalarMult(&s, q)
	return r.ToBytes()
}

func verifG(s [32]byte) [32]byte {
	var r ed.ExtendedGroupElement
	ed.GeScalarMultBase(&r, &s)
	return r.ToBytes()
}

func verifPlus(p, q [32]byte) [32]byte {
	a, _ := ed.GeFromBytes(&p)
	b, _ := ed.GeFromBytes(&q)
	return verifSum(a, b, false)
}

// verifHp is the point that belongs to a key: eight times the image of its hash.
func verifHp(p [32]byte) [32]byte {
	h := [32]byte(HashFromBytes(p[:]))
	var a ed.ProjectiveGroupElement
	var b ed.CompletedGroupElement
	if a.FromBytes(&h) != nil {
		return [32]byte{}
	}
	ed.GeMul8(&b, &a)
	b.ToProjective(&a)
	return a.ToBytes()
}

// verifHs is a hash as a scalar.
func verifHs(parts ...[]byte) [32]byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return ed.ScReduce32(HashFromBytes(b))
}

// verifOdd tells whether a scalar is odd.
func verifOdd(s [32]byte) bool {
	if vs.Symbolic() {
		return vs.Must(verifScalarOf(&s).parity().Eq(vs.ZI(1)))
	}
	return s[0]&1 == 1
}

// verifShift is the number of nonces tried.
var verifShift uint64

type verifRand struct {
	seed uint64
	n    *uint64
}

func (r verifRand) Read(b []byte) (int, error) {
	for i := range b {
		if i%32 == 0 {
			*r.n++
		}
		s := verifSeeded("random", r.seed^*r.n<<32)
		b[i] = s[i%32]
	}
	return len(b), nil
}

// verifStart begins a harness with nothing known.
func verifStart() {
	verifEntries, verifHashes, verifReductions, verifPoints = nil, nil, nil, nil
	verifShift, verifCounts = 0, map[string]int{}
	seed := vs.U64("randomness")
	if !vs.Symbolic() {
		rand.Reader = verifRand{seed, new(uint64)}
	}
}

var verifCounts map[string]int

// verifCount numbers the scalars of the same name.
func verifCount(name string) int {
	verifCounts[name]++
	return verifCounts[name]
}
