package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// Under the engine a field element is a handle to an integer and to a bound of its limbs (in percent
// of 2^25 and 2^24); the field operations are replaced by what C28 shows of them. Natively it is a
// field element.
type verifRec struct {
	z     vs.Z
	bound int64
	l, r  vs.Z // the factors of a product
}

var verifRecs []verifRec

const verifMark = 0x5eed0000

func verifHandle(z vs.Z, bound int64) (f FieldElement) {
	if !vs.Symbolic() {
		var s [32]byte
		copy(s[:], z.Mod(vs.ZStr(verifPrime)).Bytes(32))
		FeFromBytes(&f, &s)
		return f
	}
	verifRecs = append(verifRecs, verifRec{z: z, bound: bound})
	f[0] = int32(len(verifRecs) - 1)
	f[9] = verifMark
	f[8] = verifMark
	return f
}

func verifGet(f *FieldElement) verifRec {
	if f[9] == verifMark && f[8] == verifMark {
		return verifRecs[f[0]]
	}
	b := int64(0)
	for i := range f {
		x := int64(f[i])
		if x < 0 {
			x = -x
		}
		if i%2 == 1 {
			x *= 2
		}
		x = (x*100 + 1<<25 - 1) >> 25
		if x > b {
			b = x
		}
	}
	return verifRec{z: verifVal(f), bound: b}
}

func verifZ(f *FieldElement) vs.Z { return verifGet(f).z }

const verifEncodable = 220

func verifLimit(b, limit int64) {
	vs.Assert(b <= limit, "operands stay within the bounds the field arithmetic needs")
}

func verifFeAdd(h, f, g *FieldElement) {
	a, b := verifGet(f), verifGet(g)
	verifLimit(a.bound, 400)
	verifLimit(b.bound, 400)
	*h = verifHandle(a.z.Add(b.z), a.bound+b.bound)
}

func verifFeSub(h, f, g *FieldElement) {
	a, b := verifGet(f), verifGet(g)
	verifLimit(a.bound, 400)
	verifLimit(b.bound, 400)
	*h = verifHandle(a.z.Sub(b.z), a.bound+b.bound)
}

func verifFeNeg(h, f *FieldElement) {
	a := verifGet(f)
	verifLimit(a.bound, 400)
	*h = verifHandle(vs.ZI(0).Sub(a.z), a.bound)
}

func verifFeMul(h, f, g *FieldElement) {
	a, b := verifGet(f), verifGet(g)
	verifLimit(a.bound, 330)
	verifLimit(b.bound, 330)
	*h = verifHandle(a.z.Mul(b.z), 101)
	if vs.Symbolic() {
		verifRecs[h[0]].l, verifRecs[h[0]].r = a.z, b.z
	}
}

func verifFeSquare(h, f *FieldElement) {
	a := verifGet(f)
	verifLimit(a.bound, 330)
	*h = verifHandle(a.z.Mul(a.z), 101)
}

func verifFeSquare2(h, f *FieldElement) {
	a := verifGet(f)
	verifLimit(a.bound, 330)
	*h = verifHandle(a.z.Mul(a.z).Mul(vs.ZI(2)), 101)
}

// verifBytesOf replaces FeToBytes by what C28 shows of it.
func verifBytesOf(s *[32]byte, h FieldElement) {
	a := verifGet(&h)
	verifLimit(a.bound, verifEncodable)
	copy(s[:], vs.Bytes("encoding", 32))
	z := vs.ZBytesLE(s[:])
	vs.Assume(z.Lt(vs.ZStr(verifPrime)))
	vs.Assume(z.Eq(a.z.Mod(vs.ZStr(verifPrime))))
}

// verifNonZero replaces FeIsNonZero by what C28 shows of it.
func verifNonZero(f *FieldElement) int32 {
	a := verifGet(f)
	verifLimit(a.bound, verifEncodable)
	if verifZero(a.z) {
		return 0
	}
	return 1
}

func verifZero(z vs.Z) bool { return z.Mod(vs.ZStr(verifPrime)).Eq(vs.ZI(0)) }

// verifFacts is what holds on a path without being an assumption (no solver has to find field elements for which
// it holds); every assertion about the result is made under it.
var verifFacts = true

func verifFact(c bool) { verifFacts = vs.And(verifFacts, c) }

// verifBytesFact is verifBytesOf with facts, and with nothing known about all bytes but the first.
func verifBytesFact(s *[32]byte, h FieldElement) {
	a := verifGet(&h)
	verifLimit(a.bound, verifEncodable)
	copy(s[:], vs.Bytes("encoding", 32))
	z := vs.ZI(int64(s[0])).Add(vs.ZI(256).Mul(vs.ZVar("encodings", 247)))
	verifFact(z.Lt(vs.ZStr(verifPrime)))
	verifFact(z.Eq(a.z.Mod(vs.ZStr(verifPrime))))
}

// verifNegativeFact replaces FeIsNegative by what C28 shows of it.
func verifNegativeFact(f *FieldElement) byte {
	a := verifGet(f)
	verifLimit(a.bound, verifEncodable)
	b := byte(vs.Int("negative", 0, 1))
	verifFact(a.z.Mod(vs.ZStr(verifPrime)).Eq(vs.ZI(int64(b)).Add(vs.ZI(2).Mul(vs.ZVar("half", 254)))))
	return b
}

// verifNonZeroFact replaces FeIsNonZero by what C28 shows of it.
func verifNonZeroFact(f *FieldElement) int32 {
	a := verifGet(f)
	verifLimit(a.bound, verifEncodable)
	if vs.Int("zero", 0, 1) == 1 {
		verifFact(verifZero(a.z))
		return 0
	}
	verifFact(!verifZero(a.z))
	return 1
}

// verifEqual asserts a congruence modulo the prime.
func verifEqual(a, b vs.Z, what string) {
	verifAssert(verifZero(a.Sub(b)), what)
}

func verifAssert(c bool, what string) {
	if vs.Symbolic() {
		vs.Assert(vs.Or(!verifFacts, c), what)
		return
	}
	vs.Assert(c, what)
}

const verifD = "37095705934669439343138083508754565189542113879843219016388785533085940283555"

// verifAffine is a point given by an arbitrary field value for each coordinate.
type verifAffine struct{ x, y vs.Z }

func verifPoint(name string) verifAffine {
	return verifAffine{verifAny(name + "x"), verifAny(name + "y")}
}

func verifAny(name string) vs.Z {
	z := vs.ZVar(name, 255)
	vs.Assume(z.Lt(vs.ZStr(verifPrime)))
	return z
}

func (a verifAffine) extended(z vs.Z) (p ExtendedGroupElement) {
	p.X = verifHandle(a.x.Mul(z), 101)
	p.Y = verifHandle(a.y.Mul(z), 101)
	p.Z = verifHandle(z, 101)
	p.T = verifHandle(a.x.Mul(a.y).Mul(z), 101)
	return
}

func (a verifAffine) cached(z vs.Z) (p CachedGroupElement) {
	p.yPlusX = verifHandle(a.y.Add(a.x).Mul(z), 202)
	p.yMinusX = verifHandle(a.y.Sub(a.x).Mul(z), 202)
	p.Z = verifHandle(z, 101)
	p.T2d = verifHandle(a.x.Mul(a.y).Mul(z).Mul(vs.ZStr(verifD)).Mul(vs.ZI(2)), 101)
	return
}

func (a verifAffine) precomputed() (p PreComputedGroupElement) {
	p.yPlusX = verifHandle(a.y.Add(a.x), 101)
	p.yMinusX = verifHandle(a.y.Sub(a.x), 101)
	p.xy2d = verifHandle(a.x.Mul(a.y).Mul(vs.ZStr(verifD)).Mul(vs.ZI(2)), 101)
	return
}

func (a verifAffine) negated() verifAffine { return verifAffine{vs.ZI(0).Sub(a.x), a.y} }

// verifSum asserts that r is the sum of a and b by the Edwards law:
// x = (ax by + bx ay) / (1 + d ax bx ay by), y = (ay by + ax bx) / (1 - d ax bx ay by).
func verifSum(r *CompletedGroupElement, a, b verifAffine) {
	one := vs.ZI(1)
	k := a.x.Mul(b.x).Mul(a.y).Mul(b.y).Mul(vs.ZStr(verifD))
	verifEqual(verifZ(&r.X).Mul(one.Add(k)), verifZ(&r.Z).Mul(a.x.Mul(b.y).Add(b.x.Mul(a.y))), "the x coordinate of a sum is that of the curve law")
	verifEqual(verifZ(&r.Y).Mul(one.Sub(k)), verifZ(&r.T).Mul(a.y.Mul(b.y).Add(a.x.Mul(b.x))), "the y coordinate of a sum is that of the curve law")
}

// verifQuotients are the known quotients of handles.
var verifQuotients []verifQuotient

type verifQuotient struct {
	n, d FieldElement
	q    vs.Z
}

var verifInverses []FieldElement

const verifInverseMark = 0x5eed1111

// verifFeInvert replaces FeInvert, which VerifC36Invert shows to be right.
func verifFeInvert(out, z *FieldElement) {
	verifInverses = append(verifInverses, *z)
	*out = FieldElement{int32(len(verifInverses) - 1)}
	out[8], out[9] = verifInverseMark, verifInverseMark
}

// verifFeMulQ is verifFeMul that also multiplies by inverses.
func verifFeMulQ(h, f, g *FieldElement) {
	if f[9] == verifInverseMark {
		f, g = g, f
	}
	if g[9] != verifInverseMark {
		verifFeMul(h, f, g)
		return
	}
	d := verifInverses[g[0]]
	for _, q := range verifQuotients {
		if q.n == *f && q.d == d {
			*h = verifHandle(q.q, 101)
			return
		}
	}
	vs.Assert(false, "an inverse is multiplied with a coordinate of its point")
}

// verifFeCombine replaces FeCombine by what C28 shows of it.
func verifFeCombine(h *FieldElement, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9 int64) {
	z := vs.ZI(0)
	for i, x := range []int64{h0, h1, h2, h3, h4, h5, h6, h7, h8, h9} {
		vs.Assert(vs.And(x <= 1<<40, x >= -1<<40), "operands stay within the bounds the field arithmetic needs")
		z = z.Add(vs.ZI(x).Mul(verifPow(verifShift[i])))
	}
	y := vs.ZVar("combined", 256)
	vs.Assume(y.Eq(z))
	*h = verifHandle(y, 101)
}

func verifWithin(limit int64, fs ...*FieldElement) {
	for _, f := range fs {
		verifLimit(verifGet(f).bound, limit)
	}
}

func verifModPow(b, e vs.Z) vs.Z {
	p := vs.ZStr(verifPrime)
	r := vs.ZI(1)
	b = b.Mod(p)
	for vs.ZI(0).Lt(e) {
		if e.Mod(vs.ZI(2)).Eq(vs.ZI(1)) {
			r = r.Mul(b).Mod(p)
		}
		b = b.Mul(b).Mod(p)
		e = e.Div(vs.ZI(2))
	}
	return r
}
