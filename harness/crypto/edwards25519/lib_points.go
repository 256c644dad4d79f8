package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// Under the engine a point is a handle to a combination a*A + b*B of an unknown point A and the base point B; the
// point operations are replaced by what the other checks of C36 show of them.
type verifComb struct {
	a, b vs.Z
	m    int64 // a again, for the points a digit selects from
}

// verifProve tells that the digits are to be checked.
var verifProve bool

var verifCombs []verifComb

const verifPointMark = 0x5eed2222

const (
	verifX = iota
	verifY
	verifZz
	verifT
	verifCX
	verifCY
	verifCZ
	verifCT
	verifYPlus
	verifYMinus
	verifCachedZ
	verifT2d
	verifT2dNeg
	verifTest
)

func verifCoord(idx, role int32) FieldElement {
	return FieldElement{idx, role, 0, 0, 0, 0, 0, 0, 0, verifPointMark}
}

func verifNew(c verifComb) int32 {
	verifCombs = append(verifCombs, c)
	return int32(len(verifCombs) - 1)
}

func verifRole(f *FieldElement, idx, role int32) bool {
	return f[9] == verifPointMark && f[0] == idx && f[1] == role
}

const verifTogether = "the coordinates of a point stay together"

var verifNull = FieldElement{}
var verifUnit = FieldElement{1}

func verifNothing() verifComb { return verifComb{a: vs.ZI(0), b: vs.ZI(0)} }

func verifOfP(p *ProjectiveGroupElement) verifComb {
	if p.X == verifNull && p.Y == verifUnit && p.Z == verifUnit {
		return verifNothing()
	}
	i := p.X[0]
	vs.Assert(verifRole(&p.X, i, verifX) && verifRole(&p.Y, i, verifY) && verifRole(&p.Z, i, verifZz), verifTogether)
	return verifCombs[i]
}

func verifOfE(p *ExtendedGroupElement) verifComb {
	if p.X == verifNull && p.Y == verifUnit && p.Z == verifUnit && p.T == verifNull {
		return verifNothing()
	}
	i := p.X[0]
	vs.Assert(verifRole(&p.X, i, verifX) && verifRole(&p.Y, i, verifY) && verifRole(&p.Z, i, verifZz) && verifRole(&p.T, i, verifT), verifTogether)
	return verifCombs[i]
}

func verifOfC(p *CompletedGroupElement) verifComb {
	i := p.X[0]
	vs.Assert(verifRole(&p.X, i, verifCX) && verifRole(&p.Y, i, verifCY) && verifRole(&p.Z, i, verifCZ) && verifRole(&p.T, i, verifCT), verifTogether)
	return verifCombs[i]
}

func verifOfCached(p *CachedGroupElement) verifComb {
	if p.yPlusX == verifUnit && p.yMinusX == verifUnit && p.Z == verifUnit && p.T2d == verifNull {
		return verifNothing()
	}
	i := p.Z[0]
	if verifRole(&p.yPlusX, i, verifYMinus) && verifRole(&p.yMinusX, i, verifYPlus) && verifRole(&p.Z, i, verifCachedZ) && verifRole(&p.T2d, i, verifT2dNeg) {
		c := verifCombs[i]
		return verifComb{vs.ZI(0).Sub(c.a), vs.ZI(0).Sub(c.b), -c.m}
	}
	vs.Assert(verifRole(&p.yPlusX, i, verifYPlus) && verifRole(&p.yMinusX, i, verifYMinus) && verifRole(&p.Z, i, verifCachedZ) && verifRole(&p.T2d, i, verifT2d), verifTogether)
	return verifCombs[i]
}

func verifSetP(p *ProjectiveGroupElement, c verifComb) {
	i := verifNew(c)
	p.X, p.Y, p.Z = verifCoord(i, verifX), verifCoord(i, verifY), verifCoord(i, verifZz)
}

func verifSetE(p *ExtendedGroupElement, c verifComb) {
	i := verifNew(c)
	p.X, p.Y, p.Z, p.T = verifCoord(i, verifX), verifCoord(i, verifY), verifCoord(i, verifZz), verifCoord(i, verifT)
}

func verifSetC(p *CompletedGroupElement, c verifComb) {
	i := verifNew(c)
	p.X, p.Y, p.Z, p.T = verifCoord(i, verifCX), verifCoord(i, verifCY), verifCoord(i, verifCZ), verifCoord(i, verifCT)
}

func verifSetCached(p *CachedGroupElement, c verifComb) {
	i := verifNew(c)
	p.yPlusX, p.yMinusX, p.Z, p.T2d = verifCoord(i, verifYPlus), verifCoord(i, verifYMinus), verifCoord(i, verifCachedZ), verifCoord(i, verifT2d)
}

func (c verifComb) plus(d verifComb, k int64) verifComb {
	return verifComb{c.a.Add(d.a.Mul(vs.ZI(k))), c.b.Add(d.b.Mul(vs.ZI(k))), c.m + d.m*k}
}

func verifGeAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *CachedGroupElement) {
	verifSetC(r, verifOfE(p).plus(verifDigit(verifOfCached(q)), 1))
}

func verifGeSub(r *CompletedGroupElement, p *ExtendedGroupElement, q *CachedGroupElement) {
	verifSetC(r, verifOfE(p).plus(verifOfCached(q), -1))
}

func verifDoubleP(p *ProjectiveGroupElement, r *CompletedGroupElement) {
	c := verifOfP(p)
	verifSetC(r, c.plus(c, 1))
}

func verifDoubleE(p *ExtendedGroupElement, r *CompletedGroupElement) {
	c := verifOfE(p)
	verifSetC(r, c.plus(c, 1))
}

func verifToCached(p *ExtendedGroupElement, r *CachedGroupElement) { verifSetCached(r, verifOfE(p)) }

func verifEToProjective(p *ExtendedGroupElement, r *ProjectiveGroupElement) {
	verifSetP(r, verifOfE(p))
}

func verifCToProjective(p *CompletedGroupElement, r *ProjectiveGroupElement) {
	verifSetP(r, verifOfC(p))
}

func verifCToExtended(p *CompletedGroupElement, r *ExtendedGroupElement) { verifSetE(r, verifOfC(p)) }

// verifCachedCMove replaces the conditional move of a cached point, which is that of its coordinates.
func verifCachedCMove(p, u *CachedGroupElement, b int32) {
	c, d := verifOfCached(p), verifOfCached(u)
	if verifProve {
		vs.Assert(vs.Or(b == 0, b == 1), "a move is conditional on 0 or 1")
	}
	verifSetCached(p, verifComb{vs.ZIte(b == 1, d.a, c.a), vs.ZIte(b == 1, d.b, c.b), int64(vs.IteU64(b == 1, uint64(d.m), uint64(c.m)))})
}

// verifPointNeg replaces FeNeg on a coordinate.
func verifPointNeg(h, f *FieldElement) {
	if *f == verifNull {
		*h = verifNull
		return
	}
	i := f[0]
	vs.Assert(verifRole(f, i, verifT2d), "only the t coordinate of a cached point is negated")
	*h = verifCoord(i, verifT2dNeg)
}

// verifNegative replaces negative and notes its operand, the digit that selects the next point.
func verifNegativeNoted(b int32) int32 {
	verifNotedInt = int64(b)
	verifNoted = append(verifNoted, vs.ZI(int64(b)))
	return (b >> 31) & 1
}

var verifNoted []vs.Z
var verifNotedInt int64

// verifDigit asserts that the point selected last is the multiple its digit tells and returns that multiple.
func verifDigit(c verifComb) verifComb {
	if len(verifNoted) == 0 {
		return c
	}
	d := verifNoted[len(verifNoted)-1]
	verifNoted = nil
	if verifProve {
		vs.Assert(c.m == verifNotedInt, "the multiple selected by a digit is that digit")
	}
	return verifComb{a: d, b: c.b}
}

// verifUnknown is the unknown point A; natively it is k*B.
func verifUnknown() (p ExtendedGroupElement, k vs.Z) {
	k = verifAny("k").Mod(vs.ZStr(verifGroupOrder))
	if vs.Symbolic() {
		verifSetE(&p, verifComb{vs.ZI(1), vs.ZI(0), 1})
		return
	}
	var s [32]byte
	copy(s[:], k.Bytes(32))
	GeScalarMultBase(&p, &s)
	return
}

const verifGroupOrder = "7237005577332262213973186563042994240857116359379907606001950938285454250989"

// verifTold asserts that a point is a*A + b*B.
func verifTold(c verifComb, bytes func() [32]byte, k, a, b vs.Z, what string) {
	if vs.Symbolic() {
		vs.Assert(vs.And(c.a.Eq(a), c.b.Eq(b)), what)
		return
	}
	vs.Assert(bytes() == verifMultiple(a.Mul(k).Add(b)), what)
}

func verifToldP(p *ProjectiveGroupElement, k, a, b vs.Z, what string) {
	var c verifComb
	if vs.Symbolic() {
		c = verifOfP(p)
	}
	verifTold(c, p.ToBytes, k, a, b, what)
}

func verifToldE(p *ExtendedGroupElement, k, a, b vs.Z, what string) {
	var c verifComb
	if vs.Symbolic() {
		c = verifOfE(p)
	}
	verifTold(c, p.ToBytes, k, a, b, what)
}

// verifMultiple is natively the encoding of n*B, by doubling and adding.
func verifMultiple(n vs.Z) [32]byte {
	n = n.Mod(vs.ZStr(verifGroupOrder))
	var one, sum ExtendedGroupElement
	s := [32]byte{0x58}
	for i := 1; i < 32; i++ {
		s[i] = 0x66
	}
	one.FromBytes(&s)
	sum.Zero()
	var q CachedGroupElement
	one.ToCached(&q)
	for i := 255; i >= 0; i-- {
		var r CompletedGroupElement
		sum.Double(&r)
		r.ToExtended(&sum)
		if n.Div(verifPow(uint(i))).Mod(vs.ZI(2)).Eq(vs.ZI(1)) {
			GeAdd(&r, &sum, &q)
			r.ToExtended(&sum)
		}
	}
	return sum.ToBytes()
}

const verifRange = "a digit is between -8 and 8"

// verifSelectPoint replaces selectPoint, which VerifC36Select shows to be right.
func verifSelectPoint(t *PreComputedGroupElement, pos int32, b int32) {
	vs.Assert(pos >= 0 && pos < 32, "the table has 32 rows")
	if verifProve {
		vs.Assert(vs.And(b >= -8, b <= 8), verifRange)
	}
	i := verifNew(verifComb{a: vs.ZI(0), b: vs.ZI(int64(b)).Mul(verifPow(uint(8 * pos)))})
	t.yPlusX, t.yMinusX, t.xy2d = verifCoord(i, verifYPlus), verifCoord(i, verifYMinus), verifCoord(i, verifT2d)
}

func verifOfPre(p *PreComputedGroupElement) verifComb {
	if p.yPlusX[9] != verifPointMark {
		for k := range bi {
			if *p == bi[k] {
				return verifComb{a: vs.ZI(0), b: vs.ZI(int64(2*k + 1))}
			}
		}
	}
	i := p.yPlusX[0]
	vs.Assert(verifRole(&p.yPlusX, i, verifYPlus) && verifRole(&p.yMinusX, i, verifYMinus) && verifRole(&p.xy2d, i, verifT2d), verifTogether)
	return verifCombs[i]
}

func verifMixedAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	verifSetC(r, verifOfE(p).plus(verifOfPre(q), 1))
}

func verifMixedSub(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	verifSetC(r, verifOfE(p).plus(verifOfPre(q), -1))
}

// verifPointSub replaces FeSub on coordinates: Y - T is zero exactly for the neutral element.
func verifPointSub(h, f, g *FieldElement) {
	i := f[0]
	vs.Assert(verifRole(f, i, verifCY) && verifRole(g, i, verifCT), "only y is compared with one")
	*h = verifCoord(i, verifTest)
}

var verifTested []verifComb
var verifTestedRes int32

func verifPointNonZero(f *FieldElement) int32 {
	vs.Assert(verifRole(f, f[0], verifTest), "only y is compared with one")
	verifTested = append(verifTested, verifCombs[f[0]])
	verifTestedRes = int32(vs.Int("nonzero", 0, 1))
	return verifTestedRes
}

var verifSlides [][256]int8

// verifSlide replaces slide, which VerifC36Slide shows to be right.
func verifSlide(r *[256]int8, a *[32]byte) {
	*r = verifSlides[0]
	verifSlides = verifSlides[1:]
}
