package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go

// Encoding an extended or projective point gives the canonical y and the parity of x.
//
//verif:harness timeout=300 int=2 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMulQ,!FeSquare:verifFeSquare,!FeInvert:verifFeInvert,!FeToBytes:verifBytesOf
func VerifC36Encode() {
	a := verifPoint("a")
	z := verifAny("z")
	vs.Assume(!z.Eq(vs.ZI(0)))
	e := a.extended(z)
	var s [32]byte
	if vs.Int("kind", 0, 1) == 0 {
		verifQuotients = []verifQuotient{{e.X, e.Z, a.x}, {e.Y, e.Z, a.y}}
		s = e.ToBytes()
	} else {
		var p ProjectiveGroupElement
		p.X, p.Y, p.Z = e.X, e.Y, e.Z
		verifQuotients = []verifQuotient{{p.X, p.Z, a.x}, {p.Y, p.Z, a.y}}
		s = p.ToBytes()
	}
	y := s
	y[31] &= 127
	vs.Assert(vs.ZBytesLE(y[:]).Eq(a.y), "the encoding of a point is its y coordinate")
	vs.Assert(vs.ZI(int64(s[31]>>7)).Eq(a.x.Mod(vs.ZI(2))), "the top bit of the encoding is the parity of the x coordinate")
	vs.Cover("done")
}

var verifRoot struct {
	kind int
	r    vs.Z
}

// verifDivPow replaces feDivPowM1, which VerifC36Root shows to be u v^3 (u v^7)^((p-5)/8):
// its square times v is u or -u if u/v has a root, and u times another fourth root of one if not.
func verifDivPow(r *FieldElement, u, v FieldElement) {
	a, b := verifGet(&u), verifGet(&v)
	verifLimit(a.bound, 330)
	verifLimit(b.bound, 330)
	z := verifAny("root")
	*r = verifHandle(z, 101)
	verifRoot.kind = vs.Int("kind", 0, 2)
	verifRoot.r = z
	switch verifRoot.kind {
	case 0:
		verifFact(verifZero(b.z.Mul(z).Mul(z).Sub(a.z)))
	case 1:
		verifFact(verifZero(b.z.Mul(z).Mul(z).Add(a.z)))
	}
}

// verifDecodes tells natively whether there is a point with this y coordinate and an x coordinate that is not zero.
func verifDecodes(y vs.Z) bool {
	p := vs.ZStr(verifPrime)
	u := y.Mul(y).Sub(vs.ZI(1))
	v := y.Mul(y).Mul(vs.ZStr(verifD)).Add(vs.ZI(1))
	return verifModPow(u.Mul(v), p.Sub(vs.ZI(1)).Div(vs.ZI(2))).Eq(vs.ZI(1))
}

// Decoding accepts exactly the canonical encodings of points and gives a point of the curve.
//
//verif:harness timeout=400 query=30000 int=2 try=200 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMul,!FeSquare:verifFeSquare,!feDivPowM1:verifDivPow,!FeToBytes:verifBytesFact,!FeIsNonZero:verifNonZeroFact,!FeIsNegative:verifNegativeFact,!FeCombine:verifFeCombine
func VerifC36Decode() {
	var s [32]byte
	copy(s[:], vs.Bytes("s", 32))
	var p ExtendedGroupElement
	ok := p.FromBytes(&s)
	vs.Cover("done")
	t := s
	t[31] &= 127
	y := vs.ZBytesLE(t[:])
	prime := vs.ZStr(verifPrime)
	if !ok {
		if vs.Symbolic() {
			x := verifRoot.r
			verifAssert(vs.Or(!y.Lt(prime), verifRoot.kind == 2, vs.And(verifZero(x), s[31]>>7 == 1)), "every canonical encoding of a point decodes")
		} else {
			verifAssert(vs.Or(!y.Lt(prime), !verifDecodes(y)), "every canonical encoding of a point decodes")
		}
		return
	}
	verifAssert(y.Lt(prime), "only canonical encodings decode")
	verifEqual(verifZ(&p.Y), y, "the y coordinate is the one encoded")
	verifEqual(verifZ(&p.Z), vs.ZI(1), "the z coordinate is one")
	x := verifZ(&p.X)
	verifEqual(verifZ(&p.T), x.Mul(verifZ(&p.Y)), "the t coordinate is the product of x and y")
	verifAssert(vs.ZI(int64(s[31]>>7)).Eq(x.Mod(prime).Mod(vs.ZI(2))), "the parity of the x coordinate is the one encoded")
	yy := verifZ(&p.Y).Mul(verifZ(&p.Y))
	xx := x.Mul(x)
	verifEqual(yy.Sub(xx), vs.ZI(1).Add(xx.Mul(yy).Mul(vs.ZStr(verifD))), "a decoded point is on the curve")
}
