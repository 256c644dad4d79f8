package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go

// verifFrom replaces FeFromBytes by what C28 shows of it.
func verifFrom(f *FieldElement, s *[32]byte) {
	u := vs.ZVar("decoded", 256)
	vs.Assume(u.Eq(vs.ZBytesLE(s[:])))
	verifHash.u = u
	*f = verifHandle(u, 101)
}

var verifHash struct {
	u, r vs.Z
	kind int
}

// verifHashRoot replaces feDivPowM1: its square times v is u times a fourth root of one, which VerifC36Power implies.
func verifHashRoot(r *FieldElement, u, v FieldElement) {
	a, b := verifGet(&u), verifGet(&v)
	verifLimit(a.bound, 330)
	verifLimit(b.bound, 330)
	z := verifAny("root")
	*r = verifHandle(z, 101)
	verifHash.r = z
	verifHash.kind = vs.Int("kind", 0, 3)
	verifFact(verifZero(b.z.Mul(z).Mul(z).Sub(a.z.Mul(verifUnity(verifHash.kind)))))
	// w and w^2 - 2A^2u^2 are not zero, since neither -2 nor 2 is a square
	verifFact(!verifZero(a.z))
}

func verifUnity(k int) vs.Z {
	return [4]vs.Z{vs.ZI(1), vs.ZI(-1), verifVal(&SqrtM1), vs.ZI(0).Sub(verifVal(&SqrtM1))}[k]
}

// The point derived from any 32 bytes is the one the Elligator map of CryptoNote defines: with u the number the
// bytes spell, w = 2u^2+1 and z = -2Au^2 or -A, its y coordinate is (z-w)/(z+w), its x coordinate is that of a
// point of the curve with this y coordinate, even in the first case and odd in the second.
//
//verif:harness timeout=400 query=30000 int=2 try=200 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMul,!FeSquare:verifFeSquare,!FeSquare2:verifFeSquare2,!feDivPowM1:verifHashRoot,!FeIsNonZero:verifNonZeroFact,!FeIsNegative:verifNegativeFact,!FeFromBytes:verifFrom
func VerifC36Hash() {
	var s [32]byte
	copy(s[:], vs.Bytes("s", 32))
	var p ProjectiveGroupElement
	err := p.FromBytes(&s)
	vs.Cover("done")
	ma := vs.ZI(-486662)
	u := vs.ZBytesLE(s[:])
	if vs.Symbolic() {
		u = verifHash.u
	}
	uu := u.Mul(u)
	w := uu.Mul(vs.ZI(2)).Add(vs.ZI(1))
	x0 := w.Mul(w).Sub(uu.Mul(vs.ZI(2)).Mul(ma).Mul(ma))
	X, Y, Z := verifZ(&p.X), verifZ(&p.Y), verifZ(&p.Z)
	// (-X^2 + Y^2) Z^2 = Z^4 + d X^2 Y^2
	XX, YY, ZZ := X.Mul(X), Y.Mul(Y), Z.Mul(Z)
	law := YY.Sub(XX).Mul(ZZ).Sub(ZZ.Mul(ZZ)).Sub(XX.Mul(YY).Mul(vs.ZStr(verifD)))
	if vs.Symbolic() {
		if err != nil {
			return
		}
		odd := verifHash.kind >= 2
		z := ma.Mul(uu).Mul(vs.ZI(2))
		xx := uu.Mul(vs.ZI(2 * 486662 * 486664))
		if odd {
			z = ma
			xx = vs.ZI(486662 * 486664)
		}
		verifEqual(Z, z.Add(w), "the z coordinate is z + w")
		verifEqual(Y, z.Sub(w), "the y coordinate is z - w")
		// the fact about the root, multiplied: x0 law = ... + m (x0 r^2 - e w)
		m := xx.Mul(ZZ).Mul(ZZ.Add(YY.Mul(vs.ZStr(verifD))))
		e := verifUnity(verifHash.kind)
		f := x0.Mul(verifHash.r).Mul(verifHash.r).Sub(e.Mul(w)).Mul(m)
		verifAssert(vs.Or(!verifZero(f), verifZero(law.Mul(x0))), "the point is on the curve")
		rec := verifGet(&p.X)
		verifEqual(rec.r, Z, "the x coordinate is a multiple of z")
		n := int64(0)
		if odd {
			n = 1
		}
		verifAssert(vs.Or(verifZero(rec.l), rec.l.Mod(vs.ZStr(verifPrime)).Mod(vs.ZI(2)).Eq(vs.ZI(n))), "the parity of the x coordinate is that of the case")
		return
	}
	vs.Assert(err == nil, "every 32 bytes give a point")
	verifEqual(law, vs.ZI(0), "the point is on the curve")
	vs.Assert(!verifZero(Z), "the z coordinate is not zero")
	square := verifModPow(w.Mul(x0), vs.ZStr(verifPrime).Sub(vs.ZI(1)).Div(vs.ZI(2))).Eq(vs.ZI(1))
	z, n := ma.Mul(uu).Mul(vs.ZI(2)), int64(0)
	if !square {
		z, n = ma, 1
	}
	verifEqual(Y.Mul(z.Add(w)), Z.Mul(z.Sub(w)), "the y coordinate is (z-w)/(z+w)")
	x := X.Mul(verifModPow(Z, vs.ZStr(verifPrime).Sub(vs.ZI(2)))).Mod(vs.ZStr(verifPrime))
	vs.Assert(verifZero(x) || x.Mod(vs.ZI(2)).Eq(vs.ZI(n)), "the parity of the x coordinate is that of the case")
}
