package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go
//verif:use lib_points.go
// ASSUME: VerifC36Slide takes scalars whose bits are arbitrary in a window and equal elsewhere; VerifC36DoubleBase and VerifC36DoublePrecomp take signed digits of which one per scalar is not zero, at the stated positions

// The signed digits add up to the scalar and are zero or odd, from -15 to 15.
//
//verif:harness timeout=300
func VerifC36Slide() {
	w := vs.Bound("window", 9, 12)
	at := []int{0, 1, 5, 100, 240}[vs.Int("at", 0, 4)]
	v := vs.U16("v")
	vs.Assume(v < 1<<uint(w))
	fill := vs.Int("fill", 0, 1)
	var a [32]byte
	for i := 0; i < 252; i++ {
		bit := byte(fill)
		if i >= at && i < at+w {
			bit = byte(v>>uint(i-at)) & 1
		}
		a[i/8] |= bit << uint(i%8)
	}
	var r [256]int8
	slide(&r, &a)
	z := vs.ZI(0)
	for i := 255; i >= 0; i-- {
		z = z.Mul(vs.ZI(2)).Add(vs.ZI(int64(r[i])))
		vs.Assert(vs.Or(r[i] == 0, vs.And(r[i]&1 == 1, r[i] >= -15, r[i] <= 15)), "a digit is zero or odd, from -15 to 15")
	}
	vs.Assert(z.Eq(vs.ZBytesLE(a[:])), "the digits add up to the scalar")
	vs.Cover("done")
}

// verifDigits is a scalar with one digit.
func verifDigits(name string) (s [32]byte, z vs.Z) {
	at := []int{0, 251, 3, 1, 4, 100, 128, 249}[vs.Int(name+"at", 0, vs.Bound("positions", 2, 7))]
	m := vs.Int(name, -8, 8)
	d := int8(2*m - 1)
	if m == -8 {
		d = 0
	}
	z = vs.ZI(int64(d)).Mul(verifPow(uint(at)))
	if vs.Symbolic() {
		var r [256]int8
		r[at] = d
		verifSlides = append(verifSlides, r)
		return
	}
	z = z.Mod(vs.ZStr(verifGroupOrder))
	copy(s[:], z.Bytes(32))
	return
}

//verif:harness timeout=300 int=2 try=20 samples=10 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted,!selectPoint:verifSelectPoint,!geMixedAdd:verifMixedAdd,!geMixedSub:verifMixedSub,!slide:verifSlide
func VerifC36DoubleBase() {
	p, k := verifUnknown()
	a, x := verifDigits("a")
	b, y := verifDigits("b")
	var r ProjectiveGroupElement
	GeDoubleScalarMultBaseVartime(&r, &a, &p, &b)
	verifToldP(&r, k, x, y, "the result is a*A + b*B")
	vs.Cover("done")
}

//verif:harness timeout=300 int=2 try=20 samples=10 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted,!selectPoint:verifSelectPoint,!geMixedAdd:verifMixedAdd,!geMixedSub:verifMixedSub,!slide:verifSlide
func VerifC36DoublePrecomp() {
	p, k := verifUnknown()
	a, x := verifDigits("a")
	b, y := verifDigits("b")
	var q ExtendedGroupElement
	if vs.Symbolic() {
		verifSetE(&q, verifComb{a: vs.ZI(0), b: vs.ZI(1)})
	} else {
		GeScalarMultBase(&q, &[32]byte{1})
	}
	var r ProjectiveGroupElement
	GeDoubleScalarMultPrecompVartime(&r, &a, &p, &b, GeDSMPreComp(&q))
	verifToldP(&r, k, x, y, "the result is a*A + b*B")
	vs.Cover("done")
}
