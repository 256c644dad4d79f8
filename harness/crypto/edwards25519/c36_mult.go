package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go
//verif:use lib_points.go

func verifScalar127(name string) (s [32]byte) {
	copy(s[:], vs.Bytes(name, 32))
	s[31] &= 127
	return
}

// Multiplying any point with any scalar below 2^255.
//
//verif:harness timeout=300 int=2 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted
func VerifC36Mult() {
	a := verifScalar127("a")
	p, k := verifUnknown()
	r := GeScalarMult(&a, &p)
	verifToldP(&r, k, vs.ZBytesLE(a[:]), vs.ZI(0), "a scalar multiple is the sum of that many points")
	vs.Cover("done")
}

// The digits that VerifC36Mult sums up select the multiples they stand for.
//
//verif:harness timeout=300 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted
func VerifC36Digits() {
	a := verifScalar127("a")
	p, _ := verifUnknown()
	verifProve = true
	GeScalarMult(&a, &p)
	vs.Cover("done")
}

// Multiplying the base point with any scalar below 2^255.
//
//verif:harness timeout=300 int=2 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted,!selectPoint:verifSelectPoint,!geMixedAdd:verifMixedAdd,!geMixedSub:verifMixedSub
func VerifC36Base() {
	a := verifScalar127("a")
	var p ExtendedGroupElement
	GeScalarMultBase(&p, &a)
	verifToldE(&p, vs.ZI(0), vs.ZI(0), vs.ZBytesLE(a[:]), "a multiple of the base point is the sum of that many base points")
	vs.Cover("done")
}

// The digits that VerifC36Base sums up are in the range of the table.
//
//verif:harness timeout=300 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted,!selectPoint:verifSelectPoint,!geMixedAdd:verifMixedAdd,!geMixedSub:verifMixedSub
func VerifC36BaseDigits() {
	a := verifScalar127("a")
	verifProve = true
	var p ExtendedGroupElement
	GeScalarMultBase(&p, &a)
	vs.Cover("done")
}

// selectPoint looks up the multiple a digit stands for.
//
//verif:harness timeout=300
func VerifC36Select() {
	b := int32(vs.U8("b")) - 8
	vs.Assume(b <= 8)
	pos := vs.Int("pos", 0, 31)
	var t PreComputedGroupElement
	selectPoint(&t, int32(pos), b)
	ok := vs.Or(b != 0, t == PreComputedGroupElement{yPlusX: FieldElement{1}, yMinusX: FieldElement{1}})
	for j := range base[pos] {
		e := base[pos][j]
		n := PreComputedGroupElement{yPlusX: e.yMinusX, yMinusX: e.yPlusX}
		for i := range e.xy2d {
			n.xy2d[i] = -e.xy2d[i]
		}
		ok = vs.And(ok, vs.Or(b != int32(j+1), t == e), vs.Or(b != -int32(j+1), t == n))
	}
	vs.Assert(ok, "a digit selects the neutral element, its entry or its entry negated")
	vs.Cover("done")
}

func verifInverse(z vs.Z) vs.Z {
	p := vs.ZStr(verifPrime)
	return verifModPow(z, p.Sub(vs.ZI(2)))
}

func (a verifAffine) plus(b verifAffine) verifAffine {
	p := vs.ZStr(verifPrime)
	k := a.x.Mul(b.x).Mul(a.y).Mul(b.y).Mul(vs.ZStr(verifD)).Mod(p)
	x := a.x.Mul(b.y).Add(b.x.Mul(a.y)).Mul(verifInverse(vs.ZI(1).Add(k)))
	y := a.y.Mul(b.y).Add(a.x.Mul(b.x)).Mul(verifInverse(vs.ZI(1).Sub(k)))
	return verifAffine{x.Mod(p), y.Mod(p)}
}

func (a verifAffine) is(e *PreComputedGroupElement, what string) {
	verifEqual(verifVal(&e.yPlusX), a.y.Add(a.x), what)
	verifEqual(verifVal(&e.yMinusX), a.y.Sub(a.x), what)
	verifEqual(verifVal(&e.xy2d), a.x.Mul(a.y).Mul(vs.ZStr(verifD)).Mul(vs.ZI(2)), what)
	verifWithin(101, &e.yPlusX, &e.yMinusX, &e.xy2d)
}

// The tables hold the multiples of the base point, y = 4/5 and x even; the constants are what they are called.
//
//verif:harness timeout=300 int=2
func VerifC36Tables() {
	p := vs.ZStr(verifPrime)
	var b verifAffine
	b.y = vs.ZI(4).Mul(verifInverse(vs.ZI(5))).Mod(p)
	b.x = vs.ZStr("15112221349535400772501151409588531511454012693041857206046113283949847762202")
	verifEqual(b.y.Mul(b.y).Sub(b.x.Mul(b.x)), vs.ZI(1).Add(b.x.Mul(b.x).Mul(b.y).Mul(b.y).Mul(vs.ZStr(verifD))), "the base point is on the curve")
	b2 := b.plus(b)
	m := b
	for k := range bi {
		m.is(&bi[k], "an entry of the small table is an odd multiple of the base point")
		m = m.plus(b2)
	}
	row := b
	for i := range base {
		m := row
		for j := range base[i] {
			m.is(&base[i][j], "an entry of the table is a multiple of the base point")
			if j < 7 {
				m = m.plus(row)
			}
		}
		for k := 0; k < 5; k++ {
			m = m.plus(m)
		}
		row = m
	}
	verifEqual(verifVal(&d), vs.ZStr(verifD), "d is the constant of the curve")
	verifEqual(verifVal(&d).Mul(vs.ZI(121666)), vs.ZI(-121665), "d is the constant of the curve")
	verifEqual(verifVal(&d2), vs.ZStr(verifD).Mul(vs.ZI(2)), "d2 is twice d")
	verifEqual(verifVal(&SqrtM1).Mul(verifVal(&SqrtM1)), vs.ZI(-1), "the constant is a root of -1")
	verifEqual(verifVal(&A), vs.ZI(486662), "A is the constant of the Montgomery curve")
	verifEqual(verifVal(&FeMa), vs.ZI(-486662), "the constant is -A")
	verifEqual(verifVal(&FeMa2), vs.ZI(-486662*486662), "the constant is -A^2")
	a2 := vs.ZI(486662 * 486664)
	sq := func(f *FieldElement) vs.Z { return verifVal(f).Mul(verifVal(f)) }
	i := verifVal(&SqrtM1)
	verifEqual(sq(&Fefffb1), a2.Mul(vs.ZI(-2)), "the constant is a root of -2A(A+2)")
	verifEqual(sq(&Fefffb2), a2.Mul(vs.ZI(2)), "the constant is a root of 2A(A+2)")
	verifEqual(sq(&Fefffb3), i.Mul(a2).Mul(vs.ZI(-1)), "the constant is a root of -iA(A+2)")
	verifEqual(sq(&Fefffb4), i.Mul(a2), "the constant is a root of iA(A+2)")
	vs.Cover("done")
}

// Eight times a point, and its odd multiples.
//
//verif:harness timeout=300 int=2 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted
func VerifC36Multiples() {
	p, k := verifUnknown()
	t := GeDSMPreComp(&p)
	for i := range t {
		if vs.Symbolic() {
			vs.Assert(verifOfCached(&t[i]).a.Eq(vs.ZI(int64(2*i+1))), "the table of a point holds its odd multiples")
			continue
		}
		var e ExtendedGroupElement
		e.Zero()
		var r CompletedGroupElement
		GeAdd(&r, &e, &t[i])
		r.ToExtended(&e)
		vs.Assert(e.ToBytes() == verifMultiple(k.Mul(vs.ZI(int64(2*i+1)))), "the table of a point holds its odd multiples")
	}
	var q ProjectiveGroupElement
	p.ToProjective(&q)
	var r CompletedGroupElement
	GeMul8(&r, &q)
	r.ToProjective(&q)
	verifToldP(&q, k, vs.ZI(8), vs.ZI(0), "the eightfold is eight times the point")
	vs.Cover("done")
}

// A point is in the subgroup exactly if its order-fold is the neutral element.
//
//verif:harness timeout=300 int=2 try=20 contract=!GeAdd:verifGeAdd,!GeSub:verifGeSub,(*!ProjectiveGroupElement).Double:verifDoubleP,(*!ExtendedGroupElement).Double:verifDoubleE,(*!ExtendedGroupElement).ToCached:verifToCached,(*!ExtendedGroupElement).ToProjective:verifEToProjective,(*!CompletedGroupElement).ToProjective:verifCToProjective,(*!CompletedGroupElement).ToExtended:verifCToExtended,(*!CachedGroupElement).CMove:verifCachedCMove,!FeNeg:verifPointNeg,!negative:verifNegativeNoted,!FeSub:verifPointSub,!FeIsNonZero:verifPointNonZero
func VerifC36Subgroup() {
	p, _ := verifUnknown()
	j := vs.U8("torsion") & 7
	torsion := j
	if !vs.Symbolic() {
		tb := [32]byte{0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05}
		var t ExtendedGroupElement
		t.FromBytes(&tb)
		var c CachedGroupElement
		t.ToCached(&c)
		for ; j > 0; j-- {
			var r CompletedGroupElement
			GeAdd(&r, &p, &c)
			r.ToExtended(&p)
		}
	}
	res := GeCheckSubGroupPreCompVartime(GeDSMPreComp(&p))
	if vs.Symbolic() {
		vs.Assert(len(verifTested) == 1, "one multiple is tested")
		vs.Assert(verifTested[0].a.Eq(vs.ZStr(verifGroupOrder)), "the multiple tested is the group order")
		vs.Assert(res == verifTestedRes, "the answer is that of the test")
	}
	vs.Cover("done")
	if !vs.Symbolic() {
		vs.Assert((res == 0) == (torsion == 0), "a point is in the subgroup exactly if it has no torsion")
	}
}
