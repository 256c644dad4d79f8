package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go

//verif:harness timeout=300 int=2 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMul,!FeSquare:verifFeSquare,!FeSquare2:verifFeSquare2
func VerifC36Add() {
	a, b := verifPoint("a"), verifPoint("b")
	p := a.extended(verifAny("az"))
	q := b.cached(verifAny("bz"))
	var r CompletedGroupElement
	GeAdd(&r, &p, &q)
	verifSum(&r, a, b)
	verifWithin(330, &r.X, &r.Y, &r.Z, &r.T)
	k := a.x.Mul(b.x).Mul(a.y).Mul(b.y).Mul(vs.ZStr(verifD))
	n := verifZ(&p.Z).Mul(verifZ(&q.Z))
	vs.Assert(vs.Or(verifZero(n.Mul(vs.ZI(1).Add(k))), !verifZero(verifZ(&r.Z))), "a sum has no zero denominator")
	vs.Assert(vs.Or(verifZero(n.Mul(vs.ZI(1).Sub(k))), !verifZero(verifZ(&r.T))), "a sum has no zero denominator")
	GeSub(&r, &p, &q)
	verifSum(&r, a, b.negated())
	verifWithin(330, &r.X, &r.Y, &r.Z, &r.T)
	m := b.precomputed()
	geMixedAdd(&r, &p, &m)
	verifSum(&r, a, b)
	verifWithin(330, &r.X, &r.Y, &r.Z, &r.T)
	geMixedSub(&r, &p, &m)
	verifSum(&r, a, b.negated())
	verifWithin(330, &r.X, &r.Y, &r.Z, &r.T)
	vs.Cover("done")
}

// x = 2xy / (y^2 - x^2), y = (y^2 + x^2) / (2 - y^2 + x^2), which is a + a on the curve.
func verifDoubled(r *CompletedGroupElement, a verifAffine) {
	xx, yy := a.x.Mul(a.x), a.y.Mul(a.y)
	verifEqual(verifZ(&r.X).Mul(yy.Sub(xx)), verifZ(&r.Z).Mul(a.x.Mul(a.y).Mul(vs.ZI(2))), "the x coordinate of a doubled point is that of the curve law")
	verifEqual(verifZ(&r.Y).Mul(vs.ZI(2).Sub(yy).Add(xx)), verifZ(&r.T).Mul(yy.Add(xx)), "the y coordinate of a doubled point is that of the curve law")
	verifWithin(330, &r.X, &r.Y, &r.Z, &r.T)
}

//verif:harness timeout=300 int=2 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMul,!FeSquare:verifFeSquare,!FeSquare2:verifFeSquare2
func VerifC36Double() {
	a := verifPoint("a")
	p := a.extended(verifAny("az"))
	var r CompletedGroupElement
	p.Double(&r)
	verifDoubled(&r, a)
	var q ProjectiveGroupElement
	p.ToProjective(&q)
	q.Double(&r)
	verifDoubled(&r, a)
	vs.Cover("done")
}

// Every representation of a point stands for the same point.
//
//verif:harness timeout=300 int=2 contract=!FeAdd:verifFeAdd,!FeSub:verifFeSub,!FeNeg:verifFeNeg,!FeMul:verifFeMul,!FeSquare:verifFeSquare,!FeSquare2:verifFeSquare2
func VerifC36Convert() {
	var r CompletedGroupElement
	x, y, z, t := verifAny("x"), verifAny("y"), verifAny("z"), verifAny("t")
	r.X, r.Y, r.Z, r.T = verifHandle(x, 330), verifHandle(y, 330), verifHandle(z, 330), verifHandle(t, 330)
	var p ProjectiveGroupElement
	r.ToProjective(&p)
	verifEqual(verifZ(&p.X).Mul(z), verifZ(&p.Z).Mul(x), "the projective x coordinate is that of the point")
	verifEqual(verifZ(&p.Y).Mul(t), verifZ(&p.Z).Mul(y), "the projective y coordinate is that of the point")
	vs.Assert(vs.Or(verifZero(z.Mul(t)), !verifZero(verifZ(&p.Z))), "the projective z coordinate is not zero")
	verifWithin(101, &p.X, &p.Y, &p.Z)
	var e ExtendedGroupElement
	r.ToExtended(&e)
	verifEqual(verifZ(&e.X).Mul(z), verifZ(&e.Z).Mul(x), "the extended x coordinate is that of the point")
	verifEqual(verifZ(&e.Y).Mul(t), verifZ(&e.Z).Mul(y), "the extended y coordinate is that of the point")
	verifEqual(verifZ(&e.X).Mul(verifZ(&e.Y)), verifZ(&e.Z).Mul(verifZ(&e.T)), "the extended t coordinate is the product of x and y")
	vs.Assert(vs.Or(verifZero(z.Mul(t)), !verifZero(verifZ(&e.Z))), "the extended z coordinate is not zero")
	verifWithin(101, &e.X, &e.Y, &e.Z, &e.T)

	a := verifPoint("a")
	az := verifAny("az")
	e = a.extended(az)
	e.ToProjective(&p)
	verifEqual(verifZ(&p.X), a.x.Mul(az), "the projective x coordinate is the extended one")
	verifEqual(verifZ(&p.Y), a.y.Mul(az), "the projective y coordinate is the extended one")
	verifEqual(verifZ(&p.Z), az, "the projective z coordinate is the extended one")
	verifWithin(101, &p.X, &p.Y, &p.Z)
	var c CachedGroupElement
	e.ToCached(&c)
	want := a.cached(az)
	verifEqual(verifZ(&c.yPlusX), verifZ(&want.yPlusX), "the cached sum is y + x")
	verifEqual(verifZ(&c.yMinusX), verifZ(&want.yMinusX), "the cached difference is y - x")
	verifEqual(verifZ(&c.Z), verifZ(&want.Z), "the cached z is z")
	verifEqual(verifZ(&c.T2d), verifZ(&want.T2d), "the cached t is 2dt")
	verifWithin(202, &c.yPlusX, &c.yMinusX)
	verifWithin(101, &c.Z, &c.T2d)

	e.Zero()
	p.Zero()
	c.Zero()
	var m PreComputedGroupElement
	m.Zero()
	var f verifAffine
	f.x, f.y = vs.ZI(0), vs.ZI(1)
	vs.Assert(e == ExtendedGroupElement{Y: FieldElement{1}, Z: FieldElement{1}}, "the extended identity is (0, 1)")
	vs.Assert(p == ProjectiveGroupElement{Y: FieldElement{1}, Z: FieldElement{1}}, "the projective identity is (0, 1)")
	vs.Assert(c == CachedGroupElement{yPlusX: FieldElement{1}, yMinusX: FieldElement{1}, Z: FieldElement{1}}, "the cached identity is (0, 1)")
	vs.Assert(m == PreComputedGroupElement{yPlusX: FieldElement{1}, yMinusX: FieldElement{1}}, "the precomputed identity is (0, 1)")
	vs.Cover("done")
}
