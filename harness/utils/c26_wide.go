package utils

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:harness int=1 timeout=60
func VerifC26Mul() {
	a, b := vs.U64("a"), vs.U64("b")
	lo, hi := Mul128(a, b)
	two64 := vs.ZStr("0x10000000000000000")
	vs.Assert(vs.ZU(hi).Mul(two64).Add(vs.ZU(lo)).Eq(vs.ZU(a).Mul(vs.ZU(b))), "product differs")
	vs.Cover("mul")
	vs.Observe("p", lo, hi)
}

//verif:harness int=1 timeout=60
func VerifC26Div() {
	hi, lo := vs.U64("hi"), vs.U64("lo")
	d := vs.U32("d")
	vs.Assume(d != 0)
	qlo, qhi := Div128p32(hi, lo, d)
	two64 := vs.ZStr("0x10000000000000000")
	n := vs.ZU(hi).Mul(two64).Add(vs.ZU(lo))
	q := vs.ZU(qhi).Mul(two64).Add(vs.ZU(qlo))
	zd := vs.ZU(uint64(d))
	r := n.Sub(q.Mul(zd))
	vs.Assert(vs.And(vs.ZU(0).Le(r), r.Lt(zd)), "quotient differs")
	vs.Cover("div")
	vs.Observe("q", qlo, qhi)
}
