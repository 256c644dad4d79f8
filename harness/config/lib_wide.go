package config

import vs "github.com/r3volut1oner/go-karbo/verifsym"

// Specifications of the wide arithmetic (decided by C26), used in place of the code where a harness says
// contract=...: the results are exactly the 128-bit product and quotient.
func verifSpecMul128(a, b uint64) (uint64, uint64) {
	lo, hi := vs.U64("mulLo"), vs.U64("mulHi")
	vs.Assume(vs.ZU(hi).Mul(vs.ZStr("0x10000000000000000")).Add(vs.ZU(lo)).Eq(vs.ZU(a).Mul(vs.ZU(b))))
	return lo, hi
}

func verifSpecDiv128p32(hi, lo uint64, d uint32) (uint64, uint64) {
	if d == 0 {
		panic("integer divide by zero")
	}
	qlo, qhi := vs.U64("divLo"), vs.U64("divHi")
	two64 := vs.ZStr("0x10000000000000000")
	q := vs.ZU(qhi).Mul(two64).Add(vs.ZU(qlo))
	r := vs.ZU(hi).Mul(two64).Add(vs.ZU(lo)).Sub(q.Mul(vs.ZU(uint64(d))))
	vs.Assume(vs.And(vs.ZU(0).Le(r), r.Lt(vs.ZU(uint64(d)))))
	return qlo, qhi
}
