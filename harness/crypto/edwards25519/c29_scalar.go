package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

const verifOrder = "7237005577332262213973186563042994240857116359379907606001950938285454250989"

func verifScalar(name string) (s [32]byte) {
	copy(s[:], vs.Bytes(name, 32))
	return
}

func verifReduced(r [32]byte, want vs.Z) {
	l := vs.ZStr(verifOrder)
	z := vs.ZBytesLE(r[:])
	vs.Assert(z.Mod(l).Eq(want.Mod(l)), "the result is congruent to the exact value modulo the group order")
	vs.Assert(z.Lt(l), "the result is below the group order")
	vs.Cover("done")
}

//verif:harness timeout=300 int=2
func VerifC29Wide() {
	var s [64]byte
	copy(s[:], vs.Bytes("s", 64))
	verifReduced(ScReduce(s), vs.ZBytesLE(s[:]))
}

//verif:harness timeout=300 int=2
func VerifC29Add() {
	a, b := verifScalar("a"), verifScalar("b")
	verifReduced(ScAdd(&a, &b), vs.ZBytesLE(a[:]).Add(vs.ZBytesLE(b[:])))
}

//verif:harness timeout=300 int=2
func VerifC29Sub() {
	a, b := verifScalar("a"), verifScalar("b")
	verifReduced(ScSub(a, b), vs.ZBytesLE(a[:]).Sub(vs.ZBytesLE(b[:])))
}

//verif:harness timeout=300 int=2
func VerifC29MulSub() {
	a, b, c := verifScalar("a"), verifScalar("b"), verifScalar("c")
	verifReduced(ScMulSub(a, b, c), vs.ZBytesLE(c[:]).Sub(vs.ZBytesLE(a[:]).Mul(vs.ZBytesLE(b[:]))))
}

//verif:harness timeout=300 int=2
func VerifC29Reduce() {
	a := verifScalar("a")
	verifReduced(ScReduce32(a), vs.ZBytesLE(a[:]))
}

//verif:harness timeout=300 int=2
func VerifC29MulAdd() {
	a, b, c := verifScalar("a"), verifScalar("b"), verifScalar("c")
	var s [32]byte
	ScMulAdd(&s, &a, &b, &c)
	verifReduced(s, vs.ZBytesLE(c[:]).Add(vs.ZBytesLE(a[:]).Mul(vs.ZBytesLE(b[:]))))
}

//verif:harness timeout=300 int=1
func VerifC29Check() {
	s := verifScalar("s")
	ok := vs.ZBytesLE(s[:]).Lt(vs.ZStr(verifOrder))
	vs.Assert(ScCheck(s) == ok, "a scalar is accepted exactly if it is below the group order")
	vs.Assert(ScMinimal(&s) == ok, "a scalar is minimal exactly if it is below the group order")
	vs.Cover("done")
}

//verif:harness timeout=300
func VerifC29Zero() {
	s := verifScalar("s")
	vs.Assert(ScIsNonZero(s) == (s != ScZero()), "a scalar is zero exactly if all of its bytes are")
	vs.Assert(ScZero() == [32]byte{}, "zero is zero")
	vs.Cover("done")
}
