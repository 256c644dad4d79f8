package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
// ASSUME: operands are within the limb bounds ref10 documents (products and squares 3.3*2^25 and 3.3*2^24, encoding 2.2*2^25 and 2.2*2^24, sums and differences 4*2^25 and 4*2^24); what the bounds mean for sequences of operations is checked in C36

//verif:harness timeout=300 int=2
func VerifC28AddSub() {
	f, g := verifElement("f", 400), verifElement("g", 400)
	var h FieldElement
	FeAdd(&h, &f, &g)
	for i := range h {
		vs.Assert(int64(h[i]) == int64(f[i])+int64(g[i]), "a sum is exact")
	}
	FeSub(&h, &f, &g)
	for i := range h {
		vs.Assert(int64(h[i]) == int64(f[i])-int64(g[i]), "a difference is exact")
	}
	FeNeg(&h, &f)
	for i := range h {
		vs.Assert(int64(h[i]) == -int64(f[i]), "a negation is exact")
	}
	FeCopy(&h, &f)
	vs.Assert(h == f, "a copy is equal")
	vs.Cover("done")
}

// The destination of an operation may be one of its operands.
//
//verif:harness timeout=300 int=2
func VerifC28Alias() {
	f, g := verifElement("f", 330), verifElement("g", 330)
	p := vs.ZStr(verifPrime)
	z := verifVal(&f).Mul(verifVal(&g)).Mod(p)
	h := f
	FeMul(&h, &h, &g)
	vs.Assert(verifVal(&h).Mod(p).Eq(z), "a product may replace its first operand")
	h = g
	FeMul(&h, &f, &h)
	vs.Assert(verifVal(&h).Mod(p).Eq(z), "a product may replace its second operand")
	h = f
	FeSquare(&h, &h)
	vs.Assert(verifVal(&h).Mod(p).Eq(verifVal(&f).Mul(verifVal(&f)).Mod(p)), "a square may replace its operand")
	h = f
	FeAdd(&h, &h, &g)
	k := g
	FeAdd(&k, &f, &k)
	vs.Assert(h == k, "a sum may replace either operand")
	h = f
	FeSub(&h, &h, &g)
	k = g
	FeSub(&k, &f, &k)
	vs.Assert(h == k, "a difference may replace either operand")
	vs.Assert(int64(h[3]) == int64(f[3])-int64(g[3]), "a difference may replace its operand")
	vs.Cover("done")
}

//verif:harness timeout=300 int=2
func VerifC28Mul() {
	f, g := verifElement("f", 330), verifElement("g", 330)
	var h FieldElement
	FeMul(&h, &f, &g)
	verifSame(&h, verifVal(&f).Mul(verifVal(&g)), "a product is exact")
	verifBounded(&h, 101, "a product is bounded")
}

//verif:harness timeout=300 int=2
func VerifC28Square() {
	f := verifElement("f", 330)
	var h FieldElement
	FeSquare(&h, &f)
	verifSame(&h, verifVal(&f).Mul(verifVal(&f)), "a square is exact")
	verifBounded(&h, 101, "a square is bounded")
	FeSquare2(&h, &f)
	verifSame(&h, verifVal(&f).Mul(verifVal(&f)).Mul(vs.ZI(2)), "a doubled square is exact")
	verifBounded(&h, 101, "a doubled square is bounded")
}

//verif:harness timeout=300 int=2
func VerifC28Encode() {
	f := verifElement("f", 220)
	p := vs.ZStr(verifPrime)
	var s [32]byte
	FeToBytes(&s, f)
	z := vs.ZBytesLE(s[:])
	vs.Assert(z.Lt(p), "an encoding is the canonical one")
	vs.Assert(z.Eq(verifVal(&f).Mod(p)), "an encoding is the value modulo the prime")
	vs.Cover("done")
}

//verif:harness timeout=300 int=2
func VerifC28Decode() {
	var s [32]byte
	copy(s[:], vs.Bytes("s", 32))
	var f FieldElement
	FeFromBytes(&f, &s)
	verifSame(&f, vs.ZBytesLE(s[:]), "a decoded element is the number its bytes spell")
	verifBounded(&f, 101, "a decoded element is bounded")
}

// verifEncoding replaces FeToBytes where only the use of the encoding matters.
func verifEncoding(s *[32]byte, h FieldElement) {
	copy(s[:], verifEncoded)
}

var verifEncoded []byte

// The sign and the zero test are read off the canonical encoding.
//
//verif:harness timeout=300 contract=~/crypto/edwards25519.FeToBytes:verifEncoding
func VerifC28Tests() {
	verifEncoded = vs.Bytes("s", 32)
	vs.Assume(verifEncoded[31] < 127)
	var s [32]byte
	copy(s[:], verifEncoded)
	var f FieldElement
	FeFromBytes(&f, &s)
	vs.Assert(FeIsNegative(&f) == s[0]&1, "an element is negative exactly if its canonical encoding is odd")
	vs.Assert((FeIsNonZero(&f) == 0) == (s == [32]byte{}), "an element is zero exactly if its encoding is")
	vs.Assert(vs.Or(FeIsNonZero(&f) == 0, FeIsNonZero(&f) == 1), "the zero test is 0 or 1")
	vs.Cover("done")
}

//verif:harness timeout=300
func VerifC28Move() {
	var f, g FieldElement
	for i := range f {
		f[i] = int32(vs.U32("f[" + string(rune('0'+i)) + "]"))
		g[i] = int32(vs.U32("g[" + string(rune('0'+i)) + "]"))
	}
	h := f
	FeCMove(&h, &g, 0)
	vs.Assert(h == f, "a move on 0 keeps the element")
	FeCMove(&h, &g, 1)
	vs.Assert(h == g, "a move on 1 replaces the element")
	FeZero(&h)
	vs.Assert(h == FieldElement{}, "zero is zero")
	h = f
	FeOne(&h)
	vs.Assert(h == FieldElement{1}, "one is one")
	vs.Cover("done")
}

//verif:harness timeout=300 int=2
func VerifC28Combine() {
	var h [10]int64
	z := vs.ZI(0)
	for i := range h {
		h[i] = int64(vs.U64("h[" + string(rune('0'+i)) + "]"))
		vs.Assume(h[i] <= 1<<40)
		vs.Assume(h[i] >= -1<<40)
		z = z.Add(vs.ZI(h[i]).Mul(verifPow(verifShift[i])))
	}
	var f FieldElement
	FeCombine(&f, h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9])
	verifSame(&f, z, "a combination is exact")
	verifBounded(&f, 101, "a combination is bounded")
}
