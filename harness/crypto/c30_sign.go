package crypto

import (
	"bytes"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_group.go
// ASSUME: points and scalars that are not equal by construction are different (random oracle and generic group); keys and key images are multiples of the base point and of hash points, with or without the point of order two

func verifHash(name string) (h Hash) {
	copy(h[:], vs.Bytes(name, 32))
	return
}

// A generated signature has canonical scalars, is accepted for its hash and key, and survives serialization.
//
//verif:harness timeout=300 int=2 try=40 hang=1 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30Sign() {
	verifStart()
	s := SecretKey(verifScalar("secret"))
	h := verifHash("hash")
	pub, err := PublicFromSecret(&s)
	vs.Assert(err == nil && [32]byte(*pub) == verifG(s), "the public key is the secret key times the base point")
	sig, err := h.Sign(&s)
	vs.Assert(err == nil && ed.ScCheck(sig.C) && ed.ScCheck(sig.R), "signing gives canonical scalars")
	vs.Assert(sig.Check(&h, pub), "a generated signature is accepted")
	b, err := sig.Serialize()
	vs.Assert(err == nil && len(b) == 64, "a signature has 64 bytes")
	vs.Assert(vs.And(vs.Same(b[:32], sig.C[:]), vs.Same(b[32:], sig.R[:])), "a signature is written as challenge and response")
	var got Signature
	vs.Assert(got.Deserialize(bytes.NewReader(b)) == nil && got == *sig, "a signature is read as it was written")
	again, err := h.Sign(&s)
	vs.Assert(err == nil && again.Check(&h, pub), "a generated signature is accepted")
	vs.Assert(again.C != sig.C, "every signature has a nonce of its own")
	bad := SecretKey(verifPlusOrder(s))
	_, err = h.Sign(&bad)
	vs.Assert(err != nil, "secret keys that are not canonical are refused")
	_, err = PublicFromSecret(&bad)
	vs.Assert(err != nil, "secret keys that are not canonical are refused")
	vs.Assert(pub.Check() && !(*PublicKey)(&verifBadPoint).Check(), "a key is valid if it is a point")
	vs.Cover("signed")
}

// A signature is accepted exactly if it was made for the hash and the key: the signature that belongs to the nonce k
// is accepted, and neither one whose parts were changed nor one whose commitment is the neutral element.
//
//verif:harness timeout=300 int=2 try=40 hang=1 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30Check() {
	verifStart()
	s, k := verifScalar("secret"), verifScalar("nonce")
	h := verifHash("hash")
	pub := PublicKey(verifG(s))
	kG := verifG(k)
	what := vs.Int("change", 0, 10)
	if what == 1 { // a commitment that any key could open
		kG = infinityPoint
		k = [32]byte{}
	}
	var sig Signature
	sig.C = verifHs(h[:], pub[:], kG[:])
	sig.R = ed.ScMulSub(sig.C, s, k)
	switch what {
	case 2:
		sig.C = verifPlusOrder(sig.C)
	case 3:
		sig.R = verifPlusOrder(sig.R)
	case 4:
		sig.C = verifPlusOne(sig.C)
	case 5:
		sig.R = verifPlusOne(sig.R)
	case 6:
		i := vs.Int("byte", 0, 31)
		h[i] ^= 1
	case 7:
		pub = PublicKey(verifG(verifPlusOne(s)))
	case 8:
		pub = verifBadPoint
	case 9:
		sig.C = [32]byte{}
	case 10:
		sig.C, sig.R = sig.R, sig.C
	}
	vs.Assert(sig.Check(&h, &pub) == (what == 0), "a signature is accepted exactly if it is one of the hash and the key")
	vs.Cover("checked")
}
