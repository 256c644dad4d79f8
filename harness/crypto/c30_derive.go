package crypto

import (
	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_group.go
// ASSUME: points and scalars that are not equal by construction are different (random oracle and generic group); keys and key images are multiples of the base point and of hash points, with or without the point of order two

// Both sides of an exchange derive the same, eight times the product of the keys.
//
//verif:harness timeout=300 int=2 try=40 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30Derivation() {
	verifStart()
	a, b := verifScalar("a"), verifScalar("b")
	pa, pb := verifG(a), verifG(b)
	d1, err := GenerateKeyDerivation(pa, b)
	vs.Assert(err == nil, "a derivation exists for every key")
	want := verifTimes(a, pb)
	for i := 0; i < 3; i++ {
		want = verifPlus(want, want)
	}
	vs.Assert([32]byte(*d1) == want, "a derivation is eight times the product of the keys")
	d2, err := GenerateKeyDerivation(pb, a)
	vs.Assert(err == nil && *d2 == *d1, "both sides derive the same")
	d3, err := GenerateKeyDerivation(verifTwist(pa), b)
	vs.Assert(err == nil && *d3 == *d1, "a derivation does not depend on the part of a key outside the subgroup")
	_, err = GenerateKeyDerivation(pa, SecretKey(verifPlusOrder(b)))
	vs.Assert(err != nil, "secret keys that are not canonical are refused")
	_, err = GenerateKeyDerivation(verifBadPoint, b)
	vs.Assert(err != nil, "keys that are not points are refused")
	vs.Cover("derived")
}

// The key derived from a public key is the one of the secret key derived from its secret key.
//
//verif:harness timeout=300 int=2 try=40 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30Derive() {
	verifStart()
	base := verifScalar("base")
	d := KeyDerivation(verifG(verifScalar("derivation")))
	index := vs.U64("index")
	pub := PublicKey(verifG(base))
	got, err := d.derivePublicKey(index, &pub)
	vs.Assert(err == nil, "every key has derived keys")
	var v []byte
	for x := index; ; x >>= 7 {
		if x < 0x80 {
			v = append(v, byte(x))
			break
		}
		v = append(v, byte(x)|0x80)
	}
	h := verifHs(d[:], v)
	vs.Assert([32]byte(*got) == verifPlus(pub, verifG(h)), "a derived key is the base and the hash of the derivation and the index times the base point")
	sec, err := d.deriveSecretKey(index, (*PublicKey)(&base))
	vs.Assert(err == nil && ed.ScCheck(*sec), "derived secret keys are canonical")
	p, err := PublicFromSecret(sec)
	vs.Assert(err == nil && *p == *got, "the derived secret key is that of the derived key")
	back, err := d.underivePublicKey(index, got)
	vs.Assert(err == nil && *back == pub, "the base of a derived key is found")
	bad := PublicKey(verifBadPoint)
	_, err = d.derivePublicKey(index, &bad)
	vs.Assert(err != nil, "keys that are not points are refused")
	_, err = d.underivePublicKey(index, &bad)
	vs.Assert(err != nil, "keys that are not points are refused")
	over := PublicKey(verifPlusOrder(base))
	_, err = d.deriveSecretKey(index, &over)
	vs.Assert(err != nil, "secret keys that are not canonical are refused")
	vs.Cover("derived")
}

// The key image is the secret times eight times the point of the hash of the key; the view key is the hash of the
// spend key.
//
//verif:harness timeout=300 int=2 try=40 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30Image() {
	verifStart()
	s := verifScalar("secret")
	pub := PublicKey(verifG(s))
	img, err := GenerateKeyImage(&pub, (*SecretKey)(&s))
	vs.Assert(err == nil && [32]byte(*img) == verifTimes(s, verifHp(pub)), "a key image is the secret times the point of the key")
	k := verifScalar("other")
	img2, err := img.ScalarMult((*KeyImage)(&k))
	vs.Assert(err == nil && [32]byte(*img2) == verifTimes(k, *img), "an image multiplied with a scalar")
	over := SecretKey(verifPlusOrder(s))
	_, err = GenerateKeyImage(&pub, &over)
	vs.Assert(err != nil, "secret keys that are not canonical are refused")
	h := HashFromBytes(pub[:])
	p, err := h.toPoint()
	vs.Assert(err == nil && [32]byte(*p) == verifHp(pub), "the point of a hash is eight times its image")
	sk := SecretKey(s)
	vs.Assert([32]byte(ViewFromSpend(&sk)) == verifHs(s[:]), "the view key is the hash of the spend key")
	vs.Cover("image")
}
