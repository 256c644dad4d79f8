package crypto

import (
	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_group.go
// ASSUME: points and scalars that are not equal by construction are different (random oracle and generic group); keys and key images are multiples of the base point and of hash points, with or without the point of order two

// verifRing is a ring of keys with the secret of one of them.
type verifRing struct {
	secret [32]byte
	index  int
	pubs   []PublicKey
	image  KeyImage
	hash   Hash
}

func verifMakeRing(n int) (r verifRing) {
	r.index = vs.Int("index", 0, n-1)
	copy(r.hash[:], vs.Bytes("hash", 32))
	for i := 0; i < n; i++ {
		s := verifScalar("secret")
		if i == r.index {
			r.secret = s
		}
		r.pubs = append(r.pubs, PublicKey(verifG(s)))
	}
	r.image = KeyImage(verifTimes(r.secret, verifHp(r.pubs[r.index])))
	return
}

// verifSign signs for the ring the way the CryptoNote paper tells; twist is 1 if the image has the point of order two
// added and the challenge of the signer is expected to be odd.
func (r *verifRing) verifSign(twist int) []Signature {
	for {
		sigs := make([]Signature, len(r.pubs))
		k := verifScalar("nonce")
		var data []byte
		data = append(data, r.hash[:]...)
		sum := [32]byte{}
		for i, p := range r.pubs {
			hp := verifHp(p)
			var x, y [32]byte
			if i == r.index {
				x, y = verifG(k), verifTimes(k, hp)
				if twist == 1 {
					y = verifTwist(y)
				}
			} else {
				sigs[i].C, sigs[i].R = EllipticCurveScalar(verifScalar("c")), EllipticCurveScalar(verifScalar("r"))
				x = verifPlus(verifTimes(sigs[i].C, p), verifG(sigs[i].R))
				y = verifPlus(verifTimes(sigs[i].C, r.image), verifTimes(sigs[i].R, hp))
				c := [32]byte(sigs[i].C)
				sum = ed.ScAdd(&sum, &c)
			}
			data = append(append(data, x[:]...), y[:]...)
		}
		c := ed.ScSub(verifHs(data), sum)
		sigs[r.index].C = c
		sigs[r.index].R = ed.ScMulSub(c, r.secret, k)
		if twist < 0 {
			return sigs
		}
		if vs.Symbolic() {
			vs.Assume(verifScalarOf(&c).parity().Eq(vs.ZI(int64(twist))))
			return sigs
		}
		if int(c[0]&1) == twist {
			return sigs
		}
		verifShift++
	}
}

// A generated ring signature has canonical scalars and is accepted; wrong arguments are refused.
//
//verif:harness timeout=300 int=2 try=40 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30RingSign() {
	verifStart()
	n := vs.Int("n", 1, vs.Bound("n", 2, 4))
	r := verifMakeRing(n)
	img, err := GenerateKeyImage(&r.pubs[r.index], (*SecretKey)(&r.secret))
	vs.Assert(err == nil && *img == r.image, "a key image is the secret times the point of the key")
	s := SecretKey(r.secret)
	index := uint64(r.index)
	image := r.image
	what := vs.Int("fault", 0, 5)
	switch what {
	case 1:
		index = uint64(n)
	case 2:
		s = SecretKey(verifPlusOne(s))
	case 3:
		s = SecretKey(verifPlusOrder(s))
	case 4:
		image = KeyImage(verifTwist(image))
	case 5:
		vs.Assume(n > 1)
		r.pubs[(r.index+1)%n] = verifBadPoint
	}
	sigs, err := GenerateRingSignature(&r.hash, &image, &r.pubs, &s, index)
	if what != 0 {
		vs.Assert(err != nil, "a ring signature is made for valid keys, the key image and the secret of one of the keys only")
		return
	}
	vs.Assert(err == nil && len(sigs) == n, "a ring signature has a part for every key")
	for i := range sigs {
		vs.Assert(ed.ScCheck(sigs[i].C) && ed.ScCheck(sigs[i].R), "a ring signature has canonical scalars")
	}
	vs.Assert(CheckRingSignature(&r.hash, &r.image, &r.pubs, &sigs, true), "a generated ring signature is accepted")
	vs.Assert(CheckRingSignature(&r.hash, &r.image, &r.pubs, &sigs, false), "a generated ring signature is accepted")
	vs.Cover("signed")
}

// A ring signature is accepted exactly if it was made for the hash, the image and the keys.
//
//verif:harness timeout=300 int=2 try=40 contract=(*~/crypto/edwards25519.ExtendedGroupElement).ToBytes:verifEToBytes,(*~/crypto/edwards25519.ProjectiveGroupElement).ToBytes:verifPToBytes,(*~/crypto/edwards25519.ExtendedGroupElement).FromBytes:verifDecode,~/crypto/edwards25519.GeScalarMultBase:verifMultBase,~/crypto/edwards25519.GeScalarMult:verifMult,~/crypto/edwards25519.GeDoubleScalarMultBaseVartime:verifDouble,~/crypto/edwards25519.GeDSMPreComp:verifDSM,~/crypto/edwards25519.GeDoubleScalarMultPrecompVartime:verifDoublePre,~/crypto/edwards25519.GeCheckSubGroupPreCompVartime:verifSubGroup,~/crypto/edwards25519.GeMul8:verifMul8,(*~/crypto/edwards25519.CompletedGroupElement).ToProjective:verifCToP,(*~/crypto/edwards25519.CompletedGroupElement).ToExtended:verifCToE,(*~/crypto/edwards25519.ExtendedGroupElement).ToProjective:verifEToP,(*~/crypto/edwards25519.ExtendedGroupElement).ToCached:verifToCached,~/crypto/edwards25519.GeAdd:verifAdd,~/crypto/edwards25519.GeSub:verifSub,(*~/crypto/edwards25519.ProjectiveGroupElement).FromBytes:verifElligator,~/crypto/edwards25519.ScReduce32:verifReduce32,~/crypto/edwards25519.ScReduce:verifReduce64,~/crypto/edwards25519.ScAdd:verifScAdd,~/crypto/edwards25519.ScSub:verifScSub,~/crypto/edwards25519.ScMulSub:verifScMulSub,~/crypto/edwards25519.ScCheck:verifScCheck,~/crypto/edwards25519.ScIsNonZero:verifScIsNonZero,!RandomScalar:verifRandomScalar
func VerifC30RingCheck() {
	verifStart()
	n := vs.Int("n", 1, vs.Bound("n", 2, 3))
	r := verifMakeRing(n)
	check := vs.Bool("check")
	what := vs.Int("change", 0, 13)
	ok := what == 0
	twist := -1
	if what == 1 { // an image outside the subgroup, with an even or odd challenge
		r.image = KeyImage(verifTwist(r.image))
		twist = vs.Int("twist", 0, 1)
		ok = !check
		if n > 1 {
			return
		}
	}
	sigs := r.verifSign(twist)
	i := vs.Int("at", 0, n-1)
	switch what {
	case 2:
		sigs[i].C = verifPlusOrder(sigs[i].C)
	case 3:
		sigs[i].R = verifPlusOrder(sigs[i].R)
	case 4:
		sigs[i].C = verifPlusOne(sigs[i].C)
	case 5:
		sigs[i].R = verifPlusOne(sigs[i].R)
	case 6:
		r.hash[vs.Int("byte", 0, 31)] ^= 1
	case 7:
		r.pubs[i] = PublicKey(verifG(verifPlusOne(r.secret)))
	case 8:
		r.pubs[i] = verifBadPoint
	case 9:
		r.image = verifBadPoint
	case 10:
		r.image = KeyImage(verifTimes(verifPlusOne(r.secret), verifHp(r.pubs[r.index])))
	case 11:
		sigs = append(sigs, Signature{})
	case 12:
		sigs = sigs[:len(sigs)-1]
	case 13:
		j := (i + 1) % n
		ok = i == j
		sigs[i], sigs[j] = sigs[j], sigs[i]
	}
	vs.Assert(CheckRingSignature(&r.hash, &r.image, &r.pubs, &sigs, check) == ok, "a ring signature is accepted exactly if it is one of the hash, the image and the keys")
	vs.Cover("checked")
}
