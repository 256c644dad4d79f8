package crypto

// VerifStubs makes the checks of ring signatures (decided by C30) ask VerifRing.
var VerifStubs bool

var VerifRing func(prefix *Hash, image *KeyImage, keys *[]PublicKey, signatures *[]Signature) bool

func SpecRing(prefix *Hash, image *KeyImage, keys *[]PublicKey, signatures *[]Signature, _ bool) bool {
	return VerifRing(prefix, image, keys, signatures)
}
