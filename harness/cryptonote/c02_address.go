package cryptonote

import (
	"encoding/hex"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/crypto/base58"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// ASSUME: base58 is the bijection that C01 shows (the text is represented by the bytes it encodes); keys come from a list of valid and invalid points

// SpecEncode and SpecDecode stand for base58 on texts that are the encoding of some bytes.
func SpecEncode(src []byte) string { return string(src) }

func SpecDecode(s string) ([]byte, error) { return []byte(s), nil }

func verifHexKey(s string) (k crypto.PublicKey) {
	b, _ := hex.DecodeString(s)
	copy(k[:], b)
	return
}

var verifPoints = []string{
	"dbbd38087aa091d7b8bf36d30d4059c0450ac73c9ac5dea93af77d1e6cd7fdaf",
	"197b9cfc60e48db887a94cc359c2c3409b998b88d7241578d35b41a66df15e83",
	"0200000000000000000000000000000000000000000000000000000000000000",
	"0700000000000000000000000000000000000000000000000000000000000080",
}

// SpecCheck stands for the curve check on the listed points, other keys are left out.
func SpecCheck(k *crypto.PublicKey) bool {
	for i, p := range verifPoints {
		if *k == verifHexKey(p) {
			return i < 2
		}
	}
	vs.Assume(false)
	return false
}

// verifPoint picks a public key, the last two are not curve points.
func verifPoint(name string, n int) (k crypto.PublicKey, ok bool) {
	i := vs.Int(name, 0, n)
	k = verifHexKey(verifPoints[i])
	return k, i < 2
}

// verifKeys are encodings with the answer whether they are points of the curve.
var verifKeys = []struct {
	key string
	ok  bool
}{
	{"dbbd38087aa091d7b8bf36d30d4059c0450ac73c9ac5dea93af77d1e6cd7fdaf", true},
	{"5866666666666666666666666666666666666666666666666666666666666666", true},  // generator
	{"58666666666666666666666666666666666666666666666666666666666666e6", true},  // its negative
	{"0100000000000000000000000000000000000000000000000000000000000000", true},  // neutral
	{"0100000000000000000000000000000000000000000000000000000000000080", false}, // x = 0 with a sign
	{"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", true},  // y = -1
	{"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", false}, // y = -1, x = 0 with a sign
	{"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false}, // y = p
	{"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false}, // y = p + 1
	{"f0ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false}, // y = p + 3, 3 is a point
	{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false},
	{"0000000000000000000000000000000000000000000000000000000000000000", true}, // order 4
	{"0000000000000000000000000000000000000000000000000000000000000080", true}, // order 4
	{"0300000000000000000000000000000000000000000000000000000000000000", true},
	{"0300000000000000000000000000000000000000000000000000000000000080", true},
	{"0200000000000000000000000000000000000000000000000000000000000000", false},
	{"0200000000000000000000000000000000000000000000000000000000000080", false},
	{"0700000000000000000000000000000000000000000000000000000000000080", false},
}

//verif:harness timeout=60 timeout.thorough=300
func VerifC02Keys() {
	good := verifHexKey(verifPoints[1])
	k := verifKeys[vs.Int("key", 0, len(verifKeys)-1)]
	spend, view := verifHexKey(k.key), good
	if vs.Int("as view key", 0, 1) == 1 {
		spend, view = view, spend
	}
	tag := []uint64{0, 1, 111, 127, 128, 0x98e, 1<<63 - 1, 1<<64 - 1}[vs.Int("tag", 0, 7)]
	a := NewAddress(tag, spend, view)
	s := a.Base58()
	var b Address
	err := b.FromString(s)
	vs.Assert((err == nil) == k.ok, "keys are accepted exactly if they are points of the curve")
	if err == nil {
		vs.Assert(b.Tag == tag && b.SpendPublicKey == spend && b.ViewPublicKey == view && b.Base58() == s, "the text of an address yields another address")
		vs.Cover("accepted")
	} else {
		vs.Cover("rejected")
	}
}

//verif:harness timeout=60 timeout.thorough=300 contract=~/crypto/base58.Encode:SpecEncode,~/crypto/base58.Decode:SpecDecode,(*~/crypto.PublicKey).Check:SpecCheck
func VerifC02RoundTrip() {
	spend, _ := verifPoint("spend", 1)
	view, _ := verifPoint("view", 1)
	tag := vs.U64("tag")
	a := NewAddress(tag, spend, view)
	s := a.Base58()
	vs.Assert(a.Base58() == s, "the text of an address changes")
	var b Address
	err := b.FromString(s)
	vs.Assert(err == nil, "the text of an address is rejected")
	vs.Assert(vs.And(b.Tag == tag, b.SpendPublicKey == spend, b.ViewPublicKey == view), "the text of an address yields another address")
	vs.Assert(b.Base58() == s, "the parsed address has another text")
	raw, err := base58.Decode(s)
	vs.Assert(err == nil, "the text is not base58")
	sum := crypto.Keccak(raw[:len(raw)-4])
	vs.Assert(string(raw[len(raw)-4:]) == string(sum[:4]), "wrong checksum")
	vs.Cover("roundtrip")
}

//verif:harness timeout=100 timeout.thorough=600 contract=~/crypto/base58.Encode:SpecEncode,~/crypto/base58.Decode:SpecDecode,(*~/crypto.PublicKey).Check:SpecCheck
func VerifC02Accepts() {
	spend, okSpend := verifPoint("spend", 3)
	view, okView := verifHexKey(verifPoints[1]), true
	if okSpend {
		view, okView = verifPoint("view", vs.Bound("view keys", 3, 3))
	}
	raw := vs.Bytes("tag bytes", vs.Int("tag length", 0, vs.Bound("tag bytes", 10, 11)))
	raw = append(append(raw, spend[:]...), view[:]...)
	switch vs.Int("size", 0, 3) {
	case 1:
		raw = append(raw, vs.Bytes("tail", vs.Int("tail", 1, vs.Bound("tail bytes", 2, 5)))...)
	case 2:
		raw = raw[:len(raw)-vs.Int("missing", 1, vs.Bound("missing bytes", 1, 12))]
	case 3:
		raw = raw[:vs.Int("short", 0, len(raw)-64)]
	}
	sum := crypto.Keccak(raw)
	delta := vs.Bytes("delta", 4)
	for i := range delta {
		raw = append(raw, sum[i]^delta[i])
	}
	raw = raw[vs.Int("no checksum", 0, 1)*(len(raw)-vs.Int("left", 0, 4)):]
	s := base58.Encode(raw)
	var a Address
	if a.FromString(s) != nil {
		vs.Cover("rejected")
		return
	}
	vs.Cover("accepted")
	vs.Assert(vs.And(delta[0] == 0, delta[1] == 0, delta[2] == 0, delta[3] == 0), "a wrong checksum is accepted")
	vs.Assert(okSpend || a.SpendPublicKey != spend, "a spend key that is no curve point is accepted")
	vs.Assert(okView || a.ViewPublicKey != view, "a view key that is no curve point is accepted")
	b := NewAddress(a.Tag, a.SpendPublicKey, a.ViewPublicKey)
	vs.Assert(b.Base58() == s, "a text is accepted that is not the text of the address")
}
