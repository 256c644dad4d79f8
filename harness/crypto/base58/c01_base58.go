package base58

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:harness int=1 timeout=60
func VerifC01RoundTrip() {
	n := vs.Int("n", 0, vs.Bound("bytes", 8, 20))
	in := vs.Bytes("in", n)
	s := Encode(in)
	out, err := Decode(s)
	vs.Assert(err == nil, "encoded text does not decode")
	vs.Assert(len(out) == n, "decoded length differs")
	vs.Assert(vs.Same(in, out) || n == 0, "decoded bytes differ")
	vs.Cover("roundtrip")
	vs.Observe("s", s)
}

const verifAlphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// verifDecodes checks Decode on one block of arbitrary characters after a concrete prefix.
func verifDecodes(blocks, n int) {
	prefix, before := "", []byte{}
	for i := 0; i < blocks; i++ {
		b := []byte{byte(i), 2, 200, 4, byte(5 * i), 6, 77, byte(255 - i)}
		prefix += Encode(b)
		before = append(before, b...)
	}
	text := vs.Bytes("text", n)
	if n == 11 {
		// case split on the leading digit of a full block; 58 stands for any character outside the alphabet
		if k := vs.Int("first", 0, 58); k < 58 {
			vs.Assume(text[0] == verifAlphabet[k])
			text[0] = verifAlphabet[k]
		} else {
			in := false
			for i := 0; i < 58; i++ {
				in = vs.Or(in, text[0] == verifAlphabet[i])
			}
			vs.Assume(!in)
		}
	}
	s := prefix + string(text)
	// reference: the digits as an integer, all characters in the alphabet, a length that exists and a value that fits
	sizes := map[int]int{0: 0, 2: 1, 3: 2, 5: 3, 6: 4, 7: 5, 9: 6, 10: 7, 11: 8}
	size, ok := sizes[n]
	value := vs.ZU(0)
	for i := 0; i < n; i++ {
		d, in := uint64(0), false
		for k := 0; k < 58; k++ {
			hit := text[i] == verifAlphabet[k]
			in = vs.Or(in, hit)
			d = vs.IteU64(hit, uint64(k), d)
		}
		ok = vs.And(ok, in)
		value = value.Mul(vs.ZU(58)).Add(vs.ZU(d))
	}
	limit := vs.ZU(1)
	for i := 0; i < size; i++ {
		limit = limit.Mul(vs.ZU(256))
	}
	ok = vs.And(ok, value.Lt(limit))
	out, err := Decode(s)
	if err != nil {
		vs.Assert(!ok, "a valid text is rejected")
		vs.Cover("?rejected")
		return
	}
	vs.Assert(ok, "an invalid text decodes")
	vs.Assert(len(out) == len(before)+size, "length of the decoded bytes")
	vs.Assert(vs.Same(out[:len(before)], before), "full blocks before the last one decode to other bytes")
	vs.Assert(Encode(out) == s, "a decoded text does not encode to itself")
	vs.Cover("accepted")
	vs.Observe("out", out)
}

//verif:harness int=1 timeout=100 timeout.thorough=300
func VerifC01Decode() {
	verifDecodes(0, vs.Int("n", 0, 11))
}

//verif:harness int=1 timeout=100 timeout.thorough=300
func VerifC01DecodeSecondBlock() {
	verifDecodes(1, vs.Int("n", 1, vs.Bound("chars after a full block", 11, 11)))
}

// As long as the texts of addresses and beyond: the blocks are independent of how many come before.
//
//verif:harness int=1 timeout=100 timeout.thorough=300
func VerifC01DecodeManyBlocks() {
	verifDecodes(vs.Int("blocks", 2, vs.Bound("full blocks before", 9, 20)), vs.Int("n", 1, vs.Bound("chars after the full blocks", 2, 3)))
}

// The encoding of many blocks is the encodings of the blocks, one after another.
//
//verif:harness int=1 timeout=60
func VerifC01ManyBlocks() {
	n := vs.Int("n", 16, vs.Bound("bytes, all arbitrary", 72, 200))
	in := vs.Bytes("in", n)
	s := Encode(in)
	want := ""
	for i := 0; i < n; i += 8 {
		j := i + 8
		if j > n {
			j = n
		}
		want += Encode(in[i:j])
	}
	vs.Assert(s == want, "the encoding is not the one of its blocks")
	vs.Cover("blocks")
}

// Any damage to one character of an encoded two-block text is noticed or gives other bytes.
//
//verif:harness int=1 timeout=60
func VerifC01Blocks() {
	n := vs.Int("n", 9, vs.Bound("bytes, first block arbitrary", 11, 17))
	in := vs.Bytes("in", n)
	s := Encode(in)
	vs.Assert(len(s) == n/8*11+[]int{0, 2, 3, 5, 6, 7, 9, 10}[n%8], "length of the encoded text")
	vs.Assert(Encode(in[:8]) == s[:11], "the first block does not depend only on its own bytes")
	vs.Assert(Encode(in[8:]) == s[11:], "the last block does not depend only on its own bytes")
	vs.Cover("blocks")
	vs.Observe("s", s)
}
