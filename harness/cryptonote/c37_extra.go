package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// ASSUME: fields may repeat, the last one counts; padding runs to the end of the extra

// verifExtra parses an extra by its description: one tag byte after the other with the field that follows it.
func verifExtra(b []byte) (ok bool, key crypto.PublicKey, nonce []byte, tag *TransactionExtraMergeMiningTag) {
	for at := 0; at < len(b); {
		t := b[at]
		at++
		switch t {
		case 0: // padding: zeros up to the end
			if len(b)-at > 255 {
				return
			}
			for ; at < len(b); at++ {
				if b[at] != 0 {
					return
				}
			}
		case 1: // public key
			if len(b)-at < 32 {
				return
			}
			copy(key[:], b[at:at+32])
			at += 32
		case 2: // nonce with its length
			n, next := verifNumber(b, at)
			if next == 0 || n > 255 || int(n) > len(b)-next {
				return
			}
			if n > 0 {
				nonce = append([]byte{}, b[next:next+int(n)]...)
			}
			at = next + int(n)
		case 3: // merge mining tag: 33 bytes, one for the depth and 32 for the root
			n, next := verifNumber(b, at)
			if next == 0 || n != 33 || len(b)-next < 33 || b[next] >= 128 {
				return
			}
			tag = &TransactionExtraMergeMiningTag{Depth: uint64(b[next])}
			copy(tag.MerkleRoot[:], b[next+1:next+33])
			at = next + 33
		default:
			return
		}
	}
	ok = true
	return
}

// verifNumber reads a varint, next is 0 when there is none.
func verifNumber(b []byte, at int) (v uint64, next int) {
	for i := 0; at+i < len(b); i++ {
		d := b[at+i]
		if i == 9 && d > 1 {
			return 0, 0
		}
		v |= uint64(d&0x7f) << uint(7*i)
		if d < 0x80 {
			return v, at + i + 1
		}
		if i == 9 {
			return 0, 0
		}
	}
	return 0, 0
}

func verifCompareExtra(b []byte) {
	ok, key, nonce, tag := verifExtra(b)
	in := append([]byte{}, b...)
	p := TransactionPrefix{Extra: b}
	tef, err := p.ParseExtra()
	vs.Assert((err == nil) == ok, "an extra is accepted or rejected wrongly")
	if err != nil {
		vs.Cover("?rejected")
		return
	}
	vs.Cover("?parsed")
	vs.Assert(tef != nil, "no fields and no error")
	vs.Assert(tef.PublicKey == key, "wrong public key")
	vs.Assert(bytes.Equal(tef.Nonce, nonce), "wrong nonce")
	vs.Assert((tef.MiningTag == nil) == (tag == nil), "merge mining tag missing or made up")
	if tag != nil {
		vs.Assert(tef.MiningTag.Depth == tag.Depth, "wrong merge mining depth")
		vs.Assert(tef.MiningTag.MerkleRoot == tag.MerkleRoot, "wrong merge mining root")
	}
	vs.Assert(bytes.Equal(in, b), "parsing changed the extra")
}

//verif:harness timeout=60 timeout.thorough=600 paths=200000
func VerifC37Bytes() {
	verifCompareExtra(vs.Bytes("extra", vs.Int("length", 0, vs.Bound("bytes", 6, 9))))
	vs.Cover("compared")
}

// A key, nonce and merge mining tag in any order with arbitrary contents, cut anywhere, and arbitrary bytes after them.
//
//verif:harness timeout=100 timeout.thorough=800 paths=200000
func VerifC37Fields() {
	var b []byte
	for i := vs.Int("fields", 0, vs.Bound("fields", 2, 4)); i > 0; i-- {
		switch vs.Int("field", 1, 3) {
		case 1:
			b = append(append(b, 1), vs.Bytes("key", 32)...)
		case 2:
			n := vs.Int("nonce size", 0, 3)
			b = append(append(b, 2, byte(n)), vs.Bytes("nonce", n)...)
		case 3:
			b = append(append(b, 3, 33), vs.Bytes("tag", 33)...)
		}
	}
	if len(b) > 0 {
		b = b[:len(b)-vs.Int("cut", 0, vs.Bound("cut", 2, 33))%len(b)]
	}
	b = append(b, vs.Bytes("rest", vs.Int("rest size", 0, vs.Bound("rest", 2, 4)))...)
	verifCompareExtra(b)
	vs.Cover("compared")
}

func verifDigits() int {
	if vs.Bound("all varint lengths", 0, 1) == 1 {
		return vs.Int("digits", 0, 10)
	}
	return vs.Int("digits", 0, 3) * 3
}

// Limits of the padding and the nonce, and sizes that need several bytes.
//
//verif:harness timeout=100 timeout.thorough=800 paths=200000
func VerifC37Limits() {
	switch vs.Int("kind", 0, 3) {
	case 0:
		b := make([]byte, vs.Int("padding", 252, vs.Bound("longest padding", 260, 600)))
		b[vs.Int("at", 0, 1)*(len(b)-1)] = vs.U8("byte")
		verifCompareExtra(b)
	case 1:
		n := vs.Int("nonce size", 129-vs.Bound("nonce sizes", 0, 3), vs.Bound("nonce size", 129, 260))
		b := append([]byte{2}, vs.U8("size"), vs.U8("size"))
		b = append(b, vs.Bytes("nonce", n)...)
		b[len(b)-1] = 0
		vs.Assume(b[1] >= 0x7e)
		vs.Assume(b[2] <= 3)
		for i := 3; i < len(b); i++ {
			b[i] = 0
		}
		verifCompareExtra(b)
	case 2:
		// any size at all
		b := []byte{2}
		for i := verifDigits(); i > 0; i-- {
			b = append(b, vs.U8("digit")|0x80)
		}
		b = append(b, vs.U8("last"))
		verifCompareExtra(append(b, make([]byte, 4)...))
	case 3:
		b := []byte{3}
		for i := verifDigits(); i > 0; i-- {
			b = append(b, vs.U8("digit")|0x80)
		}
		b = append(b, vs.U8("last"))
		b = append(b, vs.Bytes("depth", 2)...)
		verifCompareExtra(append(b, make([]byte, vs.Int("root", 30, 33))...))
	}
	vs.Cover("compared")
}
