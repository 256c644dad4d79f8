package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_tx.go
//verif:use lib_block.go

// ASSUME: the header numbers and one number of the transactions are arbitrary, the others fit one byte; list lengths are the stated bounds

//verif:harness timeout=100 timeout.thorough=800 paths=100000
func VerifC04Plain() {
	v := byte(vs.Int("version", 1, 3))
	if v > 1 {
		v += 2
	}
	f := &verifFields{wide: vs.Int("wide", 0, 6)}
	b := verifBlockOf(v, f, 0, 0, vs.Int("txs", 0, vs.Bound("transactions", 2, 5)))
	f.done()
	verifBlockRoundTrip(b)
	vs.Cover("plain")
}

//verif:harness timeout=100 timeout.thorough=800 paths=100000
func VerifC04Merged() {
	f := &verifFields{wide: vs.Int("wide", 0, 11)}
	b := verifBlockOf(byte(vs.Int("version", 2, 3)), f, vs.Int("branch", 0, vs.Bound("parent branch", 2, 4)), vs.Int("depth", 0, vs.Bound("blockchain branch", 1, 3)), 1)
	f.done()
	verifBlockRoundTrip(b)
	vs.Cover("merged")
}

// Long lists: two-byte lengths, the deepest branches.
//
//verif:harness timeout=100 timeout.thorough=800 paths=100000
func VerifC04Long() {
	f := &verifFields{wide: -1}
	var b *Block
	switch vs.Int("kind", 0, 2) {
	case 0:
		b = verifBlockOf(4, f, 0, 0, vs.Bound("long list", 130, 260))
	case 1:
		b = verifBlockOf(3, f, vs.Int("branch", 3, 15), 0, 1)
	default:
		b = verifBlockOf(2, f, 0, vs.Bound("deep branch", 20, 127), 1)
	}
	verifBlockRoundTrip(b)
	vs.Cover("long")
}

// All numbers are long at once.
//
//verif:harness timeout=100 timeout.thorough=800
func VerifC04Wide() {
	f := &verifFields{wide: -1, bytes: uint(vs.Int("bytes", 2, 10))}
	b := verifBlockOf(byte(vs.Int("version", 1, 5)), f, vs.Int("branch", 0, 1), vs.Int("depth", 0, 1), vs.Int("txs", 0, 2))
	verifBlockRoundTrip(b)
	vs.Cover("wide")
}

func verifBlockRoundTrip(b *Block) {
	e := b.Serialize()
	u, r, err := verifParseBlock(append(append([]byte{}, e...), 7))
	vs.Assert(err == nil, "serialised bytes do not parse")
	vs.Assert(r.Len() == 1, "parsing does not consume exactly the bytes of the block")
	vs.Assert(verifSameBlock(b, u), "the parsed block differs")
	vs.Assert(*u.Hash() == *b.Hash(), "the parsed block has another id")
	vs.Assert(u.Index() == b.Index(), "the parsed block has another height")
	vs.Observe("block", e)
}
