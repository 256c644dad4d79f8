package cryptonote

import (
	"bytes"

	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_tx.go
//verif:use lib_skel.go

// ASSUME: byte strings are either arbitrary up to the stated length, or a valid encoding with an arbitrary window of the stated width at any position that decides the shape

//verif:harness timeout=60 timeout.thorough=500 paths=200000
func VerifC05TxBytes() {
	verifTxStable(vs.Bytes("b", vs.Int("length", 0, vs.Bound("bytes", 8, 11))))
}

//verif:harness timeout=60 timeout.thorough=500 paths=200000
func VerifC05TxWindow() {
	s := &verifSkel{fill: byte(vs.Int("fill", 0, 1))}
	if vs.Int("kind", 0, 1) == 0 {
		s.coinbase(1, 2, 3)
	} else {
		s.transfer()
	}
	verifTxStable(verifWindow(s, vs.Bound("window", 2, 4)))
}

//verif:harness timeout=100 timeout.thorough=800 paths=200000
func VerifC05BlockWindow() {
	s := &verifSkel{fill: 1}
	s.block(byte(vs.Int("version", 1, 5)))
	verifBlockStable(verifWindow(s, vs.Bound("window", 2, 4)))
}

func verifTxStable(b []byte) {
	t, _, err := verifParseTx(b)
	if err != nil {
		vs.Cover("rejected")
		return
	}
	vs.Cover("parsed")
	e := t.Serialize()
	u, r, err := verifParseTx(e)
	vs.Assert(err == nil, "the re-encoded transaction does not parse")
	vs.Assert(r.Len() == 0, "the re-encoded transaction has bytes that are not parsed")
	vs.Assert(verifSameTx(t, u), "re-encoding changes the transaction")
	vs.Assert(bytes.Equal(e, u.Serialize()), "the next encoding differs")
	vs.Assert(*t.Hash() == *u.Hash(), "re-encoding changes the transaction id")
	vs.Assert(*t.TransactionPrefix.Hash() == *u.TransactionPrefix.Hash(), "re-encoding changes the signed hash")
}

func verifBlockStable(b []byte) {
	t, _, err := verifParseBlock(b)
	if err != nil {
		vs.Cover("rejected")
		return
	}
	vs.Cover("parsed")
	e := t.Serialize()
	u, r, err := verifParseBlock(e)
	vs.Assert(err == nil, "the re-encoded block does not parse")
	vs.Assert(r.Len() == 0, "the re-encoded block has bytes that are not parsed")
	vs.Assert(verifSameBlock(t, u), "re-encoding changes the block")
	vs.Assert(bytes.Equal(e, u.Serialize()), "the next encoding differs")
	vs.Assert(*t.Hash() == *u.Hash(), "re-encoding changes the block id")
}
