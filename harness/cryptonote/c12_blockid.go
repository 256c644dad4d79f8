package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_tx.go
//verif:use lib_block.go

// ASSUME: Keccak is collision free; at most one number of each block needs a varint longer than one byte; list lengths are the stated bounds

//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC12Plain() {
	v := byte(vs.Int("version", 1, 3))
	if v > 1 {
		v += 2
	}
	mk := func() *Block {
		f := &verifFields{wide: vs.Int("wide", 0, 1)*4 - 1, coinbase: true}
		if f.wide > 0 {
			f.wide = vs.Int("which", 0, 3)
		}
		b := verifBlockOf(v, f, 0, 0, vs.Int("txs", 0, vs.Bound("transactions", 2, 5)))
		f.done()
		return b
	}
	verifBlockIds(mk(), mk())
}

//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC12Merged() {
	v := byte(vs.Int("version", 2, 3))
	mk := func() *Block {
		return verifBlockOf(v, &verifFields{wide: -1, coinbase: true}, vs.Int("branch", 0, vs.Bound("parent branch", 1, 3)), vs.Int("depth", 0, vs.Bound("blockchain branch", 1, 2)), vs.Int("txs", 0, vs.Bound("transactions", 1, 2)))
	}
	verifBlockIds(mk(), mk())
}

// Coinbases of any shape.
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC12Coinbase() {
	mk := func() *Block { return verifBlockOf(1, &verifFields{wide: -1}, 0, 0, 1) }
	verifBlockIds(mk(), mk())
}

// Many transactions, deep branches, and all numbers long at once.
//
//verif:harness timeout=100 timeout.thorough=800
func VerifC12Long() {
	v, n, size := byte(vs.Int("version", 1, 5)), vs.Bound("long list", 9, 40), uint(vs.Int("bytes", 1, vs.Bound("number bytes", 2, 10)))
	mk := func() *Block {
		f := &verifFields{wide: -1, coinbase: true, bytes: size}
		if size == 1 {
			f.bytes = 0
		}
		if v == 2 || v == 3 {
			return verifBlockOf(v, f, vs.Int("branch", 2, 3), vs.Int("depth", 2, 3), n)
		}
		return verifBlockOf(v, f, 0, 0, n-vs.Int("fewer", 0, 1))
	}
	verifBlockIds(mk(), mk())
}

func verifBlockIds(a, b *Block) {
	id := *a.Hash() == *b.Hash()
	header := vs.Same(a.BlockHeader, b.BlockHeader)
	vs.Assert(!vs.And(id, !header), "blocks with different headers have the same id")
	vs.Assert(!vs.And(id, !verifSameTx(&a.BaseTransaction, &b.BaseTransaction)), "blocks with different coinbases have the same id")
	vs.Assert(!vs.And(id, !vs.Same(a.TransactionsHashes, b.TransactionsHashes)), "blocks with different transactions have the same id")
	b.Signature = a.Signature
	same := verifSameBlock(a, b)
	vs.Assert(!vs.And(id, !same), "different blocks have the same id")
	vs.Assert(!vs.And(same, !id), "equal blocks have different ids")
	vs.Cover("pair")
	if same {
		vs.Cover("equal")
	}
}
