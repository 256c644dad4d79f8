package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

// verifBlockOf is a block of a version with arbitrary contents and lists of the given lengths.
func verifBlockOf(version byte, f *verifFields, branch, depth, txs int) *Block {
	b := &Block{BlockHeader: BlockHeader{
		MajorVersion: version,
		MinorVersion: byte(f.num(8)),
		// versions 2 and 3 take time and nonce from the parent block
		PreviousBlockHash: verifHash("prev"),
	}}
	if version == 2 || version == 3 {
		mm := verifHash("mm root")
		p := &ParentBlock{
			MajorVersion: byte(f.num(8)), MinorVersion: byte(f.num(8)), Timestamp: f.num(64), Nonce: vs.U32("nonce"), Prev: verifHash("parent prev"),
		}
		p.TransactionsCount = vs.U16("parent txs")
		if branch == 0 {
			vs.Assume(p.TransactionsCount <= 1)
		} else {
			vs.Assume(uint32(p.TransactionsCount) >= 1<<uint(branch))
			vs.Assume(uint32(p.TransactionsCount) < 2<<uint(branch))
		}
		for i := 0; i < branch; i++ {
			p.BaseTransactionBranch = append(p.BaseTransactionBranch, verifHash("branch"))
		}
		tp := verifPrefix(f, 1, 0, 0, 0)
		tp.Extra = append([]byte{3, 33, byte(depth)}, mm[:]...)
		p.BaseTransaction = BaseTransaction{TransactionPrefix: &tp}
		for i := 0; i < depth; i++ {
			p.BlockchainBranch = append(p.BlockchainBranch, verifHash("chain branch"))
		}
		b.Parent = p
		b.Timestamp, b.Nonce = p.Timestamp, p.Nonce
	} else {
		b.Timestamp = f.num(64)
		b.Nonce = vs.U32("nonce")
	}
	if version == 5 {
		s := verifSig("signature")
		b.Signature = &s
	}
	b.BaseTransaction.TransactionPrefix = verifPrefix(f, 1, 0, 1, 1)
	verifSigs(&b.BaseTransaction)
	for i := 0; i < txs; i++ {
		b.TransactionsHashes = append(b.TransactionsHashes, verifHash("tx"))
	}
	return b
}
