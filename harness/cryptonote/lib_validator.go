package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// verifZoneChain is a chain whose checkpoints cover every height.
func verifZoneChain() *BlockChain {
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	if bc.Checkpoints.AddCheckpoint(1<<32-1, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	return bc
}

// verifPretty: the amount is a decimal digit times a power of ten.
func verifPretty(amount uint64) bool {
	pretty := false
	pow := uint64(1)
	for k := 0; k < 20; k++ {
		for d := uint64(1); d < 10 && (k < 19 || d < 2); d++ {
			pretty = vs.Or(pretty, amount == d*pow)
		}
		pow *= 10
	}
	return pretty
}

// verifMinFee is the least fee of a transaction that is not a fusion.
func verifMinFee(height uint32, extra int) vs.Z {
	switch {
	case height <= 216394:
		return vs.ZU(100000000)
	case height <= 266000:
		return vs.ZU(100000000000)
	}
	perByte := 0
	if extra > 100 {
		perByte = extra - 100
	}
	full := 10000000000 + 100000000*uint64(perByte)
	switch {
	case height <= 500000:
		return vs.ZU(8000000000)
	case height < 667000:
		return vs.ZU(full - full/5)
	}
	return vs.ZU(full)
}

func verifSum(xs []uint64) vs.Z {
	s := vs.ZU(0)
	for _, x := range xs {
		s = s.Add(vs.ZU(x))
	}
	return s
}

// verifSpend is a transaction with inputs of single-member rings and outputs of the given amounts.
func verifSpend(id byte, ins, outs []uint64, extra int) *Transaction {
	t := &Transaction{TransactionPrefix: TransactionPrefix{Version: 1, Extra: make([]byte, extra)}}
	for i, a := range ins {
		t.Inputs = append(t.Inputs, InputKey{Amount: a, OutputIndexes: []uint32{uint32(i)}, KeyImage: crypto.KeyImage{7, id, byte(i)}})
		t.TransactionSignatures = append(t.TransactionSignatures, []crypto.Signature{{}})
	}
	for _, a := range outs {
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: a, Target: OutputKey{PublicKey: verifGoodKey}})
	}
	return t
}

// SpecSmall stands for the size, which C03 decides and the size limit of C23.
func SpecSmall(t *Transaction) uint64 { return 500 }
