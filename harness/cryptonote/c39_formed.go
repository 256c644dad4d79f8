package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go
//verif:use lib_validator.go

// ASSUME: transactions lie below a checkpoint; keys are valid ones, and ones that are no points of the curve; SpecPretty stands for IsValidDecomposedAmount, as shown by C25

func SpecPretty(n *config.Network, amount uint64) bool { return verifPretty(amount) }

// SpecKey stands for the check of a key (C36) on the keys used here.
func SpecKey(k *crypto.PublicKey) bool { return *k == verifGoodKey || *k == verifMinerKey }

func verifSomeKey() (crypto.PublicKey, bool) {
	switch vs.Int("key", 0, 2) {
	case 0:
		return verifGoodKey, true
	case 1:
		return verifBadKey, false
	}
	return verifMinerKey, true
}

type verifOddTarget struct{}

// verifAnyOutput is an output of any kind, and whether it is well formed (but for its amount).
func verifAnyOutput() (TransactionOutput, bool) {
	o := TransactionOutput{Amount: vs.U64("amount")}
	switch vs.Int("kind", 0, 2) {
	case 0:
		k, ok := verifSomeKey()
		o.Target = OutputKey{PublicKey: k}
		return o, ok
	case 1:
		m := OutputMultisignature{RequiredSignaturesCount: vs.U8("required")}
		n := vs.Int("keys", 0, vs.Bound("keys", 2, 3))
		ok := int(m.RequiredSignaturesCount) <= n
		for i := 0; i < n; i++ {
			k, good := verifSomeKey()
			m.Keys = append(m.Keys, k)
			ok = vs.And(ok, good)
		}
		o.Target = m
		return o, ok
	}
	if vs.Int("odd", 0, 1) == 1 {
		o.Target = verifOddTarget{}
	}
	return o, false
}

// Outputs of every kind, at any height.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty,(*~/cryptonote.Transaction).Size:SpecSmall,(*~/crypto.PublicKey).Check:SpecKey
func VerifC39Outputs() {
	bc := verifZoneChain()
	height := vs.U32("height")
	t := verifSpend(1, []uint64{1 << 63}, nil, 33)
	n := vs.Int("outputs", 1, 2)
	ok := true
	for i := 0; i < n; i++ {
		o, good := verifAnyOutput()
		vs.Assume(o.Amount < 1<<60)
		ok = vs.And(ok, good, o.Amount != 0, vs.Or(height < 700000, verifPretty(o.Amount)))
		t.Outputs = append(t.Outputs, o)
	}
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction with malformed outputs is accepted, or one with well-formed outputs is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// Inputs of every kind, at any height.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC39Inputs() {
	bc := verifZoneChain()
	height := vs.U32("height")
	t := verifSpend(1, nil, []uint64{1000000000}, 33)
	n := vs.Int("inputs", 0, 3)
	ok := n > 0
	for i := 0; i < n; i++ {
		t.TransactionSignatures = append(t.TransactionSignatures, nil)
		switch vs.Int("kind", 0, 2) {
		case 0:
			in := InputKey{Amount: 1000000000000, KeyImage: crypto.KeyImage{7, byte(i)}}
			ring := vs.Int("ring", 0, 2)
			for k := 0; k < ring; k++ {
				d := vs.U32("distance")
				vs.Assume(k == 0 || d > 0)
				in.OutputIndexes = append(in.OutputIndexes, d)
			}
			t.TransactionSignatures[i] = make([]crypto.Signature, ring)
			ok = ok && ring > 0
			t.Inputs = append(t.Inputs, in)
		case 1:
			t.Inputs = append(t.Inputs, InputCoinbase{BlockIndex: vs.U32("index")})
			ok = false
		case 2:
			t.Inputs = append(t.Inputs, InputMultiSignature{Amount: vs.U64("amount"), SignatureCount: vs.U8("signatures"), OutputIndex: vs.U32("output")})
			ok = false
		}
	}
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction with malformed inputs is accepted, or one with well-formed inputs is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The outputs of the coinbase of a block.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/crypto.PublicKey).Check:SpecKey
func VerifC39Coinbase() {
	top := []uint32{1000, 70000, 266010, 300500, 500500}[vs.Int("top", 0, vs.Bound("last height", 4, 4))]
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	b := verifCandidate(bc, s)
	reward := b.BaseTransaction.Outputs[0].Amount
	b.BaseTransaction.Outputs = nil
	n := vs.Int("outputs", 0, 2)
	ok := true
	sum := vs.ZU(0)
	for i := 0; i < n; i++ {
		o, good := verifAnyOutput()
		if o.Target == nil || vs.Same(o.Target, verifOddTarget{}) {
			return // such blocks have no encoding
		}
		if n == 1 {
			vs.Assume(o.Amount == 0 || o.Amount >= 1<<42 && o.Amount < 1<<49)
		} else {
			vs.Assume(o.Amount == 0 || o.Amount >= 1<<56)
		}
		ok = vs.And(ok, good, o.Amount != 0)
		sum = sum.Add(vs.ZU(o.Amount))
		b.BaseTransaction.Outputs = append(b.BaseTransaction.Outputs, o)
	}
	err := bc.AddBlock(b, nil)
	vs.Assert((err == nil) == vs.And(ok, sum.Eq(vs.ZU(reward))), "a coinbase with malformed outputs is accepted, or one with well-formed outputs is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// A transaction with many outputs and inputs, and multisignature targets with many keys: one of them, at any place, is
// arbitrary.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty,(*~/cryptonote.Transaction).Size:SpecSmall,(*~/crypto.PublicKey).Check:SpecKey
func VerifC39Many() {
	bc := verifZoneChain()
	height := []uint32{1, 700000}[vs.Int("height", 0, 1)]
	n := vs.Bound("many", 12, 40)
	at := vs.Int("at", 0, n-1)
	ok := true
	var ins []uint64
	for i := 0; i < n; i++ {
		ins = append(ins, 1<<58)
	}
	t := verifSpend(1, ins, nil, 33)
	switch vs.Int("what", 0, 2) {
	case 0: // outputs
		for i := 0; i < n; i++ {
			o := TransactionOutput{Amount: 10, Target: OutputKey{PublicKey: verifGoodKey}}
			if i == at {
				o, ok = verifAnyOutput()
				vs.Assume(o.Amount < 1<<60)
				ok = vs.And(ok, o.Amount != 0, vs.Or(height < 700000, verifPretty(o.Amount)))
			}
			t.Outputs = append(t.Outputs, o)
		}
	case 1: // keys
		m := OutputMultisignature{RequiredSignaturesCount: vs.U8("required")}
		for i := 0; i < n; i++ {
			k := verifGoodKey
			if i == at {
				k, ok = verifSomeKey()
			}
			m.Keys = append(m.Keys, k)
		}
		ok = vs.And(ok, int(m.RequiredSignaturesCount) <= n)
		t.Outputs = []TransactionOutput{{Amount: 10, Target: m}}
	case 2: // inputs
		t.Outputs = []TransactionOutput{{Amount: 10, Target: OutputKey{PublicKey: verifGoodKey}}}
		ok = false
		switch vs.Int("kind", 0, 3) {
		case 0:
			t.Inputs[at] = InputCoinbase{BlockIndex: vs.U32("index")}
		case 1:
			t.Inputs[at] = InputMultiSignature{Amount: vs.U64("amount"), SignatureCount: vs.U8("signatures"), OutputIndex: vs.U32("output")}
		case 2:
			in := t.Inputs[at].(InputKey)
			in.OutputIndexes = nil
			t.Inputs[at] = in
		case 3:
			ok = true
		}
	}
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a malformed transaction is accepted, or a well-formed one is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The same for the coinbase of a block.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/crypto.PublicKey).Check:SpecKey
func VerifC39CoinbaseMany() {
	top := []uint32{1000, 300500}[vs.Int("top", 0, 1)]
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	b := verifCandidate(bc, s)
	reward := b.BaseTransaction.Outputs[0].Amount
	b.BaseTransaction.Outputs = nil
	n := vs.Bound("many", 12, 40)
	at := vs.Int("at", 0, n-1)
	ok := true
	if vs.Int("what", 0, 1) == 0 {
		for i := 0; i < n; i++ {
			o := TransactionOutput{Amount: 10, Target: OutputKey{PublicKey: verifGoodKey}}
			if i == at {
				o, ok = verifAnyOutput()
				if o.Target == nil || vs.Same(o.Target, verifOddTarget{}) {
					return // such blocks have no encoding
				}
				vs.Assume(vs.Or(o.Amount == 0, o.Amount == reward-10*uint64(n-1)))
				ok = vs.And(ok, o.Amount != 0)
			}
			b.BaseTransaction.Outputs = append(b.BaseTransaction.Outputs, o)
		}
	} else {
		m := OutputMultisignature{RequiredSignaturesCount: uint8(vs.Int("few", 0, 2))}
		for i := 0; i < n; i++ {
			k := verifGoodKey
			if i == at {
				k, ok = verifSomeKey()
			}
			m.Keys = append(m.Keys, k)
		}
		b.BaseTransaction.Outputs = []TransactionOutput{{Amount: reward, Target: m}}
	}
	err := bc.AddBlock(b, nil)
	vs.Assert((err == nil) == ok, "a malformed coinbase is accepted, or a well-formed one is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}
