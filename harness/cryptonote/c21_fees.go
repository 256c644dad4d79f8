package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go
//verif:use lib_validator.go

// ASSUME: transactions lie below a checkpoint (looking up the outputs they spend is not implemented, so nothing is accepted above); sizes are within the limit; SpecPretty stands for IsValidDecomposedAmount, as shown by C25

func SpecPretty(n *config.Network, amount uint64) bool { return verifPretty(amount) }

func verifAmounts(name string, n int) (xs []uint64) {
	for k := 0; k < n; k++ {
		xs = append(xs, vs.U64(name))
	}
	return
}

// One transaction at any height: any amounts, several extra sizes.
//
//verif:harness timeout=120 timeout.thorough=800 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty,(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC21Sums() {
	bc := verifZoneChain()
	height := vs.U32("height")
	ins := verifAmounts("in", vs.Int("inputs", 0, vs.Bound("inputs", 3, 4)))
	outs := verifAmounts("out", vs.Int("outputs", 0, vs.Bound("outputs", 3, 3)))
	extra := []int{33, 100, 101, 1024, 777, 60000}[vs.Int("extra", 0, vs.Bound("extra size", 3, 5))]
	t := verifSpend(1, ins, outs, extra)
	in, out := verifSum(ins), verifSum(outs)
	max := vs.ZU(1<<64 - 1)
	ok := len(ins) > 0 && len(outs) > 0
	ok = vs.And(ok, in.Le(max), out.Le(max), out.Add(verifMinFee(height, extra)).Le(in))
	for _, a := range outs {
		ok = vs.And(ok, a != 0, vs.Or(height < 700000, verifPretty(a)))
	}
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction is accepted though it overpays its inputs or underpays its fee, or refused though it does not")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// Coinbase inputs and inputs of multisignature outputs, of which there are none, bring no money in.
//
//verif:harness timeout=60 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC21Foreign() {
	bc := verifZoneChain()
	height := vs.U32("height")
	vs.Assume(height < 700000)
	t := verifSpend(1, []uint64{5000000000000}, []uint64{1000000000}, 33)
	vs.Assume(NewBlockTransactionsValidator(bc, height, bc.logger).validate(t) == nil)
	vs.Cover("accepted")
	var in TransactionInput
	switch vs.Int("kind", 0, 1) {
	case 0:
		in = InputCoinbase{BlockIndex: vs.U32("index")}
	case 1:
		in = InputMultiSignature{Amount: vs.U64("amount"), SignatureCount: vs.U8("signatures"), OutputIndex: vs.U32("output")}
	}
	if vs.Int("instead", 0, 1) == 1 {
		t.Inputs = []TransactionInput{in}
	} else {
		t.Inputs = append(t.Inputs, in)
	}
	vs.Assert(NewBlockTransactionsValidator(bc, height, bc.logger).validate(t) != nil, "an input that spends no existing output is accepted")
	vs.Cover("refused")
}

// The fees of the transactions of a block may not exceed 64 bits together.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC21Total() {
	bc := verifZoneChain()
	height := vs.U32("height")
	vs.Assume(height < 700000)
	v := NewBlockTransactionsValidator(bc, height, bc.logger)
	n := vs.Bound("transactions", 3, 4)
	total := vs.ZU(0)
	for k := 0; k < n; k++ {
		in, out := vs.U64("in"), vs.U64("out")
		vs.Assume(out != 0)
		vs.Assume(vs.ZU(out).Add(verifMinFee(height, 33)).Le(vs.ZU(in)))
		total = total.Add(vs.ZU(in - out))
		err := v.validate(verifSpend(byte(k), []uint64{in}, []uint64{out}, 33))
		vs.Assert((err == nil) == total.Le(vs.ZU(1<<64-1)), "the fees of a block overflow, or a transaction is refused though they do not")
		if err != nil {
			vs.Cover("refused")
			return
		}
	}
	vs.Cover("accepted")
}

// The coinbase of a block pays the reward and exactly the fees of its transactions.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/crypto.Signature).Check:SpecSigCheck
func VerifC21Paid() {
	top := []uint32{1000, 70000, 266010, 300500, 500500}[vs.Int("top", 0, vs.Bound("last height", 4, 4))]
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	if bc.Checkpoints.AddCheckpoint(top+5, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	b := verifCandidate(bc, s)
	fees := vs.ZU(0)
	var raw [][]byte
	n := vs.Int("transactions", 1, 2)
	for k := 0; k < n; k++ {
		// amounts of nine bytes
		in, out := vs.U64("in"), vs.U64("out")
		vs.Assume(out >= 1<<56 && in < 1<<61 && in > out && in-out >= 100000000000)
		t := verifSpend(byte(k), []uint64{in}, []uint64{out}, 33)
		fees = fees.Add(vs.ZU(in - out))
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	paid := vs.U64("paid")
	vs.Assume(paid >= 1<<35 && paid < 1<<63)
	b.BaseTransaction.Outputs[0].Amount = paid
	err := bc.AddBlock(b, raw)
	vs.Assert((err == nil) == vs.ZU(paid).Eq(fees.Add(vs.ZU(verifBaseReward(s.coins)))), "the coinbase is not exactly the reward plus the fees of the transactions")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// Many inputs and outputs, one of each, at any place, with any amount; and extras of every size class.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty,(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC21Many() {
	bc := verifZoneChain()
	height := vs.U32("height")
	n := vs.Bound("many", 12, 40)
	a, b, extra := 0, 0, 33
	if k := vs.Int("case", 0, 9); k < 4 {
		a, b = []int{1, n / 2, n - 2, n - 1}[k], []int{n - 1, 2, n - 2, n / 2}[k]
	} else {
		extra = []int{255, 1200, 65535, 65536, 65700, 200000}[k-4]
	}
	var ins, outs []uint64
	for i := 0; i < n; i++ {
		x, y := uint64(1<<59), uint64(10)
		if i == a {
			x = vs.U64("in")
		}
		if i == b {
			y = vs.U64("out")
		}
		ins, outs = append(ins, x), append(outs, y)
	}
	t := verifSpend(1, ins, outs, extra)
	in, out := verifSum(ins), verifSum(outs)
	max := vs.ZU(1<<64 - 1)
	y := outs[b]
	ok := vs.And(in.Le(max), out.Le(max), out.Add(verifMinFee(height, extra)).Le(in), y != 0, vs.Or(height < 700000, verifPretty(y)))
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction is accepted though it overpays its inputs or underpays its fee, or refused though it does not")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The fees of many transactions, one of which, at any place, pays any fee.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC21TotalMany() {
	bc := verifZoneChain()
	v := NewBlockTransactionsValidator(bc, 300001, bc.logger)
	n := vs.Bound("many transactions", 30, 200)
	at := vs.Int("at", 0, n-1)
	total := vs.ZU(0)
	for k := 0; k < n; k++ {
		in, out := uint64(1<<59), uint64(1<<50)
		if k == at {
			in = vs.U64("in")
			vs.Assume(in >= 1<<51)
		}
		total = total.Add(vs.ZU(in - out))
		err := v.validate(verifSpend(byte(k), []uint64{in}, []uint64{out}, 33))
		vs.Assert((err == nil) == total.Le(vs.ZU(1<<64-1)), "the fees of a block overflow, or a transaction is refused though they do not")
		if err != nil {
			vs.Cover("refused")
			return
		}
		vs.Assert(vs.ZU(v.cumulativeFee).Eq(total), "the fees do not add up")
	}
	vs.Cover("accepted")
}
