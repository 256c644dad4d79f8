package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go
//verif:use lib_validator.go

// ASSUME: transactions lie below a checkpoint; fusion transactions are explored for amounts of a few nonzero digits at listed positions

// The rings of a transaction at any height.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC23Mixin() {
	bc := verifZoneChain()
	height := vs.U32("height")
	rings := []int{1, 2, 3, 19, 20, 21, 22, 40, 255, 256, 257}
	n := vs.Int("inputs", 1, vs.Bound("inputs", 2, 3))
	mixin := 0
	var ins []uint64
	for k := 0; k < n; k++ {
		ins = append(ins, 1000000000000)
	}
	t := verifSpend(1, ins, []uint64{1000000000}, 33)
	for k := 0; k < n; k++ {
		size := rings[vs.Int("ring", 0, len(rings)-1)]
		if size > mixin {
			mixin = size
		}
		in := t.Inputs[k].(InputKey)
		in.OutputIndexes = nil
		for i := 0; i < size; i++ {
			in.OutputIndexes = append(in.OutputIndexes, 1)
		}
		t.Inputs[k] = in
		t.TransactionSignatures[k] = make([]crypto.Signature, size)
	}
	ok := vs.And(vs.Or(height <= 216394, mixin <= 20), vs.Or(height <= 266000, mixin >= 1))
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction outside the limits of mixin is accepted, or one within is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The size of a transaction at any height: the extra is made as long as it takes.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC23Size() {
	bc := verifZoneChain()
	height := vs.U32("height")
	t := verifSpend(1, []uint64{1 << 62}, []uint64{1000000000}, 200000)
	size := []int{249399, 249400, 249401, 249402, 300000, 260000, 1000000}[vs.Int("size", 0, 6)]
	t.Extra = make([]byte, 200000+size-len(t.Serialize()))
	if len(t.Serialize()) != size {
		panic("size")
	}
	ok := vs.Or(height <= 266000, size <= 249400)
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction above the largest size is accepted, or one within is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// verifFuse is a transaction without fee: n inputs, all but one of the same amount.
func verifFuse(n int, each uint64, outs []uint64) *Transaction {
	sum := uint64(0)
	for _, o := range outs {
		sum += o
	}
	var ins []uint64
	for k := 0; k < n; k++ {
		ins = append(ins, each)
	}
	ins[n-1] = sum - uint64(n-1)*each
	return verifSpend(1, ins, outs, 33)
}

func SpecPretty(n *config.Network, amount uint64) bool { return verifPretty(amount) }

// A transaction without fee is accepted exactly if it is a fusion: its outputs are any amounts with a sum whose
// decimal digits are any at three positions and zero elsewhere.
//
//verif:harness int=1 timeout=200 timeout.thorough=800 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty,(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC23Fusion() {
	bc := verifZoneChain()
	height := []uint32{1, 266000, 265999, 266001, 500001, 700001}[vs.Int("height", 0, vs.Bound("height", 2, 5))]
	positions := [][]int{{10, 11, 12}, {8, 10, 11}, {8, 12, 16}, {0, 9, 17}, {15, 17, 18}}[vs.Int("positions", 0, vs.Bound("positions", 2, 4))]
	dust := uint64(0)
	if height < 266000 {
		dust = 100000000
	}
	sum, low := uint64(0), uint64(0)
	var parts []uint64
	for _, p := range positions {
		pow := uint64(1)
		for ; p > 0; p-- {
			pow *= 10
		}
		d := uint64(vs.U8("digit"))
		vs.Assume(d < 10)
		sum += d * pow
		if low+d*pow <= dust {
			low += d * pow
			continue
		}
		if low != 0 {
			parts, low = append(parts, low), 0
		}
		if d != 0 {
			parts = append(parts, d*pow)
		}
	}
	if low != 0 {
		parts = append(parts, low)
	}
	n := vs.Int("outputs", 1, 3)
	outs := make([]uint64, n)
	total := vs.ZU(0)
	match := len(parts) == n
	for k := range outs {
		outs[k] = vs.U64("out")
		vs.Assume(outs[k] > 0)
		total = total.Add(vs.ZU(outs[k]))
		if match {
			match = vs.And(match, outs[k] == parts[k])
		}
	}
	vs.Assume(total.Eq(vs.ZU(sum)))
	each := uint64(100000000)
	vs.Assume(sum >= 11*each)
	t := verifFuse(12, each, outs)
	ok := vs.And(match, sum-11*each >= dust)
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction without fee that is not a fusion is accepted, or a fusion is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The numbers and amounts of inputs and the size of a fusion, at any height.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/config.Network).IsValidDecomposedAmount:SpecPretty
func VerifC23Counts() {
	bc := verifZoneChain()
	height := vs.U32("height")
	outs := []uint64{3000000000, 40000000000, 500000000000, 1000000000000, 20000000000000}[:vs.Int("outputs", 1, 5)]
	n := vs.Int("inputs", 10, vs.Bound("inputs", 17, 21))
	each := []uint64{100000000, 99999999, 100000001}[vs.Int("each", 0, 2)]
	t := verifFuse(n, each, outs)
	size := 0
	switch vs.Int("size", 0, 2) {
	case 1:
		size = 300000
	case 2:
		size = 300001
	}
	if size > 0 {
		// sizes above that of any transaction are only allowed up to height 266000
		vs.Assume(height <= 266000)
		t.Extra = make([]byte, 200000)
		t.Extra = make([]byte, 200000+size-len(t.Serialize()))
		if len(t.Serialize()) != size {
			panic("size")
		}
	}
	fusion := n >= 12 && n >= 4*len(outs)
	ok := vs.And(fusion, vs.Or(height >= 266000, each >= 100000000), vs.Or(height > 216000, size <= 300000))
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction without fee that is not a fusion is accepted, or a fusion is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// Many inputs, one of which, at any place, has a ring of another size.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC23MixinMany() {
	bc := verifZoneChain()
	height := vs.U32("height")
	n := vs.Bound("many inputs", 30, 100)
	at := vs.Int("at", 0, n-1)
	var ins []uint64
	for k := 0; k < n; k++ {
		ins = append(ins, 1000000000000)
	}
	t := verifSpend(1, ins, []uint64{1000000000}, 33)
	mixin := []int{1, 2, 20, 21, 257}[vs.Int("ring", 0, 4)]
	in := t.Inputs[at].(InputKey)
	in.OutputIndexes = nil
	for i := 0; i < mixin; i++ {
		in.OutputIndexes = append(in.OutputIndexes, 1)
	}
	t.Inputs[at] = in
	t.TransactionSignatures[at] = make([]crypto.Signature, mixin)
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == vs.Or(height <= 216394, mixin <= 20), "a transaction outside the limits of mixin is accepted, or one within is refused")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The fee that an extra of a size costs, at any height.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC23Extra() {
	bc := verifZoneChain()
	height := vs.U32("height")
	extra := []int{0, 99, 100, 101, 255, 256, 300, 1024, 1025, 4000, 32768, 65535, 65536, 65636, 131072, 262144, 400000}[vs.Int("extra", 0, 16)]
	in := vs.U64("in")
	out := uint64(1000000000)
	t := verifSpend(1, []uint64{in}, []uint64{out}, extra)
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == vs.ZU(out).Add(verifMinFee(height, extra)).Le(vs.ZU(in)), "a transaction pays less than its extra costs, or is refused though it pays that")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}
