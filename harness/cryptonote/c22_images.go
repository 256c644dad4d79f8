package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go
//verif:use lib_validator.go

// ASSUME: maps are iterated in insertion order; below a checkpoint a transaction is accepted or refused as a whole, above it (where nothing can be accepted, as looking up outputs is not implemented) the error tells whether the key image was the reason
// ASSUME: the numbers of the outputs of one input do not wrap around 32 bits

// Any key images in one, two or three transactions of a block.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed
func VerifC22Twice() {
	bc := verifZoneChain()
	height := []uint32{1, 216395, 266001, 500001, 700001}[vs.Int("height", 0, vs.Bound("height", 4, 4))]
	v := NewBlockTransactionsValidator(bc, height, bc.logger)
	var images []crypto.KeyImage
	n := vs.Int("transactions", 1, vs.Bound("transactions", 3, 3))
	for k := 0; k < n; k++ {
		var ins []uint64
		m := vs.Int("inputs", 1, vs.Bound("inputs", 2, 3))
		for i := 0; i < m; i++ {
			ins = append(ins, 1000000000000)
		}
		t := verifSpend(byte(k), ins, []uint64{1000000000}, 33)
		ok := true
		for i := range t.Inputs {
			in := t.Inputs[i].(InputKey)
			in.KeyImage = verifSome("image")
			for _, o := range images {
				ok = vs.And(ok, !vs.Same(o, in.KeyImage))
			}
			images = append(images, in.KeyImage)
			t.Inputs[i] = in
		}
		err := v.validate(t)
		vs.Assert((err == nil) == ok, "a key image is spent twice in a block, or a transaction is refused though its key images are new")
		if err != nil {
			vs.Cover("refused")
			return
		}
	}
	vs.Cover("accepted")
}

func verifSome(name string) (k crypto.KeyImage) {
	copy(k[:], vs.Bytes(name, 32))
	return
}

// Many inputs and many transactions: one key image, at any place, is arbitrary.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed
func VerifC22Many() {
	shapes := [][2]int{{2, 4}, {3, 13}, {30, 1}, {2, 40}, {100, 1}}
	shape := shapes[vs.Int("shape", 0, vs.Bound("shape", 2, 4))]
	bc := verifZoneChain()
	v := NewBlockTransactionsValidator(bc, 700001, bc.logger)
	var images []crypto.KeyImage
	at := vs.Int("at", 0, shape[0]*shape[1]-1)
	some := verifSome("image")
	fresh := true
	for k := 0; k < shape[0]; k++ {
		var ins []uint64
		for i := 0; i < shape[1]; i++ {
			ins = append(ins, 1000000000000)
		}
		t := verifSpend(byte(k), ins, []uint64{1000000000}, 33)
		ok := true
		for i := range t.Inputs {
			in := t.Inputs[i].(InputKey)
			in.KeyImage = crypto.KeyImage{byte(k), byte(i), 7}
			if len(images) == at {
				in.KeyImage = some
				for _, o := range images {
					fresh = vs.And(fresh, !vs.Same(o, some))
				}
				ok = fresh
			} else if len(images) > at {
				fresh = vs.And(fresh, !vs.Same(in.KeyImage, some))
				ok = fresh
			}
			images = append(images, in.KeyImage)
			t.Inputs[i] = in
		}
		err := v.validate(t)
		vs.Assert((err == nil) == ok, "a key image is spent twice in a block, or a transaction is refused though its key images are new")
		if err != nil {
			vs.Cover("refused")
			return
		}
	}
	vs.Cover("accepted")
}

// Outputs named by one input.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC22Outputs() {
	bc := verifZoneChain()
	height := []uint32{1, 266001}[vs.Int("height", 0, 1)]
	t := verifSpend(1, []uint64{1000000000000, 1000000000000}, []uint64{1000000000}, 33)
	which := vs.Int("input", 0, 1)
	n := vs.Int("ring", 0, vs.Bound("ring", 7, 9))
	in := t.Inputs[which].(InputKey)
	in.OutputIndexes = nil
	t.TransactionSignatures[which] = nil
	ok := n > 0
	seen := []vs.Z{}
	at := vs.ZU(0)
	for k := 0; k < n; k++ {
		d := vs.U32("distance")
		in.OutputIndexes = append(in.OutputIndexes, d)
		t.TransactionSignatures[which] = append(t.TransactionSignatures[which], crypto.Signature{})
		at = at.Add(vs.ZU(uint64(d)))
		for _, o := range seen {
			ok = vs.And(ok, !at.Eq(o))
		}
		seen = append(seen, at)
	}
	vs.Assume(at.Le(vs.ZU(1<<32 - 1)))
	t.Inputs[which] = in
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "an input names an output twice or none, or is refused though it names distinct outputs")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// A long ring with one arbitrary distance, in one of many inputs.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall
func VerifC22OutputsMany() {
	bc := verifZoneChain()
	var ins []uint64
	for i := 0; i < 14; i++ {
		ins = append(ins, 1000000000000)
	}
	t := verifSpend(1, ins, []uint64{1000000000}, 33)
	which := []int{0, 1, 7, 13}[vs.Int("input", 0, 3)]
	n := vs.Bound("long ring", 40, 300)
	at := vs.Int("at", 0, n-1)
	in := t.Inputs[which].(InputKey)
	in.OutputIndexes = nil
	d := vs.U32("distance")
	for k := 0; k < n; k++ {
		if k == at {
			in.OutputIndexes = append(in.OutputIndexes, d)
		} else {
			in.OutputIndexes = append(in.OutputIndexes, uint32(1+k%5))
		}
	}
	t.TransactionSignatures[which] = make([]crypto.Signature, n)
	vs.Assume(d < 1<<31)
	t.Inputs[which] = in
	err := NewBlockTransactionsValidator(bc, 1, bc.logger).validate(t)
	vs.Assert((err == nil) == vs.Or(at == 0, d != 0), "an input names an output twice, or is refused though it names distinct outputs")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// The real curve code on a point of every order, all the points outside the subgroup that a multiple of the group
// order can be, and bytes that are no points.
//
//verif:harness timeout=100 timeout.thorough=300 maporder=fixed
func VerifC22Subgroup() {
	images := []struct {
		hex    string
		inside bool
	}{
		{"5866666666666666666666666666666666666666666666666666666666666666", true},  // base point
		{"dbbd38087aa091d7b8bf36d30d4059c0450ac73c9ac5dea93af77d1e6cd7fdaf", true},  // a public key
		{"0100000000000000000000000000000000000000000000000000000000000000", true},  // neutral
		{"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false}, // order 2
		{"0000000000000000000000000000000000000000000000000000000000000000", false}, // order 4
		{"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", false}, // order 8
		{"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85", false}, // order 8
		{"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", false}, // order 8
		{"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa", false}, // order 8
		{"0000000000000000000000000000000000000000000000000000000000000080", false}, // order 4
		{"9599999999999999999999999999999999999999999999999999999999999999", false}, // base point + order 2
		{"5252cc0a7f208133b620acbd4537eba2a4123bf0a8c2e4f980c3b31bb69765ea", false}, // base point + order 4
		{"da99e28ba529cdde35a25fba9059e78ecaee239f99755b9b1aa4f65df00803e2", false}, // base point + order 8
		{"13661d745ad63221ca5da0456fa618713511dc60668aa464e55b09a20ff7fc1d", false}, // base point + order 8
		{"0200000000000000000000000000000000000000000000000000000000000000", false}, // no point
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", false}, // no point
	}
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	c := images[vs.Int("image", 0, len(images)-1)]
	height := []uint32{5, 700001}[vs.Int("height", 0, 1)]
	t := verifSpend(1, []uint64{1000000000000, 1000000000000}, []uint64{1000000000}, 33)
	which := vs.Int("input", 0, 1)
	in := t.Inputs[1-which].(InputKey)
	in.KeyImage = crypto.KeyImage(verifMinerKey)
	if c.hex[:2] == "58" {
		in.KeyImage = crypto.KeyImage(verifGoodKey)
	}
	t.Inputs[1-which] = in
	in = t.Inputs[which].(InputKey)
	in.KeyImage = crypto.KeyImage(verifKeyHex(c.hex))
	t.Inputs[which] = in
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == ErrTransactionInputInvalidDomainKeyImages) == !c.inside, "a key image outside the prime-order subgroup passes, or one inside does not")
	if c.inside {
		vs.Cover("inside")
	} else {
		vs.Cover("outside")
	}
}

// Any key images in the transactions of a block that is added.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/crypto.Signature).Check:SpecSigCheck
func VerifC22Block() {
	top := []uint32{1000, 70000, 266010, 300500, 500500}[vs.Int("top", 0, vs.Bound("last height", 4, 4))]
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	if bc.Checkpoints.AddCheckpoint(top+5, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	b := verifCandidate(bc, s)
	var raw [][]byte
	var images []crypto.KeyImage
	ok := true
	n := vs.Int("transactions", 2, vs.Bound("transactions", 2, 3))
	for k := 0; k < n; k++ {
		t := verifTx(byte(k+1), 200000000000)
		m := vs.Int("inputs", 1, 2)
		for i := 0; i < m; i++ {
			in := t.Inputs[0].(InputKey)
			in.KeyImage = verifSome("image")
			for _, o := range images {
				ok = vs.And(ok, !vs.Same(o, in.KeyImage))
			}
			images = append(images, in.KeyImage)
			if i > 0 {
				in.Amount = 1
				t.Inputs = append(t.Inputs, in)
				t.TransactionSignatures = append(t.TransactionSignatures, t.TransactionSignatures[0])
			} else {
				t.Inputs[0] = in
			}
		}
		b.BaseTransaction.Outputs[0].Amount += 200000000000 + uint64(m) - 1
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	err := bc.AddBlock(b, raw)
	vs.Assert((err == nil) == ok, "a block that spends a key image twice is accepted, or one that does not is refused")
	if err != nil {
		vs.Cover("refused")
		return
	}
	vs.Cover("accepted")
}
