package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_tx.go

// ASSUME: Keccak is collision free; at most one number of each transaction needs a varint longer than one byte; list lengths are the stated bounds

func verifAnyTx(maxIn, maxRing, maxOut, maxExtra, wide int) *Transaction {
	f := &verifFields{wide: wide}
	t := &Transaction{TransactionPrefix: verifPrefix(f, maxIn, maxRing, maxOut, maxExtra)}
	verifSigs(t)
	return t
}

// Any two shapes.
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC11Shapes() {
	n := vs.Bound("inputs and outputs", 1, 2)
	a := verifAnyTx(n, 2, n, 1, -1)
	b := verifAnyTx(n, 2, n, 1, -1)
	verifIds(a, b)
}

// One number of the transaction takes any value.
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC11Numbers() {
	w := vs.Int("wide", 0, vs.Bound("numbers", 6, 8))
	a := verifFixedTx(w)
	b := verifFixedTx(w)
	verifIds(a, b)
}

func verifFixedTx(wide int) *Transaction {
	f := &verifFields{wide: wide}
	t := &Transaction{}
	t.Version, t.UnlockHeight = byte(f.num(8)), f.num(64)
	t.Inputs = []TransactionInput{
		InputKey{Amount: f.num(64), OutputIndexes: []uint32{uint32(f.num(32)), uint32(f.num(32))}, KeyImage: verifImage("image")},
		InputCoinbase{uint32(f.num(32))},
	}
	t.Outputs = []TransactionOutput{{f.num(64), OutputKey{verifKey("outkey")}}, {f.num(64), OutputKey{verifKey("outkey")}}}
	t.Extra = vs.Bytes("extra", 3)
	verifSigs(t)
	return t
}

// The tail of a transaction is unambiguous as well.
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC11Extra() {
	mk := func() *Transaction {
		t := &Transaction{}
		for i := vs.Int("outputs", 0, 2); i > 0; i-- {
			t.Outputs = append(t.Outputs, TransactionOutput{3, OutputKey{verifKey("outkey")}})
		}
		t.Extra = vs.Bytes("extra", vs.Int("extralen", 0, vs.Bound("extra bytes", 35, 70)))
		return t
	}
	verifIds(mk(), mk())
}

// Long lists, and all numbers long at once.
//
//verif:harness timeout=100 timeout.thorough=800
func VerifC11Long() {
	kind, n, size := vs.Int("long", 0, 3), vs.Bound("long list", 20, 130), uint(vs.Int("bytes", 1, vs.Bound("number bytes", 2, 10)))
	mk := func() *Transaction {
		f := &verifFields{wide: -1, bytes: size}
		if size == 1 {
			f.bytes = 0
		}
		t := &Transaction{}
		t.Version, t.UnlockHeight = byte(f.num(8)), f.num(64)
		n := n - vs.Int("fewer", 0, 1)
		in := InputKey{Amount: f.num(64), KeyImage: verifImage("image")}
		for j := 0; j < n; j++ {
			switch kind {
			case 0:
				in.OutputIndexes = append(in.OutputIndexes, uint32(f.num(32)))
			case 1:
				t.Outputs = append(t.Outputs, TransactionOutput{Amount: f.num(64), Target: OutputKey{verifKey("outkey")}})
			case 2:
				t.Inputs = append(t.Inputs, InputKey{Amount: f.num(64), OutputIndexes: []uint32{uint32(f.num(32))}, KeyImage: verifImage("image")})
			}
		}
		if kind == 3 {
			t.Extra = vs.Bytes("extra", n)
		}
		t.Inputs = append(t.Inputs, in)
		verifSigs(t)
		return t
	}
	verifIds(mk(), mk())
}

func verifIds(a, b *Transaction) {
	p := *a.TransactionPrefix.Hash() == *b.TransactionPrefix.Hash()
	t := *a.Hash() == *b.Hash()
	same := verifSamePrefix(&a.TransactionPrefix, &b.TransactionPrefix)
	vs.Assert(!vs.And(p, !same), "two prefixes have the same hash")
	vs.Assert(!vs.And(same, !p), "equal prefixes have different hashes")
	full := verifSameTx(a, b)
	vs.Assert(!vs.And(t, !full), "two transactions have the same id")
	vs.Assert(!vs.And(full, !t), "equal transactions have different ids")
	vs.Cover("pair")
	if same {
		vs.Cover("?equal")
	}
}
