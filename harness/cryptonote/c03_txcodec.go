package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_tx.go

// ASSUME: at most one number of a transaction needs a varint longer than one byte (each of them in turn takes any value); list lengths are the stated bounds

//verif:harness timeout=100 timeout.thorough=600 paths=60000
func VerifC03RoundTrip() {
	f := &verifFields{wide: vs.Int("wide", 0, 9)}
	t := &Transaction{TransactionPrefix: verifPrefix(f, vs.Bound("inputs", 1, 2), vs.Bound("ring size", 2, 2), vs.Bound("outputs", 1, 2), vs.Bound("extra bytes", 2, 3))}
	f.done()
	verifSigs(t)
	verifTxRoundTrip(t)
	vs.Cover("roundtrip")
}

// Several inputs of different kinds, small numbers.
//
//verif:harness timeout=100 timeout.thorough=600 paths=60000
func VerifC03Inputs() {
	f := &verifFields{wide: -1}
	t := &Transaction{TransactionPrefix: verifPrefix(f, vs.Bound("inputs", 2, 4), 2, vs.Bound("outputs", 2, 3), vs.Bound("extra bytes", 1, 2))}
	verifSigs(t)
	verifTxRoundTrip(t)
	vs.Cover("roundtrip")
}

// Lists long enough that their length needs two bytes.
//
//verif:harness timeout=100
func VerifC03Long() {
	f := &verifFields{wide: -1}
	t := &Transaction{}
	t.Version, t.UnlockHeight = byte(f.num(8)), f.num(64)
	switch vs.Int("long", 0, 3) {
	case 0:
		in := InputKey{Amount: f.num(64), KeyImage: verifImage("image")}
		for j := 0; j < vs.Bound("long list", 129, 300); j++ {
			in.OutputIndexes = append(in.OutputIndexes, uint32(f.num(32)))
		}
		t.Inputs = append(t.Inputs, in)
	case 1:
		for j := 0; j < vs.Bound("long list", 129, 300); j++ {
			t.Outputs = append(t.Outputs, TransactionOutput{Amount: f.num(64), Target: OutputKey{verifKey("outkey")}})
		}
	case 2:
		t.Extra = vs.Bytes("extra", vs.Bound("long list", 129, 300))
	case 3:
		for j := 0; j < vs.Bound("long list", 129, 300); j++ {
			if j%5 == 4 {
				t.Inputs = append(t.Inputs, InputCoinbase{uint32(f.num(32))})
				continue
			}
			in := InputKey{Amount: f.num(64), KeyImage: verifImage("image")}
			for k := 0; k < j%3; k++ {
				in.OutputIndexes = append(in.OutputIndexes, uint32(f.num(32)))
			}
			t.Inputs = append(t.Inputs, in)
		}
	}
	verifSigs(t)
	verifTxRoundTrip(t)
	vs.Cover("long")
}

// All numbers are long at once.
//
//verif:harness timeout=100 timeout.thorough=600
func VerifC03Wide() {
	f := &verifFields{wide: -1, bytes: uint(vs.Int("bytes", 2, 10))}
	t := &Transaction{TransactionPrefix: verifPrefix(f, vs.Bound("wide inputs", 2, 3), 2, vs.Bound("wide outputs", 2, 3), 1)}
	verifSigs(t)
	verifTxRoundTrip(t)
	vs.Cover("wide")
}

func verifTxRoundTrip(t *Transaction) {
	b := t.Serialize()
	vs.Assert(t.Size() == uint64(len(b)), "the size is not the number of bytes")
	u, r, err := verifParseTx(append(append([]byte{}, b...), 7))
	vs.Assert(err == nil, "serialised bytes do not parse")
	vs.Assert(r.Len() == 1, "parsing does not consume exactly the bytes of the transaction")
	vs.Assert(verifSameTx(t, u), "the parsed transaction differs")
	vs.Assert(u.Size() == uint64(len(b)), "the parsed transaction has another size")
	vs.Observe("tx", b)
}
