package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_tx.go
//verif:use lib_skel.go

// ASSUME: byte strings are either arbitrary up to the stated length, or a valid encoding with an arbitrary window of the stated width at any position that decides the shape; an allocation counts as unjustified when one request exceeds 4 KiB plus 64 times the input length

//verif:harness timeout=60 timeout.thorough=500 paths=300000
func VerifC06TxBytes() {
	verifTxHostile(vs.Bytes("b", vs.Int("length", 0, vs.Bound("bytes", 9, 12))))
}

//verif:harness timeout=60 timeout.thorough=500 paths=300000
func VerifC06BlockBytes() {
	verifBlockHostile(vs.Bytes("b", vs.Int("length", 0, vs.Bound("bytes", 9, 12))))
}

// Any ten bytes somewhere: long varints in place of every length.
//
//verif:harness timeout=100 timeout.thorough=500 paths=300000
func VerifC06TxWindow() {
	s := &verifSkel{fill: byte(vs.Int("fill", 0, 2))}
	if vs.Int("kind", 0, 1) == 0 {
		s.coinbase(1, 2, 3)
	} else {
		s.transfer()
	}
	verifTxHostile(verifWindow(s, vs.Bound("window", 2, 3)))
}

//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC06BlockWindow() {
	s := &verifSkel{fill: 1}
	s.block(byte(vs.Int("version", 1, 5)))
	verifBlockHostile(verifWindow(s, vs.Bound("window", 2, 3)))
}

// Every length and count of a valid encoding replaced by any number.
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000
func VerifC06HugeNumber() {
	s := &verifSkel{fill: 1}
	v := vs.Int("version", 0, 5)
	if v == 0 {
		s.transfer()
	} else {
		s.block(byte(v))
	}
	at := s.pos[vs.Int("at", 0, len(s.pos)-1)]
	b := append([]byte{}, s.b[:at]...)
	// a nine or ten byte varint with an arbitrary value
	n := vs.Int("varint", 9, 10)
	for i := 1; i < n; i++ {
		b = append(b, vs.U8("digit")|0x80)
	}
	b = append(b, vs.U8("digit")&0x7f)
	b = append(b, s.b[at+1:]...)
	if v == 0 {
		verifTxHostile(b)
	} else {
		verifBlockHostile(b)
	}
}

func verifTxHostile(b []byte) {
	vs.AllocLimit(4096 + 64*len(b))
	t, _, err := verifParseTx(b)
	if err != nil {
		vs.Cover("rejected")
		return
	}
	vs.Cover("parsed")
	verifTxUse(t)
	vs.Assert(t.Size() > 0, "a parsed transaction has no size")
}

func verifTxUse(t *Transaction) {
	t.Hash()
	t.TransactionPrefix.Hash()
	t.Serialize()
	t.Size()
	_, _ = t.ParseExtra()
}

func verifBlockHostile(b []byte) {
	vs.AllocLimit(4096 + 64*len(b))
	t, _, err := verifParseBlock(b)
	if err != nil {
		vs.Cover("rejected")
		return
	}
	vs.Cover("?parsed")
	verifTxUse(&t.BaseTransaction)
	t.Hash()
	t.Index()
	t.HashingBytes()
	t.Serialize()
	if t.Parent != nil {
		t.Parent.BaseTransaction.Hash()
	}
}
