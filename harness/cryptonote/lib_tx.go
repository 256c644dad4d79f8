package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// verifFields makes the numbers of a value: one of them (chosen by the explorer) is arbitrary, the others are any
// value that fits a one-byte varint. A coinbase-only value has the largest lists and coinbase inputs.
type verifFields struct {
	n, wide  int
	coinbase bool
	// all numbers take this many bytes, or as many as they can
	bytes uint
}

func (f *verifFields) length(name string, max int) int {
	if f.coinbase {
		return max
	}
	return vs.Int(name, 0, max)
}

func (f *verifFields) num(bits uint) uint64 {
	v := vs.U64("num")
	if f.bytes > 0 {
		low := 7 * (f.bytes - 1)
		if most := (bits - 1) / 7 * 7; low > most {
			low = most
		}
		vs.Assume(v>>low != 0)
		if low+7 < bits {
			bits = low + 7
		}
		if bits < 64 {
			vs.Assume(v>>bits == 0)
		}
		return v
	}
	if f.n != f.wide {
		vs.Assume(v < 128)
	} else if bits < 64 {
		vs.Assume(v < 1<<bits)
	}
	f.n++
	return v
}

// done drops the cases where the chosen number does not exist.
func (f *verifFields) done() { vs.Assume(f.wide < f.n || f.wide == 0) }

func verifHash(name string) (h crypto.Hash) {
	copy(h[:], vs.Bytes(name, 32))
	return
}

func verifKey(name string) (k crypto.PublicKey) {
	copy(k[:], vs.Bytes(name, 32))
	return
}

func verifImage(name string) (k crypto.KeyImage) {
	copy(k[:], vs.Bytes(name, 32))
	return
}

func verifSig(name string) (s crypto.Signature) {
	b := vs.Bytes(name, 64)
	copy(s.C[:], b[:32])
	copy(s.R[:], b[32:])
	return
}

// verifPrefix is a transaction prefix of an arbitrary shape within the bounds with arbitrary contents.
func verifPrefix(f *verifFields, maxIn, maxRing, maxOut, maxExtra int) (tp TransactionPrefix) {
	tp.Version = byte(f.num(8))
	tp.UnlockHeight = f.num(64)
	nIn := f.length("inputs", maxIn)
	for i := 0; i < nIn; i++ {
		kind := f.length("ring", maxRing+1)
		if kind == maxRing+1 {
			tp.Inputs = append(tp.Inputs, InputCoinbase{uint32(f.num(32))})
			continue
		}
		in := InputKey{Amount: f.num(64), KeyImage: verifImage("image")}
		for j := 0; j < kind; j++ {
			in.OutputIndexes = append(in.OutputIndexes, uint32(f.num(32)))
		}
		tp.Inputs = append(tp.Inputs, in)
	}
	nOut := f.length("outputs", maxOut)
	for i := 0; i < nOut; i++ {
		tp.Outputs = append(tp.Outputs, TransactionOutput{Amount: f.num(64), Target: OutputKey{verifKey("outkey")}})
	}
	tp.Extra = vs.Bytes("extra", vs.Int("extralen", 0, maxExtra))
	return
}

// verifSigs adds the signatures its inputs call for.
func verifSigs(t *Transaction) {
	if len(t.Inputs) == 1 {
		if _, ok := t.Inputs[0].(InputCoinbase); ok {
			return
		}
	}
	for _, in := range t.Inputs {
		var sigs []crypto.Signature
		if k, ok := in.(InputKey); ok {
			for range k.OutputIndexes {
				sigs = append(sigs, verifSig("sig"))
			}
		}
		t.TransactionSignatures = append(t.TransactionSignatures, sigs)
	}
}

// verifSamePrefix compares the contents, not the cached hashes.
func verifSamePrefix(a, b *TransactionPrefix) bool {
	return vs.And(a.Version == b.Version, a.UnlockHeight == b.UnlockHeight,
		vs.Same(a.Inputs, b.Inputs), vs.Same(a.Outputs, b.Outputs), vs.Same(a.Extra, b.Extra))
}

func verifSameTx(a, b *Transaction) bool {
	return vs.And(verifSamePrefix(&a.TransactionPrefix, &b.TransactionPrefix), verifSameSigs(a.TransactionSignatures, b.TransactionSignatures))
}

// verifSameSigs compares the signatures; empty lists at the end do not count.
func verifSameSigs(a, b TransactionSignatures) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	ok := true
	for i := 0; i < n; i++ {
		var x, y []crypto.Signature
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		ok = vs.And(ok, vs.Same(x, y))
	}
	return ok
}

func verifSameBlock(a, b *Block) bool {
	ok := vs.And(vs.Same(a.BlockHeader, b.BlockHeader), verifSameTx(&a.BaseTransaction, &b.BaseTransaction),
		vs.Same(a.TransactionsHashes, b.TransactionsHashes), vs.Same(a.Signature, b.Signature),
		(a.Parent == nil) == (b.Parent == nil))
	if a.Parent == nil || b.Parent == nil {
		return ok
	}
	p, q := a.Parent, b.Parent
	return vs.And(ok, p.MajorVersion == q.MajorVersion, p.MinorVersion == q.MinorVersion, p.Timestamp == q.Timestamp,
		p.Nonce == q.Nonce, vs.Same(p.Prev, q.Prev), p.TransactionsCount == q.TransactionsCount,
		vs.Same(p.BaseTransactionBranch, q.BaseTransactionBranch), vs.Same(p.BlockchainBranch, q.BlockchainBranch),
		verifSamePrefix(p.BaseTransaction.TransactionPrefix, q.BaseTransaction.TransactionPrefix))
}

func verifParseTx(b []byte) (*Transaction, *bytes.Reader, error) {
	t := &Transaction{}
	r := bytes.NewReader(b)
	err := t.Deserialize(r)
	return t, r, err
}

func verifParseBlock(b []byte) (*Block, *bytes.Reader, error) {
	t := &Block{}
	r := bytes.NewReader(b)
	err := t.Deserialize(r)
	return t, r, err
}
