package cryptonote

import (
	"errors"

	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go
//verif:use lib_validator.go
//verif:use ../crypto/lib_ring.go
//verif:stub cryptonote BlockChain.IsSpent SpecSpent
//verif:stub cryptonote BlockChain.ExtractKeyOutputKeys SpecExtract
//verif:stub cryptonote BlockChain.checkProofOfWork SpecWork
//verif:stub crypto CheckRingSignature SpecRing

// ASSUME: what the repository leaves as placeholders (lookup of outputs and spent key images, proof of work) and the check of ring signatures (C30) answer as an arbitrary database, symbolically and natively; key images are in the prime-order subgroup (C22)

// VerifStubs makes the placeholders ask the functions below.
var VerifStubs bool

// verifOwner is what is known of the output an input spends.
type verifOwner struct {
	image   crypto.KeyImage
	amount  uint64
	at      []uint32
	keys    []crypto.PublicKey
	failure error
	sigs    []crypto.Signature
	valid   bool
	spent   bool
}

var verifOwners []*verifOwner
var verifPrefix crypto.Hash
var verifWorkOf func(b *Block, difficulty uint64) error

func SpecSpent(bc *BlockChain, image crypto.KeyImage, height uint32) bool {
	for _, o := range verifOwners {
		if o.image == image {
			return o.spent
		}
	}
	return false
}

func SpecExtract(bc *BlockChain, amount uint64, height uint32, indexes []uint32) ([]crypto.PublicKey, error) {
	for _, o := range verifOwners {
		if len(indexes) != len(o.at) {
			continue
		}
		same := amount == o.amount
		for i := range indexes {
			same = vs.And(same, indexes[i] == o.at[i])
		}
		if same {
			return o.keys, o.failure
		}
	}
	return nil, ErrExtractOutputKeyInvalidGlobalIndex
}

func SpecWork(bc *BlockChain, b *Block, difficulty uint64) error { return verifWorkOf(b, difficulty) }

func verifRing(prefix *crypto.Hash, image *crypto.KeyImage, keys *[]crypto.PublicKey, sigs *[]crypto.Signature) bool {
	for _, o := range verifOwners {
		if o.image == *image && *prefix == verifPrefix && vs.Same(*keys, o.keys) && vs.Same(*sigs, o.sigs) {
			return o.valid
		}
	}
	return false
}

func verifStubbed() {
	VerifStubs, crypto.VerifStubs, crypto.VerifRing = true, true, verifRing
	verifWorkOf = func(*Block, uint64) error { return nil }
}

// key images of the prime-order subgroup
var verifImages = []crypto.KeyImage{crypto.KeyImage(verifMinerKey), crypto.KeyImage(verifGoodKey), {1}}

// SpecMult is the product of a point of the prime-order subgroup with the order.
func SpecMult(image *crypto.KeyImage, l *crypto.KeyImage) (*crypto.KeyImage, error) {
	if *l != LImage {
		panic("another multiple")
	}
	i := IImage
	return &i, nil
}

// verifOwned makes the inputs of a transaction spend outputs with any answers of the database, and tells whether
// they are authorised.
func verifOwned(t *Transaction) bool {
	verifOwners = nil
	ok := true
	which := vs.Int("which", 0, len(t.Inputs)-1)
	for i := range t.Inputs {
		in := t.Inputs[i].(InputKey)
		o := &verifOwner{image: verifImages[i], amount: in.Amount, valid: vs.Bool("valid"), spent: vs.Bool("spent")}
		ring := vs.Int("ring", 1, vs.Bound("ring", 2, 4))
		at := vs.U32("first")
		if vs.Int("far", 0, 1) == 0 {
			vs.Assume(at < 1<<7)
		} else {
			vs.Assume(at >= 1<<28 && at < 1<<31)
		}
		in.OutputIndexes, in.KeyImage = []uint32{at}, o.image
		o.at = []uint32{at}
		for k := 1; k < ring; k++ {
			d := vs.U32("distance")
			vs.Assume(d > 0 && d < 1<<7)
			in.OutputIndexes = append(in.OutputIndexes, d)
			at += d
			o.at = append(o.at, at)
		}
		for k := 0; k < ring; k++ {
			o.keys = append(o.keys, crypto.PublicKey{byte(k), vs.U8("key")})
			o.sigs = append(o.sigs, crypto.Signature{C: crypto.EllipticCurveScalar{byte(k), vs.U8("signature")}})
		}
		answer := 0
		if i == which {
			answer = vs.Int("database", 0, 3)
		}
		switch answer {
		case 1:
			o.failure = []error{ErrExtractOutputKeyInvalidGlobalIndex, ErrExtractOutputKeyLocked, errors.New("broken")}[vs.Int("failure", 0, 2)]
			if vs.Int("anyway", 0, 1) == 0 {
				o.keys = nil
			}
			ok = false
		case 2:
			o.keys = o.keys[1:]
			ok = false
		case 3:
			o.sigs = o.sigs[1:]
			ok = false
		}
		ok = vs.And(ok, o.valid, !o.spent)
		t.Inputs[i] = in
		t.TransactionSignatures[i] = append([]crypto.Signature(nil), o.sigs...)
		verifOwners = append(verifOwners, o)
	}
	verifPrefix = *t.TransactionPrefix.Hash()
	return ok
}

// Any checkpoint, height, and answers of the database.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall,(*~/crypto.KeyImage).ScalarMult:SpecMult
func VerifC40Inputs() {
	verifStubbed()
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	zone := uint32(0)
	if vs.Int("checkpoint", 0, 1) == 1 {
		zone = vs.U32("zone")
		vs.Assume(zone > 0)
		if bc.Checkpoints.AddCheckpoint(zone, crypto.Hash{1}) != nil {
			panic("checkpoint")
		}
	}
	height := vs.U32("height")
	vs.Assume(height > 0 && height < 1<<32-1)
	var ins []uint64
	n := vs.Int("inputs", 1, 2)
	for i := 0; i < n; i++ {
		ins = append(ins, 1000000000000+uint64(i))
	}
	t := verifSpend(1, ins, []uint64{1000000000}, 33)
	authorised := verifOwned(t)
	err := NewBlockTransactionsValidator(bc, height, bc.logger).validate(t)
	vs.Assert((err == nil) == vs.Or(height <= zone, authorised), "a transaction is accepted though its inputs are not authorised, or refused though they are")
	if err == nil {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// A large ring, and several inputs.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall,(*~/crypto.KeyImage).ScalarMult:SpecMult
func VerifC40Many() {
	verifStubbed()
	verifOwners = nil
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	n, ring := vs.Int("inputs", 1, 3), vs.Bound("large ring", 20, 80)
	var ins []uint64
	for i := 0; i < n; i++ {
		ins = append(ins, 1000000000000+uint64(i))
	}
	t := verifSpend(1, ins, []uint64{1000000000}, 33)
	bad, wrong := vs.Int("bad", 0, n-1), vs.Int("wrong", 0, 6)
	place := []int{0, 1, ring / 2, ring - 1}[vs.Int("place", 0, 3)]
	ok := wrong == 0
	for i := range t.Inputs {
		in := t.Inputs[i].(InputKey)
		o := &verifOwner{image: verifImages[i], amount: in.Amount, valid: true}
		in.KeyImage, in.OutputIndexes = o.image, nil
		at := uint32(0)
		for k := 0; k < ring; k++ {
			d := 3 + uint32(k)*100
			if i == bad && k == place && wrong == 0 {
				d = vs.U32("distance")
				vs.Assume(d > 0 && d < 1<<31)
			}
			at += d
			in.OutputIndexes = append(in.OutputIndexes, d)
			o.at = append(o.at, at)
			o.keys = append(o.keys, crypto.PublicKey{byte(k), byte(i)})
			o.sigs = append(o.sigs, crypto.Signature{C: crypto.EllipticCurveScalar{byte(k), byte(i)}})
		}
		sigs := append([]crypto.Signature(nil), o.sigs...)
		if i == bad {
			switch wrong {
			case 1: // a signature is altered
				x := vs.U8("delta")
				vs.Assume(x != 0)
				sigs[place].R[31] ^= x
			case 2: // a signature is missing
				sigs = append(sigs[:place:place], sigs[place+1:]...)
			case 3: // one too many
				sigs = append(sigs, crypto.Signature{})
			case 4:
				o.spent = true
			case 5:
				o.valid = false
			case 6: // an output twice
				if place == 0 {
					return
				}
				in.OutputIndexes[place] = 0
				for k := place; k < ring; k++ {
					o.at[k] -= 3 + uint32(place)*100
				}
			}
		}
		t.Inputs[i] = in
		t.TransactionSignatures[i] = sigs
		verifOwners = append(verifOwners, o)
	}
	verifPrefix = *t.TransactionPrefix.Hash()
	err := NewBlockTransactionsValidator(bc, 1000, bc.logger).validate(t)
	vs.Assert((err == nil) == ok, "a transaction is accepted though its inputs are not authorised, or refused though they are")
	if ok {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// A block above the checkpoints, with a transaction.
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=(*~/crypto.KeyImage).ScalarMult:SpecMult
func VerifC40Block() {
	verifStubbed()
	top := []uint32{1000, 70000, 266010, 300500, 500500}[vs.Int("top", 0, vs.Bound("last height", 4, 4))]
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	zone := uint32(0)
	if vs.Int("checkpoint", 0, 1) == 1 {
		zone = top - 1 + uint32(vs.Int("zone", 0, 3))
		if bc.Checkpoints.AddCheckpoint(zone, crypto.Hash{1}) != nil {
			panic("checkpoint")
		}
	}
	b := verifCandidate(bc, s)
	authorised := true
	var raw [][]byte
	if vs.Int("transactions", 0, 1) == 1 {
		t := verifSpend(1, []uint64{2000000000000}, []uint64{1000000000}, 33)
		o := &verifOwner{image: verifImages[0], amount: 2000000000000, at: []uint32{7, 9}, keys: []crypto.PublicKey{{1}, {2}}, sigs: make([]crypto.Signature, 2), valid: vs.Bool("valid"), spent: vs.Bool("spent")}
		in := t.Inputs[0].(InputKey)
		in.OutputIndexes, in.KeyImage = []uint32{7, 2}, o.image
		t.Inputs[0] = in
		t.TransactionSignatures[0] = o.sigs
		verifOwners = []*verifOwner{o}
		verifPrefix = *t.TransactionPrefix.Hash()
		authorised = vs.And(o.valid, !o.spent)
		b.BaseTransaction.Outputs[0].Amount += 1999000000000
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	worked := vs.Bool("worked")
	asked := uint64(0)
	verifWorkOf = func(c *Block, difficulty uint64) error {
		asked = difficulty
		if *c.Hash() == *b.Hash() && worked {
			return nil
		}
		return errors.New("too weak")
	}
	err := bc.AddBlock(b, raw)
	if zone >= top+1 {
		// the hash of a checkpoint decides (C24)
		vs.Assert((err == nil) == (zone != top+1 || *b.Hash() == crypto.Hash{1}), "a block below a checkpoint is not decided by the checkpoint alone")
		if err == nil {
			vs.Cover("trusted")
		}
		return
	}
	vs.Assert((err == nil) == vs.And(worked, authorised), "a block is accepted without proof of work or authorised inputs, or refused with both")
	if err != nil {
		vs.Assert(len(s.pushed) == 0, "a refused block is stored")
		vs.Cover("refused")
		return
	}
	vs.Assert(len(s.infos) == 1 && s.infos[0].CumulativeDifficulty == verifWork(top)+asked, "the work is proven for another difficulty than the one counted")
	vs.Cover("accepted")
}

// Without a stand-in for the database: nothing is accepted above the checkpoints while outputs cannot be looked up.
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed contract=(*~/cryptonote.Transaction).Size:SpecSmall,(*~/crypto.KeyImage).ScalarMult:SpecMult
func VerifC40Unknown() {
	verifStubbed()
	VerifStubs = false
	crypto.VerifRing = func(_ *crypto.Hash, _ *crypto.KeyImage, keys *[]crypto.PublicKey, _ *[]crypto.Signature) bool {
		return len(*keys) > 0 && vs.Bool("valid")
	}
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	height := vs.U32("height")
	vs.Assume(height > 0 && height < 1<<32-1)
	t := verifSpend(1, []uint64{1000000000000, 1000000000001}, []uint64{1000000000}, 33)
	for i := range t.Inputs {
		in := t.Inputs[i].(InputKey)
		in.KeyImage = verifImages[i]
		in.OutputIndexes = nil
		ring := vs.Int("ring", 1, 3)
		for k := 0; k < ring; k++ {
			d := vs.U32("distance")
			vs.Assume(d < 128)
			in.OutputIndexes = append(in.OutputIndexes, d)
		}
		t.Inputs[i] = in
		t.TransactionSignatures[i] = make([]crypto.Signature, vs.Int("signatures", 0, 3))
	}
	vs.Assert(NewBlockTransactionsValidator(bc, height, bc.logger).validate(t) != nil, "a transaction that spends unknown outputs is accepted")
	vs.Cover("refused")
}

// When an output with an unlock time may be spent.
//
//verif:harness timeout=60
func VerifC40Locked() {
	bc := verifNewChain(&verifHistory{stamp: verifStampOf(0, 0), size: func(uint32) uint64 { return 300 }})
	unlock, height := vs.U64("unlock"), vs.U32("height")
	before := bc.Network.Timestamp()
	got := bc.IsTransactionSpendTimeUnlocked(unlock, height)
	after := bc.Network.Timestamp()
	if unlock < 500000000 {
		vs.Assert(got == (uint64(height)+1 >= unlock), "an output locked to a height is spent before, or not after it")
		vs.Cover("height")
		return
	}
	vs.Assert(vs.Or(!got, after+240 >= unlock), "an output locked to a time is spent before it")
	vs.Assert(vs.Or(got, before+240 < unlock), "an output locked to a time is not spent after it")
	vs.Cover("time")
}
