package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go

// ASSUME: maps are iterated in insertion order; the chain below the block is an invented history ending at one of the listed heights; transactions are taken from a list of valid ones that lie below a checkpoint (without it no transaction can be accepted, as looking up its inputs is not implemented); a version 5 signature checks exactly for the hash and key it was made for

var verifContentTops = []uint32{1000, 70000, 266000, 700010, 216010, 500010}

func verifContentChain(top uint32) (*BlockChain, *verifHistory) {
	s := &verifHistory{top: top, stamp: verifStampOf(0, top), size: func(i uint32) uint64 { return 300 + uint64(i)%97 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	if bc.Checkpoints.AddCheckpoint(top+5, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	return bc, s
}

func verifFinish(b *Block) {
	if b.MajorVersion == 5 {
		b.Signature = verifSign(crypto.HashFromBytes(b.HashingBytes()))
	}
}

//verif:harness timeout=100 timeout.thorough=800 maporder=fixed contract=~/cryptonote.verifSign:SpecSign,(*~/crypto.Signature).Check:SpecSigCheck
func VerifC17Transactions() {
	bc, s := verifContentChain(verifContentTops[vs.Int("top", 0, vs.Bound("last height", 2, 5))])
	b := verifCandidate(bc, s)
	b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifMinerKey}
	fees := []uint64{200000000000, 300000000000, 150000000000}
	txs := []*Transaction{verifTx(1, fees[0]), verifTx(2, fees[1]), verifTx(3, fees[2])}
	ok := true
	// the header
	n := vs.Int("named", 0, vs.Bound("named", 2, 3))
	var named []int
	for k := 0; k < n; k++ {
		i := vs.Int("name", 0, 3)
		named = append(named, i)
		if i < 3 {
			b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes(txs[i].Serialize()))
		} else {
			b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes([]byte{byte(k)}))
			ok = false
		}
		for _, o := range named[:k] {
			if o == i {
				ok = false
			}
		}
	}
	// what is supplied
	m := vs.Int("supplied", 0, vs.Bound("supplied", 2, 3))
	ok = ok && n == m
	fee := uint64(0)
	var raw [][]byte
	for k := 0; k < m; k++ {
		i := vs.Int("supply", 0, 2)
		r := txs[i].Serialize()
		if ok && i != named[k] {
			ok = false
		}
		fee += fees[i]
		if k == m-1 && ok {
			switch vs.Int("damage", 0, 3) {
			case 1:
				r, ok = append(r, vs.U8("more")), false
			case 2:
				r, ok = r[:len(r)-1], false
			case 3:
				at := vs.Int("at", 0, vs.Bound("damaged bytes", 30, 300))
				if at < len(r) {
					d := vs.U8("delta")
					r[len(r)-1-at] ^= d
					ok = vs.And(ok, d == 0)
				}
			}
		}
		raw = append(raw, r)
	}
	b.BaseTransaction.Outputs[0].Amount += fee
	verifFinish(b)
	err := bc.AddBlock(b, raw)
	if ok {
		vs.Assert(err == nil, "a block with exactly the named transactions is refused")
		vs.Assert(len(s.pushed) == 1 && len(s.details) == 1, "an accepted block is not stored")
		got := s.details[0]
		vs.Assert(len(got.transactions) == n, "wrong number of transactions stored")
		for k := range got.transactions {
			vs.Assert(*got.transactions[k].Hash() == b.TransactionsHashes[k], "another transaction is stored")
		}
		vs.Assert(len(got.spentKeyImages) == n, "wrong number of spent key images")
		for k := range named {
			found := false
			for _, x := range got.spentKeyImages {
				found = found || x == crypto.KeyImage{7, byte(named[k] + 1)}
			}
			vs.Assert(found, "a spent key image is lost")
		}
		vs.Cover("accepted")
	} else {
		vs.Assert(err != nil, "a block with other transactions than named is accepted")
		vs.Assert(len(s.pushed) == 0, "a refused block is stored")
		vs.Cover("refused")
	}
}

// the reward of small blocks, with fees
//
//verif:harness timeout=60 timeout.thorough=400 maporder=fixed contract=~/cryptonote.verifSign:SpecSign,(*~/crypto.Signature).Check:SpecSigCheck
func VerifC17Reward() {
	bc, s := verifContentChain(verifContentTops[vs.Int("top", 0, vs.Bound("last height", 5, 5))])
	s.coins = []uint64{5000000000000000000, 0, 9900000000000000000, 9999999500000000000, 10000000000000000000, 10000002000000000000}[vs.Int("coins", 0, 5)]
	b := verifCandidate(bc, s)
	var raw [][]byte
	fee := uint64(0)
	for k := 0; k < vs.Int("txs", 0, 2); k++ {
		t := verifTx(byte(k+1), 200000000000)
		fee += 200000000000
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	paid := vs.U64("paid")
	b.BaseTransaction.Outputs[0] = TransactionOutput{Amount: paid, Target: OutputKey{PublicKey: verifMinerKey}}
	verifFinish(b)
	err := bc.AddBlock(b, raw)
	if paid == verifBaseReward(s.coins)+fee {
		vs.Assert(err == nil, "a block that pays the reward and the fees is refused")
		vs.Assert(s.infos[0].TotalGeneratedCoins == s.coins+verifBaseReward(s.coins), "the generated coins are not advanced by the emission")
		vs.Cover("accepted")
	} else {
		vs.Assert(err != nil, "a block that pays something else than the reward and the fees is accepted")
		vs.Cover("refused")
	}
}

// the penalty of large blocks by the median of the last 100 sizes
//
//verif:harness timeout=60 timeout.thorough=600 maporder=fixed
func VerifC17Median() {
	top := []uint32{1000, 50, 99, 98, 100, 3}[vs.Int("top", 0, vs.Bound("last height", 2, 5))]
	kind := vs.Int("sizes", 0, 2)
	bc, s := verifContentChain(top)
	s.size = func(i uint32) uint64 {
		switch kind {
		case 0:
			return 90000 + uint64(i)*7919%50000
		case 1:
			return 100000 + 40*uint64(top-i)
		}
		if top-i < 50 {
			return 120000
		}
		return 110000
	}
	b := verifCandidate(bc, s)
	b.BaseTransaction.Extra = make([]byte, []int{60000, 103000, 120000, 150000, 250000}[vs.Int("extra", 0, 4)])
	var raw [][]byte
	fee := uint64(0)
	if vs.Int("tx", 0, 1) == 1 {
		t := verifTx(1, 300000000000)
		fee = 300000000000
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	b.BaseTransaction.Outputs[0].Amount = 1 << 43
	size := uint64(len(b.BaseTransaction.Serialize()))
	for _, r := range raw {
		size += uint64(len(r))
	}
	median := verifMedian(verifTail(s.size, 100, top, 0))
	refused := size > 2*median && size > 200000
	off := uint64(vs.Int("off", 0, 2))
	if !refused {
		// amounts of this size take as many bytes
		pay := verifPay(verifBaseReward(s.coins), median, size, 1) + verifPay(fee, median, size, 1)
		b.BaseTransaction.Outputs[0].Amount = pay + off - 1
		vs.Assume(uint64(len(b.BaseTransaction.Serialize())) == size-verifSum(raw))
	}
	err := bc.AddBlock(b, raw)
	if !refused && off == 1 {
		vs.Assert(err == nil, "a large block that pays the penalised reward is refused")
		vs.Assert(s.infos[0].Size == size, "wrong size")
		vs.Cover("accepted")
	} else {
		vs.Assert(err != nil, "a large block that pays another reward, or is too large, is accepted")
		vs.Cover("refused")
	}
}

func verifSum(raw [][]byte) (n uint64) {
	for _, r := range raw {
		n += uint64(len(r))
	}
	return
}

// many transactions, wrong in one place or not at all
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=~/cryptonote.verifSign:SpecSign,(*~/crypto.Signature).Check:SpecSigCheck
func VerifC17Many() {
	bc, s := verifContentChain(verifContentTops[vs.Int("top", 0, vs.Bound("last height", 2, 5))])
	b := verifCandidate(bc, s)
	n := vs.Bound("many", 24, 60)
	fee := uint64(0)
	wrong, at := vs.Int("wrong", 0, 7), vs.Int("at", 0, n-1)
	if at > 2 && at < n-3 && at != n/2 || wrong == 0 && at > 0 {
		return
	}
	var txs []*Transaction
	for k := 0; k < n; k++ {
		f := 200000000000 + uint64(k)*1000000
		t := verifTx(byte(k+1), f)
		if k == at && wrong == 7 {
			t.Inputs[0] = InputKey{Amount: 1000000000000 + f, OutputIndexes: []uint32{9}, KeyImage: crypto.KeyImage{7, byte((k+1)%n + 1)}}
			t.TransactionSignatures = TransactionSignatures{{crypto.Signature{}}}
		}
		fee += f
		txs = append(txs, t)
	}
	var raw [][]byte
	for _, t := range txs {
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes(raw[len(raw)-1]))
	}
	next := (at + 1) % n
	switch wrong {
	case 1: // one is missing
		raw = append(raw[:at:at], raw[at+1:]...)
	case 2: // one comes twice
		raw = append(raw, raw[at])
	case 3: // one is named twice
		b.TransactionsHashes = append(b.TransactionsHashes, b.TransactionsHashes[at])
		raw = append(raw, raw[at])
	case 4: // two are the wrong way round
		raw[at], raw[next] = raw[next], raw[at]
	case 5: // one instead of another
		raw[at] = raw[next]
	case 6: // one is altered
		x := vs.U8("delta")
		vs.Assume(x != 0)
		raw[at] = append([]byte{}, raw[at]...)
		raw[at][len(raw[at])-1-vs.Int("byte", 0, 1)*70] ^= x
	}
	off := uint64(0)
	if wrong == 0 {
		off = vs.U64("off")
	}
	b.BaseTransaction.Outputs[0].Amount += fee + off
	b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifMinerKey}
	verifFinish(b)
	err := bc.AddBlock(b, raw)
	if vs.And(wrong == 0, off == 0) {
		vs.Assert(err == nil, "a block with exactly the named transactions is refused")
		vs.Assert(len(s.pushed) == 1 && len(s.details) == 1, "an accepted block is not stored")
		got := s.details[0]
		vs.Assert(len(got.transactions) == n && len(got.spentKeyImages) == n, "wrong number of transactions stored")
		images := map[crypto.KeyImage]bool{}
		for _, x := range got.spentKeyImages {
			images[x] = true
		}
		for k := range got.transactions {
			vs.Assert(*got.transactions[k].Hash() == b.TransactionsHashes[k], "another transaction is stored")
			vs.Assert(images[crypto.KeyImage{7, byte(k + 1)}], "a spent key image is lost")
		}
		vs.Cover("accepted")
	} else {
		vs.Assert(err != nil, "a block with other transactions than named is accepted")
		vs.Assert(len(s.pushed) == 0, "a refused block is stored")
		vs.Cover("refused")
	}
}
