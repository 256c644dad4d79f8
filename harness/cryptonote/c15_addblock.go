package cryptonote

import (
	"errors"
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
	"github.com/sirupsen/logrus"
)

//verif:use lib_chain.go
//verif:use c16_header.go
//verif:use c17_contents.go

// ASSUME: maps are iterated in insertion order; the chain below the block is an invented history ending at one of the listed heights, or genesis in the real memory storage; transactions are taken from a list of valid ones that lie below a checkpoint; a version 5 signature checks exactly for the hash and key it was made for

var verifAddTops = []uint32{0, 1000, 59999, 60000, 216000, 266000, 300000, 700000, 700001, 700050, 1, 2, 373, 374, 375, 376, 60010, 215999, 266100, 299999, 699999, 700119, 700120, 700121, 710000}

//verif:harness timeout=100 timeout.thorough=600 maporder=fixed contract=~/cryptonote.verifSign:SpecSign,(*~/crypto.Signature).Check:SpecSigCheck
func VerifC15Info() {
	top := verifAddTops[vs.Int("top", 0, vs.Bound("last height", 9, len(verifAddTops)-1))]
	kind := vs.Int("history", 0, 2)
	bc, s := verifContentChain(top)
	s.stamp = verifStampOf(kind, top)
	b := verifCandidate(bc, s)
	b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifMinerKey}
	b.Nonce = vs.U32("nonce")
	if vs.Int("past", 0, 1) == 1 {
		b.Timestamp = vs.U64("stamp")
		vs.Assume(b.Timestamp >= 1400010000+240*uint64(top) && b.Timestamp < 1600000000)
		if b.Parent != nil {
			b.Parent.Timestamp = b.Timestamp
		}
	}
	var raw [][]byte
	n := vs.Int("txs", 0, 2)
	for k := 0; k < n; k++ {
		t := verifTx(byte(k+1), 200000000000)
		b.BaseTransaction.Outputs[0].Amount += 200000000000
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
	}
	verifFinish(b)
	full := vs.Int("storage", 0, 1) == 1
	if full {
		s.refuse = errors.New("disk full")
	}
	before := bc.TopBlock()
	err := bc.AddBlock(b, raw)
	if full {
		vs.Assert(err != nil, "a failure of the storage is not reported")
		vs.Assert(bc.TopBlock() == before && bc.Height() == top, "a failure of the storage changes the chain")
		vs.Assert(len(s.pushed) == 0, "")
		s.refuse = nil
		err = bc.AddBlock(b, raw)
		vs.Cover("failed")
	}
	vs.Assert(err == nil, "a valid block is refused")
	vs.Assert(len(s.pushed) == 1 && s.pushed[0] == b && bc.TopBlock() == b && bc.Height() == top+1, "the block is not the new top")
	got, prev := s.infos[0], s.info(top)
	vs.Assert(got.Index == top+1, "wrong index")
	vs.Assert(got.Hash == *b.Hash(), "wrong hash")
	vs.Assert(got.Timestamp == b.Timestamp, "wrong timestamp")
	vs.Assert(got.TotalGeneratedCoins == prev.TotalGeneratedCoins+verifBaseReward(s.coins), "wrong generated coins")
	vs.Assert(got.TotalGeneratedTransactions == prev.TotalGeneratedTransactions+uint64(n), "wrong number of transactions")
	size := uint64(len(b.BaseTransaction.Serialize())) + verifSum(raw)
	vs.Assert(got.Size == size, "wrong size")
	version := verifVersion(top + 1)
	if version == 3 {
		// floating point
		vs.Assert(got.CumulativeDifficulty > prev.CumulativeDifficulty, "difficulty does not grow")
	} else {
		_, w := verifWindowOf(version)
		d, err := bc.Network.NextDifficulty(top, version, verifTail(s.stamp, w, top, 1), verifTail(verifWork, w, top, 1))
		vs.Assert(err == nil, "no difficulty")
		vs.Assert(got.CumulativeDifficulty == prev.CumulativeDifficulty+d, "the difficulty added is not the one of the last blocks")
	}
	vs.Assert(bc.HaveBlock(b.Hash()), "an accepted block is unknown")
	vs.Assert(bc.AddBlock(b, raw) == ErrAddBlockAlreadyExists, "a block is added again")
	vs.Assert(len(s.pushed) == 1 && bc.TopBlock() == b, "adding a block again changes the chain")
	vs.Cover("added")
}

// verifView is what can be observed of a chain.
type verifView struct {
	top    *Block
	height uint32
	have   []bool
	blocks []*Block
	hashes []crypto.Hash
	infos  []blockInfo
	sparse []crypto.Hash
}

func verifViewOf(bc *BlockChain, blocks []*Block) (v verifView) {
	v.top, v.height = bc.TopBlock(), bc.Height()
	for _, b := range blocks {
		v.have = append(v.have, bc.HaveBlock(b.Hash()))
		v.blocks = append(v.blocks, bc.storage.GetBlock(b.Hash()))
	}
	for i := uint32(0); i < 4; i++ {
		var h crypto.Hash
		var info blockInfo
		if x, _ := bc.storage.HashAtIndex(i); x != nil {
			h = *x
		}
		if x := bc.storage.getBlockInfoAtIndex(i); x != nil {
			info = *x
		}
		v.hashes, v.infos = append(v.hashes, h), append(v.infos, info)
	}
	v.sparse, _ = bc.BuildSparseChain()
	return
}

func verifSameView(a, b verifView) bool {
	return vs.And(a.top == b.top, a.height == b.height, vs.Same(a.have, b.have), vs.Same(a.hashes, b.hashes), vs.Same(a.infos, b.infos), vs.Same(a.sparse, b.sparse), verifSamePointers(a.blocks, b.blocks))
}

func verifSamePointers(a, b []*Block) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// histories of the real genesis and blocks that are good or bad in one way, in the real memory storage
//
//verif:harness timeout=100 timeout.thorough=800 maporder=fixed
func VerifC15Histories() {
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), NewMemoryStorage(), l)
	vs.Assert(bc.Init() == nil, "no genesis")
	if bc.Checkpoints.AddCheckpoint(10, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	genesis := bc.TopBlock()
	chain := []*Block{genesis}
	all := []*Block{genesis}
	coins := genesis.BaseTransaction.Outputs[0].Amount
	steps := vs.Bound("steps", 2, 3)
	for k := 0; k < steps; k++ {
		parent := chain[len(chain)-1]
		i := uint32(len(chain))
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Timestamp: 1500000000 + uint64(i), PreviousBlockHash: *parent.Hash(), Nonce: uint32(k)}}
		b.BaseTransaction.TransactionPrefix = TransactionPrefix{
			Version: 1, UnlockHeight: uint64(i) + 10,
			Inputs:  []TransactionInput{InputCoinbase{BlockIndex: i}},
			Outputs: []TransactionOutput{{Amount: verifBaseReward(coins), Target: OutputKey{PublicKey: verifGoodKey}}},
		}
		tx := verifTx(byte(k), 200000000000)
		tx.Inputs[0] = InputKey{Amount: 1200000000000, OutputIndexes: []uint32{vs.U32("offset")}, KeyImage: crypto.KeyImage{byte(k)}}
		tx.TransactionSignatures = TransactionSignatures{{crypto.Signature{}}}
		var raw [][]byte
		txs := vs.Int("txs", 0, 1)
		if txs == 1 {
			raw = append(raw, tx.Serialize())
			b.TransactionsHashes = []crypto.Hash{crypto.HashFromBytes(raw[0])}
			b.BaseTransaction.Outputs[0].Amount += 200000000000
		}
		ok := true
		switch vs.Int("kind", 0, 9) {
		case 0, 1:
		case 2: // wrong parent
			b.PreviousBlockHash = crypto.HashFromBytes([]byte{1})
			ok = false
		case 3: // a sibling of the top
			if len(chain) == 1 {
				vs.Assume(false)
			}
			parent, i = chain[len(chain)-2], i-1
			b.PreviousBlockHash = *parent.Hash()
			b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: i}}
			b.BaseTransaction.UnlockHeight--
			ok = false
		case 4: // known block
			b, raw = all[vs.Int("old", 0, len(all)-1)], nil
			for _, c := range chain {
				if c == b {
					ok = false
				}
			}
			vs.Assume(!ok)
		case 5: // wrong reward, found after the transactions were checked
			d := vs.U64("delta")
			vs.Assume(d != 0 && d < 1<<20)
			b.BaseTransaction.Outputs[0].Amount += d
			ok = false
		case 6: // a transaction missing or too many
			if txs == 1 {
				raw = nil
			} else {
				raw = append(raw, tx.Serialize())
			}
			ok = false
		case 7: // the second transaction spends the same image
			if txs == 0 {
				vs.Assume(false)
			}
			tx.Extra = nil
			tx.hash = nil
			raw = append(raw, tx.Serialize())
			b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes(raw[1]))
			b.BaseTransaction.Outputs[0].Amount += 200000000000
			ok = false
		case 8: // unlock height
			b.BaseTransaction.UnlockHeight = vs.U64("unlock")
			vs.Assume(b.BaseTransaction.UnlockHeight != uint64(i)+10)
			ok = false
		case 9:
			b.Nonce = vs.U32("nonce")
		}
		all = append(all, b)
		before := verifViewOf(bc, all)
		err := bc.AddBlock(b, raw)
		after := verifViewOf(bc, all)
		if !ok {
			vs.Assert(err != nil, "an invalid block is accepted")
			vs.Assert(verifSameView(before, after), "a refused block changes the chain")
			vs.Cover("refused")
			continue
		}
		vs.Assert(err == nil, "a valid block is refused")
		chain = append(chain, b)
		coins += verifBaseReward(coins)
		vs.Assert(after.top == b && after.height == i, "an accepted block is not the top")
		vs.Assert(after.infos[i].TotalGeneratedCoins == coins, "wrong generated coins")
		for j, c := range chain {
			vs.Assert(after.hashes[j] == *c.Hash(), "a height does not hold its block")
			vs.Assert(bc.storage.GetBlock(c.Hash()) == c, "a block of the chain is lost")
			if uint32(j) < i {
				vs.Assert(vs.Same(after.infos[j], before.infos[j]), "the info of an older block changes")
			}
		}
		vs.Cover("added")
	}
}

// a long chain in the real memory storage, whose last block is good or bad in one way
//
//verif:harness timeout=100 timeout.thorough=800 maporder=fixed steps.thorough=200000000
func VerifC15Long() {
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), NewMemoryStorage(), l)
	vs.Assert(bc.Init() == nil, "no genesis")
	n := uint32(vs.Bound("chain", 20, 70))
	if bc.Checkpoints.AddCheckpoint(n+5, crypto.Hash{1}) != nil {
		panic("checkpoint")
	}
	genesis := bc.TopBlock()
	chain := []*Block{genesis}
	coins, txs := genesis.BaseTransaction.Outputs[0].Amount, uint64(0)
	stamps, works := []uint64{genesis.Timestamp}, []uint64{1}
	gap := []uint64{240, 235, 1000}[vs.Int("gap", 0, 2)]
	next := func(i uint32, with bool) (*Block, [][]byte) {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Timestamp: 1500000000 + gap*uint64(i), PreviousBlockHash: *chain[i-1].Hash(), Nonce: i}}
		b.BaseTransaction.TransactionPrefix = TransactionPrefix{
			Version: 1, UnlockHeight: uint64(i) + 10,
			Inputs:  []TransactionInput{InputCoinbase{BlockIndex: i}},
			Outputs: []TransactionOutput{{Amount: verifBaseReward(coins), Target: OutputKey{PublicKey: verifGoodKey}}},
		}
		if !with {
			return b, nil
		}
		raw := [][]byte{verifTx(byte(i), 200000000000).Serialize()}
		b.TransactionsHashes = []crypto.Hash{crypto.HashFromBytes(raw[0])}
		b.BaseTransaction.Outputs[0].Amount += 200000000000
		return b, raw
	}
	added := func(b *Block, k uint64, raw [][]byte) {
		i := uint32(len(chain))
		d, err := bc.Network.NextDifficulty(i-1, 1, verifTail(func(i uint32) uint64 { return stamps[i] }, 375, i-1, 1), verifTail(func(i uint32) uint64 { return works[i] }, 375, i-1, 1))
		vs.Assert(err == nil, "no difficulty")
		chain = append(chain, b)
		coins += verifBaseReward(coins)
		txs += k
		stamps, works = append(stamps, b.Timestamp), append(works, works[i-1]+d)
		vs.Assert(bc.TopBlock() == b && bc.Height() == i && bc.HaveBlock(b.Hash()), "an accepted block is not the top")
		got := bc.storage.getBlockInfoAtIndex(i)
		vs.Assert(got != nil && got.Index == i && got.Hash == *b.Hash() && got.Timestamp == b.Timestamp, "wrong info")
		vs.Assert(got.TotalGeneratedCoins == coins, "wrong generated coins")
		vs.Assert(got.TotalGeneratedTransactions == txs, "wrong number of transactions")
		vs.Assert(got.CumulativeDifficulty == works[i], "the difficulty added is not the one of the last blocks")
		vs.Assert(got.Size == uint64(len(b.BaseTransaction.Serialize()))+verifSum(raw), "wrong size")
	}
	for i := uint32(1); i < n; i++ {
		b, raw := next(i, i%5 == 2)
		vs.Assert(bc.AddBlock(b, raw) == nil, "a valid block is refused")
		added(b, uint64(len(raw)), raw)
	}
	kind := vs.Int("kind", 0, 5)
	b, raw := next(n, kind%2 == 0 && vs.Int("txs", 0, 1) == 1)
	ok := true
	switch kind {
	case 0:
		b.Nonce = vs.U32("nonce")
	case 1: // on top of an older block
		i := uint32(vs.Int("old", 0, int(n)-2))
		b.PreviousBlockHash = *chain[i].Hash()
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: i + 1}}
		b.BaseTransaction.UnlockHeight = uint64(i) + 11
		ok = false
	case 2: // one of the chain
		b, raw = chain[vs.Int("old", 0, int(n)-1)], nil
		ok = false
	case 3: // any time
		b.Timestamp = vs.U64("stamp")
		vs.Assume(b.Timestamp < 1600000000)
		ok = int(n) <= 60 || vs.Int("late", 0, 1) == 1
		if n > 60 {
			window := append([]uint64{}, stamps[n-60:]...)
			// the median of 60 is the mean of the two in the middle
			mid := (window[29] + window[30]) / 2
			vs.Assume((b.Timestamp >= mid) == ok)
		}
	case 4: // another height
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: vs.U32("height")}}
		vs.Assume(b.Index() != n)
		ok = false
	case 5: // pays more or less
		d := vs.U64("delta")
		vs.Assume(d != 0)
		b.BaseTransaction.Outputs[0].Amount += d
		ok = false
	}
	err := bc.AddBlock(b, raw)
	vs.Assert((err == nil) == ok, "a valid block is refused, or an invalid one accepted")
	if ok {
		added(b, uint64(len(raw)), raw)
		vs.Cover("added")
	} else {
		vs.Cover("refused")
	}
	for i, c := range chain {
		h, err := bc.storage.HashAtIndex(uint32(i))
		info := bc.storage.getBlockInfoAtIndex(uint32(i))
		vs.Assert(err == nil && h != nil && *h == *c.Hash() && bc.storage.GetBlock(h) == c, "a height does not hold its block")
		vs.Assert(info.CumulativeDifficulty == works[i] && info.Timestamp == stamps[i], "the info of an older block changes")
	}
	vs.Assert(bc.TopBlock() == chain[len(chain)-1], "another block is the top")
}

// more transactions in a block than a byte counts
//
//verif:harness timeout=100 timeout.thorough=600 maporder=fixed steps=200000000
func VerifC15Crowd() {
	bc, s := verifContentChain(1000)
	b := verifCandidate(bc, s)
	b.Nonce = vs.U32("nonce")
	n, fee := vs.Bound("crowd", 260, 600), uint64(0)
	var raw [][]byte
	for k := 0; k < n; k++ {
		f := 200000000000 + uint64(k)*1000000
		t := verifTx(byte(k), f)
		t.Inputs[0] = InputKey{Amount: 1000000000000 + f, OutputIndexes: []uint32{9}, KeyImage: crypto.KeyImage{7, byte(k), byte(k >> 8)}}
		t.TransactionSignatures = TransactionSignatures{{crypto.Signature{}}}
		fee += f
		raw = append(raw, t.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes(raw[k]))
	}
	off := uint64(vs.Int("off", 0, 2))
	b.BaseTransaction.Outputs[0].Amount += fee + off - 1
	b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifMinerKey}
	err := bc.AddBlock(b, raw)
	vs.Assert((err == nil) == (off == 1), "a valid block is refused, or one which pays something else is accepted")
	if err != nil {
		vs.Cover("refused")
		return
	}
	got, prev := s.infos[0], s.info(1000)
	vs.Assert(got.TotalGeneratedTransactions == prev.TotalGeneratedTransactions+uint64(n), "wrong number of transactions")
	vs.Assert(got.Size == uint64(len(b.BaseTransaction.Serialize()))+verifSum(raw), "wrong size")
	vs.Assert(got.Hash == *b.Hash() && got.TotalGeneratedCoins == s.coins+verifBaseReward(s.coins), "wrong info")
	vs.Assert(len(s.details) == 1 && len(s.details[0].transactions) == n && len(s.details[0].spentKeyImages) == n, "a transaction or a spent key image is lost")
	vs.Cover("added")
}
