package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

type verifStored struct {
	block *Block
	info  *blockInfo
}

func verifStoreBlock(index uint32) *Block {
	b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Nonce: vs.U32("nonce"), Timestamp: 1500000000}}
	b.BaseTransaction.TransactionPrefix = TransactionPrefix{Version: 1, Inputs: []TransactionInput{InputCoinbase{BlockIndex: index}}}
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: 7, Target: OutputKey{}}}
	return b
}

// verifStorageIs compares everything the storage tells with what it should hold.
func verifStorageIs(s Storage, held []verifStored, all []*Block, indexes []uint32) {
	var top *Block
	for _, x := range held {
		if top == nil || x.info.Index > top.Index() {
			top = x.block
		}
	}
	b, err := s.TopBlock()
	vs.Assert(err == nil && b == top, "wrong top block")
	i, err := s.TopIndex()
	if top == nil {
		vs.Assert(err != nil, "an empty storage has a top index")
	} else {
		vs.Assert(err == nil, "no top index")
		vs.Assert(i == top.Index(), "wrong top index")
	}
	for _, b := range all {
		var want *Block
		for _, x := range held {
			if *x.block.Hash() == *b.Hash() {
				want = x.block
			}
		}
		vs.Assert(s.HaveBlock(b.Hash()) == (want != nil), "HaveBlock does not tell what is stored")
		vs.Assert(s.GetBlock(b.Hash()) == want, "a hash does not lead to the block stored under it")
	}
	for _, i := range indexes {
		var want *verifStored
		for k := range held {
			if held[k].info.Index == i {
				want = &held[k]
			}
		}
		h, err := s.HashAtIndex(i)
		info := s.getBlockInfoAtIndex(i)
		if want == nil {
			vs.Assert(h == nil && info == nil, "something is found at an index where nothing is stored")
		} else {
			vs.Assert(err == nil && h != nil && info != nil, "nothing is found at an index where a block is stored")
			vs.Assert(*h == *want.block.Hash(), "wrong hash at an index")
			vs.Assert(info == want.info || *info == *want.info, "wrong info at an index")
		}
	}
}

// a few pushes with any index
//
//verif:harness timeout=60 timeout.thorough=300
func VerifC14Indexes() {
	verifPushes(2, true, func() uint32 { return vs.U32("index") })
}

// more pushes with few indexes
//
//verif:harness timeout=60 timeout.thorough=800
func VerifC14Pushes() {
	verifPushes(vs.Int("pushes", 1, vs.Bound("pushes", 3, 4)), false, func() uint32 { return []uint32{0, 1, 1<<32 - 1}[vs.Int("index", 0, 2)] })
}

func verifPushes(n int, wide bool, index func() uint32) {
	s := NewMemoryStorage()
	var held []verifStored
	var all []*Block
	indexes := []uint32{0, 1, 2, 1<<32 - 1, vs.U32("index asked")}
	verifStorageIs(s, held, all, indexes)
	for k := 0; k < n; k++ {
		var b *Block
		if k > 0 && vs.Int("again", 0, 1) == 1 {
			b = all[vs.Int("which", 0, k-1)]
		} else {
			b = verifStoreBlock(index())
		}
		all = append(all, b)
		indexes = append(indexes, b.Index())
		info := &blockInfo{Index: b.Index(), Hash: *b.Hash(), CumulativeDifficulty: vs.U64("difficulty"), TotalGeneratedCoins: vs.U64("coins"), Size: vs.U64("size"), Timestamp: b.Timestamp}
		ok := true
		switch vs.Int("info", 0, 2) {
		case 1:
			info.Index ^= 1
			if wide {
				info.Index ^= vs.U32("index delta")
			}
			ok = info.Index == b.Index()
		case 2:
			info.Hash[31] ^= 1
			if wide {
				info.Hash[31] ^= vs.U8("delta")
			}
			ok = info.Hash == *b.Hash()
		}
		for _, x := range held {
			ok = vs.And(ok, x.info.Index != b.Index(), *x.block.Hash() != *b.Hash())
		}
		err := s.PushBlock(b, info, TransactionsDetails{spentKeyImages: []crypto.KeyImage{{1}}})
		vs.Assert((err == nil) == ok, "a block is stored exactly if its info belongs to it and neither it nor its index is stored yet")
		if ok {
			held = append(held, verifStored{b, info})
			vs.Cover("stored")
		} else {
			vs.Cover("refused")
		}
	}
	verifStorageIs(s, held, all, indexes)
	vs.Cover("history")
}

//verif:harness timeout=60 timeout.thorough=300
func VerifC14Init() {
	s := NewMemoryStorage()
	g := verifStoreBlock(0)
	g.BaseTransaction.Outputs[0].Amount = vs.U64("amount")
	vs.Assert(s.Init(g) == nil, "a new storage does not take the genesis block")
	info := s.getBlockInfoAtIndex(0)
	vs.Assert(info != nil, "no genesis info")
	vs.Assert(vs.And(info.Index == 0, info.Hash == *g.Hash(), info.CumulativeDifficulty == 1,
		info.TotalGeneratedCoins == g.BaseTransaction.Outputs[0].Amount, info.Size == uint64(len(g.BaseTransaction.Serialize())), info.TotalGeneratedTransactions == 0), "wrong genesis info")
	verifStorageIs(s, []verifStored{{g, info}}, []*Block{g, verifStoreBlock(vs.U32("other"))}, []uint32{0, 1, vs.U32("index")})
	vs.Cover("genesis")
}

// ASSUME: among the many blocks, different blocks have different ids

// many blocks in one storage, one of them at any index
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC14Many() {
	n := uint32(vs.Bound("many", 40, 300))
	s := NewMemoryStorage()
	held := map[uint32]*Block{}
	var top *Block
	put := func(b *Block) {
		info := &blockInfo{Index: b.Index(), Hash: *b.Hash(), CumulativeDifficulty: uint64(b.Index()) * 3, Timestamp: b.Timestamp}
		vs.Assert(s.PushBlock(b, info, TransactionsDetails{}) == nil, "a block is not stored")
		if top == nil || b.Index() > top.Index() {
			top = b
		}
		t, err := s.TopBlock()
		vs.Assert(err == nil && t == top, "wrong top block")
	}
	order := vs.Int("order", 0, 2)
	for k := uint32(0); k < n; k++ {
		i := k
		switch order {
		case 1:
			i = n - 1 - k
		case 2:
			i = k * 7 % n
		}
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Nonce: i, Timestamp: 1500000000}}
		b.BaseTransaction.TransactionPrefix = TransactionPrefix{Version: 1, Inputs: []TransactionInput{InputCoinbase{BlockIndex: i}}}
		if _, ok := held[i]; ok {
			continue
		}
		held[i] = b
		put(b)
	}
	more := verifStoreBlock(vs.U32("index"))
	vs.Assume(more.Index() >= n)
	for _, b := range held {
		vs.Assume(*b.Hash() != *more.Hash())
	}
	put(more)
	vs.Assert(s.PushBlock(more, &blockInfo{Index: more.Index(), Hash: *more.Hash()}, TransactionsDetails{}) != nil, "a block is stored twice")
	i, err := s.TopIndex()
	vs.Assert(err == nil && i == top.Index(), "wrong top index")
	for i := uint32(0); i < n; i++ {
		b := held[i]
		h, err := s.HashAtIndex(i)
		vs.Assert(err == nil && h != nil && *h == *b.Hash(), "wrong hash at an index")
		info := s.getBlockInfoAtIndex(i)
		vs.Assert(info != nil && info.Index == i && info.Hash == *h && info.CumulativeDifficulty == uint64(i)*3, "wrong info at an index")
		vs.Assert(s.HaveBlock(h) && s.GetBlock(h) == b, "a hash does not lead to the block stored under it")
		err = s.PushBlock(b, info, TransactionsDetails{})
		vs.Assert(err != nil, "a block is stored twice")
	}
	h, err := s.HashAtIndex(more.Index())
	vs.Assert(err == nil && h != nil && *h == *more.Hash() && s.GetBlock(h) == more, "a hash does not lead to the block stored under it")
	vs.Cover("many")
}
