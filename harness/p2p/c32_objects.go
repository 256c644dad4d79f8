package p2p

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go
//verif:use lib_conn.go
//verif:use lib_node.go

// ASSUME: up to the stated number of blocks is requested and delivered; blocks of version 1 that follow the genesis block (valid) or each other's siblings (orphans), with arbitrary nonces, or with transactions that do not parse, or bytes that are no block; different blocks have different ids

// verifBlocks makes a chain of valid blocks on top of the genesis block, a block that belongs elsewhere, and one with transactions.
func verifBlocks(n *Node) (pool []*cryptonote.Block) {
	return verifBlockChain(n, 4, func(i uint32, b *cryptonote.Block) {
		switch i {
		case 3:
			b.TransactionsHashes = crypto.HashList{{1}}
		case 4:
			b.PreviousBlockHash = crypto.Hash{9}
		}
	})
}

func verifBlockChain(n *Node, length uint32, alter func(uint32, *cryptonote.Block)) (pool []*cryptonote.Block) {
	prev := n.Blockchain.TopBlock()
	coins := prev.BaseTransaction.Outputs[0].Amount
	for i := uint32(1); i <= length; i++ {
		b := &cryptonote.Block{}
		b.MajorVersion, b.Timestamp, b.Nonce = 1, 1464595534+240*uint64(i), 77*i
		b.PreviousBlockHash = *prev.Hash()
		reward := (10000000000000000000 - coins) >> 18
		b.BaseTransaction.TransactionPrefix = cryptonote.TransactionPrefix{
			Version: 1, UnlockHeight: uint64(i) + 10,
			Inputs:  []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: i}},
			Outputs: []cryptonote.TransactionOutput{{Amount: reward, Target: prev.BaseTransaction.Outputs[0].Target}},
		}
		alter(i, b)
		pool = append(pool, b)
		coins += reward
		prev = b
	}
	return
}

//verif:harness timeout=150 timeout.thorough=800 maporder=fixed
func VerifC32Delivered() {
	n, p, c, s := verifNode(config.MainNet(), vs.Int("incoming", 0, 1) == 1)
	p.state = PeerStateSynchronizing
	pool := verifBlocks(n)
	var ids []crypto.Hash
	for _, b := range pool {
		ids = append(ids, *b.Hash())
	}
	foreign := crypto.HashFromBytes(vs.Bytes("foreign", 4))
	max := vs.Bound("blocks", 2, 3)
	var open []crypto.Hash
	for i, k := 0, vs.Int("requested", 0, max); i < k; i++ {
		j := vs.Int("request", 0, len(pool))
		if j == len(pool) {
			open = append(open, foreign)
			continue
		}
		for _, h := range open {
			if h == ids[j] {
				return
			}
		}
		open = append(open, ids[j])
	}
	p.requestedBlocks = append(crypto.HashList{}, open...)
	p.lastResponseHeight = vs.U32("last")
	nt := NotificationResponseGetObjects{CurrentBlockchainHeight: vs.U32("height")}
	p.remoteHeight = 1
	good := p.lastResponseHeight <= nt.CurrentBlockchainHeight
	var order []int
	for i, k := 0, vs.Int("delivered", 0, max); i < k; i++ {
		j := vs.Int("delivery", 0, len(pool))
		var raw RawBlock
		txs := vs.Int("transactions", 0, 1)
		for t := 0; t < txs; t++ {
			raw.Transactions = append(raw.Transactions, vs.Bytes("transaction", 2))
		}
		if j == len(pool) {
			raw.Block = append([]byte{vs.U8("version")}, vs.Bytes("junk", 3)...)
			good = false
		} else {
			raw.Block = pool[j].Serialize()
			at := -1
			for x, h := range open {
				if h == ids[j] {
					at = x
				}
			}
			if at < 0 || txs != len(pool[j].TransactionsHashes) {
				good = false
			} else {
				open = append(append([]crypto.Hash{}, open[:at]...), open[at+1:]...)
			}
			order = append(order, j)
		}
		nt.Blocks = append(nt.Blocks, raw)
	}
	good = vs.And(good, len(open) == 0 && len(nt.Blocks) > 0)
	s.asked = nil
	err := n.HandleResponseGetObjects(p, nt)
	if !good {
		vs.Assert(err != nil && p.state == PeerStateShutdown, "a wrong delivery is accepted")
		vs.Assert(len(s.asked) == 0 && n.Blockchain.Height() == 0, "a block of a wrong delivery is processed")
		vs.Assert(len(c.out) == 0, "a wrong delivery is answered")
		vs.Assert(vs.Files() == 0, "a wrong delivery is written to a file")
		vs.Cover("refused")
		return
	}
	// valid blocks in order go into the chain, up to the first that is not
	top := 0
	for top < len(order) && order[top] == top && top < 2 {
		top++
	}
	vs.Assert((err == nil) == (top == len(order)), "the wrong blocks are added")
	vs.Assert(n.Blockchain.Height() == uint32(top), "the blocks are not added to the chain")
	for i, h := range s.asked {
		vs.Assert(i < len(order) && h == ids[order[i]], "another block is processed")
	}
	for i := 0; i < top; i++ {
		vs.Assert(s.Storage.HaveBlock(&ids[i]), "a delivered block is lost")
	}
	vs.Assert(len(p.requestedBlocks) == 0, "blocks stay requested")
	vs.Assert(p.remoteHeight == nt.CurrentBlockchainHeight, "the height of the peer is not noted")
	if err != nil {
		vs.Cover("invalid")
		return
	}
	vs.Cover("added")
	// the same answer again
	s.asked, c.out = nil, nil
	vs.Assert(n.HandleResponseGetObjects(p, nt) != nil && p.state == PeerStateShutdown, "the same blocks are accepted twice")
	vs.Assert(len(s.asked) == 0 && n.Blockchain.Height() == uint32(top) && len(c.out) == 0, "the same blocks are processed twice")
}

// a long delivery, which is wrong in one place or not at all
//
//verif:harness timeout=100 timeout.thorough=800 maporder=fixed
func VerifC32Many() {
	n, p, c, s := verifNode(config.MainNet(), vs.Int("incoming", 0, 1) == 1)
	p.state = PeerStateSynchronizing
	count := vs.Bound("many blocks", 40, 128)
	pool := verifBlockChain(n, uint32(count), func(i uint32, b *cryptonote.Block) {
		if i == uint32(count) {
			b.Nonce = vs.U32("nonce")
		}
	})
	for _, b := range pool {
		p.requestedBlocks = append(p.requestedBlocks, *b.Hash())
	}
	p.remoteHeight = 1
	nt := NotificationResponseGetObjects{CurrentBlockchainHeight: vs.U32("height")}
	for _, b := range pool {
		nt.Blocks = append(nt.Blocks, RawBlock{Block: b.Serialize()})
	}
	at := vs.Int("at", 0, count-1)
	if at > 3 && at < count-4 && at%8 != 5 {
		return
	}
	good, top := true, count
	switch vs.Int("wrong", 0, 6) {
	case 1: // one is missing
		nt.Blocks = append(nt.Blocks[:at:at], nt.Blocks[at+1:]...)
		good = false
	case 2: // one comes twice
		nt.Blocks = append(nt.Blocks, nt.Blocks[at])
		good = false
	case 3: // one comes instead of another
		nt.Blocks[at] = nt.Blocks[(at+1)%count]
		good = false
	case 4: // one is altered
		b := *pool[at]
		b.Nonce++
		nt.Blocks[at] = RawBlock{Block: b.Serialize()}
		good = false
	case 5: // one has a transaction it does not name
		nt.Blocks[at].Transactions = append(nt.Blocks[at].Transactions, vs.Bytes("transaction", 1))
		good = false
	case 6: // two are the wrong way round
		if at+1 < count {
			nt.Blocks[at], nt.Blocks[at+1] = nt.Blocks[at+1], nt.Blocks[at]
			top = at
		}
	}
	err := n.HandleResponseGetObjects(p, nt)
	vs.Assert((err == nil) == (good && top == count), "the wrong deliveries are accepted")
	if !good {
		vs.Assert(p.state == PeerStateShutdown && len(c.out) == 0 && n.Blockchain.Height() == 0, "a block of a wrong delivery is processed")
		vs.Cover("refused")
		return
	}
	vs.Assert(n.Blockchain.Height() == uint32(top), "the blocks are not added to the chain")
	for i := 0; i < top; i++ {
		h, e := s.Storage.HashAtIndex(uint32(i + 1))
		vs.Assert(e == nil && h != nil && *h == *pool[i].Hash(), "the chain is made of other blocks")
	}
	if top == count {
		vs.Assert(len(p.requestedBlocks) == 0, "blocks stay requested")
	}
	vs.Cover("added")
}
