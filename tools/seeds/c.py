import re
src=open('/verif/tools/seeds/b.py').read()
b={};exec(src[:src.index('SEEDS=[')],b)
T,CHAIN,VAL,NODE=b['T'],b['CHAIN'],b['VAL'],b['NODE']
HIGH=CHAIN+'''// zzHigh stores n blocks with the given spacing of their timestamps, the last one at height top.
func zzHigh(t *testing.T, bc *BlockChain, top, n uint32, stamp func(i uint32) uint64) *Block {
	var prev *Block
	for i := top - n + 1; i <= top; i++ {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: bc.Network.GetBlockMajorVersion(i), Timestamp: stamp(i)}}
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{i}}
		b.Parent = &ParentBlock{BaseTransaction: BaseTransaction{&TransactionPrefix{}, nil}}
		if prev != nil {
			b.PreviousBlockHash = *prev.Hash()
		}
		if err := bc.storage.PushBlock(b, &blockInfo{Index: i, Hash: *b.Hash(), Size: 1000 + uint64(i)}, TransactionsDetails{}); err != nil {
			t.Fatal(err)
		}
		prev = b
	}
	bc.bestTip = prev
	return prev
}

// zzNext is a block on top of it.
func zzNext(bc *BlockChain, prev *Block, ts uint64) *Block {
	i := prev.Index() + 1
	b := &Block{BlockHeader: BlockHeader{MajorVersion: bc.Network.GetBlockMajorVersion(i), Timestamp: ts, PreviousBlockHash: *prev.Hash()}}
	b.Parent = &ParentBlock{BaseTransaction: BaseTransaction{&TransactionPrefix{}, nil}}
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{i}}
	b.BaseTransaction.UnlockHeight = uint64(i) + 10
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: 5, Target: OutputKey{zzKey()}}}
	return b
}

'''
SEEDS=[
dict(id='c16-window-version',prop='C16',pkg='cryptonote',edits=[('cryptonote/chain.go','bc.Network.BlockTimestampCheckWindow(block.MajorVersion)','bc.Network.BlockTimestampCheckWindow(prevBlock.MajorVersion)')],
 needs='the first block of version 4, with a timestamp between the medians of the last 60 and the last 11 blocks',breaks='the window of the previous version decides',
 demo=HIGH+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	prev := zzHigh(t, bc, 266000, 70, func(i uint32) uint64 { return 1500000000 + 240*uint64(i-265000) })
	if _, err := bc.validateBlock(log.NewEntry(bc.logger), zzNext(bc, prev, prev.Timestamp-240*20), prev); err == nil {
		t.Fatal("accepted")
	}
	if _, err := bc.validateBlock(log.NewEntry(bc.logger), zzNext(bc, prev, prev.Timestamp+240), prev); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c17-window99',prop='C17',pkg='cryptonote',edits=[('cryptonote/chain.go','	for i := uint32(1); i <= count; i++ {\n		if tempInfo == nil {\n			break\n		}\n\n		sizes','	for i := uint32(1); i < count; i++ {\n		if tempInfo == nil {\n			break\n		}\n\n		sizes')],
 needs='a large block on a chain of 100 blocks or more whose 100th last size matters for the median',breaks='the median is taken over 99 sizes',
 demo=HIGH+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	zzHigh(t, bc, 300, 200, func(i uint32) uint64 { return 1500000000 + 240*uint64(i) })
	s := bc.lastBLockSizes(100, 300)
	if len(s) != 100 || s[0] != 1201 || s[99] != 1300 {
		t.Fatal(len(s), s)
	}
}
'''),
dict(id='c40-height-wrap',prop='C40',pkg='cryptonote',edits=[('cryptonote/chain.go','		return uint64(blockHeight)+config.LockedTxAllowedDeltaBlocks >= unlockTime','		return uint64(blockHeight+uint32(config.LockedTxAllowedDeltaBlocks)) >= unlockTime')],
 needs='the greatest block height there is',breaks='the height wraps around and everything is locked',
 demo=HIGH+'''func TestZZDemo(t *testing.T) {
	if !zzChain(t).IsTransactionSpendTimeUnlocked(5, 1<<32-1) {
		t.Fatal("locked")
	}
}
'''),
dict(id='c39-required-keys',prop='C39',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','			for _, key := range outputTarget.Keys {','			for _, key := range outputTarget.Keys[:outputTarget.RequiredSignaturesCount] {')],
 needs='a multisignature output whose bad key comes after as many good ones as it requires',breaks='keys that are not on the curve pass',
 demo=VAL+'''func TestZZDemo(t *testing.T) {
	v := zzValidator(t, 100)
	bad := crypto.PublicKey{2}
	for _, keys := range [][]crypto.PublicKey{{zzKey(), bad}, {bad, zzKey()}} {
		if _, err := v.validateOutputs(&Transaction{TransactionPrefix: TransactionPrefix{Outputs: []TransactionOutput{{5, OutputMultisignature{RequiredSignaturesCount: 1, Keys: keys}}}}}); err == nil {
			t.Fatal("accepted")
		}
	}
}
'''),
dict(id='c39-coinbase-last-key',prop='C39',pkg='cryptonote',edits=[('cryptonote/chain.go','				if !key.Check() {\n					err := ErrTransactionOutputInvalidMultisignatureKey','				if ki < 2 && !key.Check() {\n					err := ErrTransactionOutputInvalidMultisignatureKey')],
 needs='a coinbase output to three keys of which the last is bad',breaks='keys that are not on the curve pass',
 demo=HIGH+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	g := bc.bestTip
	b := zzNext(bc, g, g.Timestamp+240)
	for bad := 0; bad < 3; bad++ {
		keys := []crypto.PublicKey{zzKey(), zzKey(), zzKey()}
		b.BaseTransaction.Outputs = []TransactionOutput{{5, OutputMultisignature{RequiredSignaturesCount: 1, Keys: keys}}}
		if _, err := bc.validateBlock(log.NewEntry(bc.logger), b, g); err != nil {
			t.Fatal(err)
		}
		keys[bad] = crypto.PublicKey{2}
		if _, err := bc.validateBlock(log.NewEntry(bc.logger), b, g); err == nil {
			t.Fatal("accepted", bad)
		}
	}
}
'''),
dict(id='c23-extra-mask',prop='C23',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','	extraSize := uint64(len(transaction.Extra))','	extraSize := uint64(uint16(len(transaction.Extra)))')],
 needs='an extra of 65536 bytes or more',breaks='the size of the extra wraps around, a huge one is as cheap as a small one',
 demo=VAL+'''func TestZZDemo(t *testing.T) {
	v := zzValidator(t, 700001)
	for _, n := range []int{1000, 65536, 65636, 70000} {
		x := &Transaction{}
		x.Extra = make([]byte, n)
		if v.validateTransactionExtra(x, v.bc.Network.MinimalFee(700001), false) == nil {
			t.Fatal("cheap", n)
		}
	}
}
'''),
dict(id='c13-large',prop='C13',pkg='crypto',edits=[('crypto/hash.go','		for cnt<<1 < len(hl) {','		for cnt<<1 < len(hl) && cnt < 256 {')],
 needs='more than 512 hashes',breaks='the root of a large list is wrong or its computation crashes',
 demo=T%'crypto'+'''func zzRoot(l HashList) Hash {
	w := 1
	for w*2 <= len(l) {
		w *= 2
	}
	p := func(a, b Hash) Hash { return HashFromBytes(append(append([]byte{}, a[:]...), b[:]...)) }
	row := append(HashList{}, l[:2*w-len(l)]...)
	for i := 2*w - len(l); i < len(l); i += 2 {
		row = append(row, p(l[i], l[i+1]))
	}
	for len(row) > 1 {
		next := HashList{}
		for i := 0; i < len(row); i += 2 {
			next = append(next, p(row[i], row[i+1]))
		}
		row = next
	}
	return row[0]
}

func TestZZDemo(t *testing.T) {
	for _, n := range []int{1, 2, 3, 17, 100, 511, 512, 513, 700, 1025} {
		l := HashList{}
		for i := 0; i < n; i++ {
			l = append(l, Hash{byte(i), byte(i >> 8), 9})
		}
		if *l.MerkleRootHash() != zzRoot(l) {
			t.Fatal(n)
		}
	}
}
'''),
dict(id='c32-more-txs',prop='C32',pkg='p2p',edits=[('p2p/notification_response_get_objects.go','		if len(block.TransactionsHashes) != len(rawBlock.Transactions) {','		if len(block.TransactionsHashes) > len(rawBlock.Transactions) {')],
 needs='a delivered block with more transactions than it lists',breaks='the delivery is processed, and blocks before the wrong one are added',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	b := &cryptonote.Block{BlockHeader: cryptonote.BlockHeader{MajorVersion: 1}}
	b.BaseTransaction.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: 1}}
	p.requestedBlocks = crypto.HashList{*b.Hash()}
	var m NotificationResponseGetObjects
	m.CurrentBlockchainHeight = 10
	m.Blocks = []RawBlock{{Block: b.Serialize(), Transactions: [][]byte{{1}}}}
	if err := n.HandleResponseGetObjects(p, m); err == nil || p.state != PeerStateShutdown {
		t.Fatal(err, p.state)
	}
}
'''),
dict(id='c31-start-zero',prop='C31',pkg='p2p',edits=[('p2p/node.go','		if !hasFirstBlock {','		if !hasFirstBlock && notification.StartHeight > 0 {')],
 needs='an announcement that starts at height 0 with a block we do not have',breaks='the chain of another network is asked for',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, c := zzNode(t, false)
	m := NotificationResponseChainEntry{StartHeight: 0, TotalHeight: 3, BlocksHashes: []crypto.Hash{{1}, {2}, {3}}}
	if err := p.protocol.Notify(NotificationResponseChainEntryID, m); err != nil {
		t.Fatal(err)
	}
	c.in.Write(c.out.Bytes())
	c.out.Reset()
	cmd, err := p.protocol.read()
	if err != nil {
		t.Fatal(err)
	}
	if err := n.handleNotification(p, cmd); err == nil || c.out.Len() != 0 {
		t.Fatal("asked for", err)
	}
}
'''),
dict(id='c33-signed-version',prop='C33',pkg='p2p',edits=[('p2p/peer.go','	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {','	if int8(res.NodeData.Version) < int8(n.Config.Network.P2PMinimumVersion) {')],
 needs='a peer that answers with a version of 128 or more',breaks='newer peers are refused',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, c := zzNode(t, false)
	res := NewHandshakeResponse(n.Blockchain, nil)
	res.NodeData.Version = 200
	if err := p.protocol.Reply(CommandHandshake, res, 1); err != nil {
		t.Fatal(err)
	}
	c.in.Write(c.out.Bytes())
	if _, err := p.handshake(n); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c10-size-trunc',prop='C10',pkg='p2p',edits=[('p2p/levin.go','	if head.BodySize > uint64(LevinMaxPacketSize) {','	head.BodySize &= 1<<32 - 1\n	if head.BodySize > uint64(LevinMaxPacketSize) {')],
 needs='a packet that announces 2^32 bytes or more',breaks='an oversized packet is read as a small one',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	_, p, c := zzNode(t, false)
	h := bucketHead{Signature: LevinSignature, BodySize: 1<<32 + 2, Command: 7}
	b := h.encode()
	c.in.Write(b[:])
	c.in.Write([]byte("abcd"))
	if _, err := p.protocol.read(); err == nil {
		t.Fatal("read")
	}
}
'''),
dict(id='c35-far',prop='C35',pkg='cryptonote',edits=[('cryptonote/chain.go','	for i := uint32(1); i < height; i *= 2 {','	for i := uint32(1); i < height && i < 1<<16; i *= 2 {')],
 needs='a chain of more than 65536 blocks',breaks='the list has a gap from 32768 blocks below the top to genesis',
 demo=HIGH+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	top := uint32(300000)
	for i := uint32(1); i < top; i *= 2 {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1}}
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{top - i}}
		if err := bc.storage.PushBlock(b, &blockInfo{Index: top - i, Hash: *b.Hash()}, TransactionsDetails{}); err != nil {
			t.Fatal(err)
		}
	}
	b := &Block{BlockHeader: BlockHeader{MajorVersion: 1}}
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{top}}
	if err := bc.storage.PushBlock(b, &blockInfo{Index: top, Hash: *b.Hash()}, TransactionsDetails{}); err != nil {
		t.Fatal(err)
	}
	bc.bestTip = b
	l, err := bc.BuildSparseChain()
	if err != nil || len(l) != 21 {
		t.Fatal(len(l), err)
	}
}
'''),
dict(id='c38-deep',prop='C38',pkg='p2p',edits=[('p2p/node.go','		diff := int64(syncData.CurrentHeight) - int64(height)','		diff := int64(int32(syncData.CurrentHeight - height))')],
 needs='a peer that announces a height of 2^31 or more above ours, inside the checkpoint zone',breaks='it is taken for a peer deep behind and dropped',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	if err := n.Blockchain.Checkpoints.AddCheckpoint(1<<32-1, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	if err := n.processSyncData(p, SyncData{CurrentHeight: 3 << 30, TopBlockHash: crypto.Hash{9}}, true); err != nil {
		t.Fatal(err)
	}
}
'''),
]
SEEDS=[s for s in SEEDS if s['demo']]
