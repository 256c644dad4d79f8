src=open('/verif/tools/seeds/c.py').read()
c={};exec(src[:src.index('\nSEEDS=[')],c)
T,CHAIN,VAL,NODE,HIGH=c['T'],c['CHAIN'],c['VAL'],c['NODE'],c['HIGH']
SEEDS=[
dict(id='c34-list-cap',prop='C34',pkg='p2p',edits=[('p2p/peerstore.go','	for _, p := range ps.grey.peers {\n','	for _, p := range ps.grey.peers {\n		if len(peers) == 48 {\n			return peers\n		}\n'),('p2p/peerstore.go','	var peers []PeerEntry\n','	peers := make([]PeerEntry, 0, 48)\n')],
 needs='more than 48 peers',breaks='peers that are stored are not listed',
 demo=T%'p2p'+'''func TestZZDemo(t *testing.T) {
	ps := NewPeerStore()
	for i := uint64(1); i <= 60; i++ {
		if err := ps.toGrey(&Peer{ID: i}); err != nil {
			t.Fatal(err)
		}
	}
	if l := ps.toPeerEntries(); len(l) != 60 {
		t.Fatal(len(l))
	}
}
'''),
dict(id='c15-tx-count',prop='C15',pkg='cryptonote',edits=[('cryptonote/chain.go','prevBlockInfo.TotalGeneratedTransactions + uint64(len(block.TransactionsHashes)),','prevBlockInfo.TotalGeneratedTransactions + uint64(byte(len(block.TransactionsHashes))),')],
 needs='a block with more than 255 transactions',breaks='the count of transactions is wrong from there on',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	if err := bc.Checkpoints.AddCheckpoint(100, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	g := bc.TopBlock()
	b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Timestamp: g.Timestamp + 240, PreviousBlockHash: *g.Hash()}}
	b.BaseTransaction.Version = 1
	b.BaseTransaction.UnlockHeight = 11
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{1}}
	var raw [][]byte
	for k := 0; k < 260; k++ {
		tx := &Transaction{TransactionPrefix: TransactionPrefix{Version: 1}}
		tx.Inputs = []TransactionInput{InputKey{Amount: 1200000000000, OutputIndexes: []uint32{1}, KeyImage: crypto.KeyImage{7, byte(k), byte(k >> 8)}}}
		tx.Outputs = []TransactionOutput{{Amount: 1000000000000, Target: OutputKey{zzKey()}}}
		tx.TransactionSignatures = TransactionSignatures{{crypto.Signature{}}}
		raw = append(raw, tx.Serialize())
		b.TransactionsHashes = append(b.TransactionsHashes, crypto.HashFromBytes(tx.Serialize()))
	}
	coins := g.BaseTransaction.Outputs[0].Amount
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: (10000000000000000000-coins)>>18 + 260*200000000000, Target: OutputKey{zzKey()}}}
	if err := bc.AddBlock(b, raw); err != nil {
		t.Fatal(err)
	}
	if n := bc.storage.getBlockInfoAtIndex(1).TotalGeneratedTransactions; n != 260 {
		t.Fatal(n)
	}
}
'''),
dict(id='c32-tolerance',prop='C32',pkg='p2p',edits=[('p2p/notification_response_get_objects.go','	if len(p.requestedBlocks) > 0 {','	if len(p.requestedBlocks) > len(nt.Blocks)/16 {')],
 needs='an answer of at least 16 blocks that lacks one of those asked for',breaks='an incomplete answer is accepted',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	prev := n.Blockchain.TopBlock()
	coins := prev.BaseTransaction.Outputs[0].Amount
	nt := NotificationResponseGetObjects{CurrentBlockchainHeight: 50}
	for i := uint32(1); i <= 20; i++ {
		b := &cryptonote.Block{}
		b.MajorVersion, b.Timestamp = 1, prev.Timestamp+240
		b.PreviousBlockHash = *prev.Hash()
		reward := (10000000000000000000 - coins) >> 18
		b.BaseTransaction.TransactionPrefix = cryptonote.TransactionPrefix{
			Version: 1, UnlockHeight: uint64(i) + 10,
			Inputs:  []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: i}},
			Outputs: []cryptonote.TransactionOutput{{Amount: reward, Target: prev.BaseTransaction.Outputs[0].Target}},
		}
		p.requestedBlocks = append(p.requestedBlocks, *b.Hash())
		if i < 20 {
			nt.Blocks = append(nt.Blocks, RawBlock{Block: b.Serialize()})
		}
		coins += reward
		prev = b
	}
	if err := n.HandleResponseGetObjects(p, nt); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='c40-near-ring',prop='C40',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','			if len(outputKeys) != len(sigs) {','			if n := len(outputKeys); n != len(sigs) && n < 16 {')],
 needs='a ring of 16 outputs or more with a signature too many',breaks='surplus signatures are passed on',demo=None),
]
SEEDS=[s for s in SEEDS if s['demo']]
