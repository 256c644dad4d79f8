T='package %s\n\nimport "testing"\n\n'
CHAIN='''package cryptonote

import (
	"io/ioutil"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

func zzChain(t *testing.T) *BlockChain {
	l := log.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), NewMemoryStorage(), l)
	if err := bc.Init(); err != nil {
		t.Fatal(err)
	}
	return bc
}

func zzKey() (k crypto.PublicKey) {
	copy(k[:], []byte{0x58, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66,
		0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66})
	return
}

// zzBlock is a block on top of the genesis block.
func zzBlock(t *testing.T, bc *BlockChain, ts uint64, nonce uint32, less uint64) *Block {
	g, err := bc.GenesisBlock()
	if err != nil {
		t.Fatal(err)
	}
	info := bc.storage.getBlockInfoAtIndex(0)
	b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Timestamp: ts, Nonce: nonce, PreviousBlockHash: *g.Hash()}}
	b.BaseTransaction.Version = 1
	b.BaseTransaction.UnlockHeight = 1 + uint64(bc.Network.MinedMoneyUnlockWindow())
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{1}}
	r, _, err := bc.Network.GetBlockReward(1, info.Size, 0, info.TotalGeneratedCoins, 0)
	if err != nil {
		t.Fatal(err)
	}
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: r - less, Target: OutputKey{zzKey()}}}
	return b
}

var _ = crypto.Hash{}

'''
VAL=CHAIN+'''func zzValidator(t *testing.T, height uint32) *blockTransactionsValidator {
	bc := zzChain(t)
	if err := bc.Checkpoints.AddCheckpoint(1<<32-1, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	return NewBlockTransactionsValidator(bc, height, bc.logger)
}

'''
NODE='''package p2p

import (
	"bytes"
	"io/ioutil"
	"net"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/sirupsen/logrus"
	"go.uber.org/zap"
)

type zzConn struct {
	net.Conn
	in  bytes.Buffer
	out bytes.Buffer
}

func (c *zzConn) Read(b []byte) (int, error)  { return c.in.Read(b) }
func (c *zzConn) Write(b []byte) (int, error) { return c.out.Write(b) }

func zzNode(t *testing.T, incoming bool) (*Node, *Peer, *zzConn) {
	l := logrus.New()
	l.Out = ioutil.Discard
	network := config.MainNet()
	bc := cryptonote.NewBlockChain(network, cryptonote.NewMemoryStorage(), l)
	if err := bc.Init(); err != nil {
		t.Fatal(err)
	}
	n := NewNode(bc, HostConfig{PeerID: 1, Network: network}, zap.NewNop())
	c := &zzConn{}
	return &n, NewPeer(n.logger, &LevinProtocol{c}, NetworkAddress{}, incoming), c
}

var _ = crypto.Hash{}

'''
SEEDS=[
dict(id='c01-lone-char',prop='C01',pkg='crypto/base58',edits=[('crypto/base58/base58.go','	if lastBlockSize > 0 {\n		res, err','	if lastBlockSize > 1 || lastBlockSize > 0 && fullBlockCount < 2 {\n		res, err')],
 needs='a text with one character after its full blocks',breaks='the character is ignored, so a value has many texts',
 demo=T%'base58'+'''func TestZZDemo(t *testing.T) {
	if b, err := Decode("1111111111111111111111z"); err == nil {
		t.Fatal(b)
	}
}
'''),
dict(id='c02-trailing',prop='C02',pkg='cryptonote',edits=[('cryptonote/address.go','	if len(data) != 64 {','	if len(data) < 64 {')],
 needs='an address text with a correct checksum that carries more than the two keys',breaks='bytes after the keys are dropped, the address has many texts',
 demo=T%'cryptonote'+'''import "encoding/hex"

func TestZZDemo(t *testing.T) {
	k, _ := hex.DecodeString("5866666666666666666666666666666666666666666666666666666666666666")
	d := append(append([]byte{}, k...), k...)
	var a Address
	if err := a.FromString(addressEncode(111, d)); err != nil {
		t.Fatal(err)
	}
	if err := a.FromString(addressEncode(111, append(d, 7))); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='c03-index-high',prop='C03',pkg='cryptonote',edits=[('cryptonote/transaction.go','uint32(oi))','uint32(oi)&(1<<31-1))')],
 needs='a ring member offset of 2^31 or more',breaks='the offset loses its top bit when parsed',
 demo=T%'cryptonote'+'''import "bytes"

func TestZZDemo(t *testing.T) {
	tx := Transaction{TransactionPrefix: TransactionPrefix{Version: 1, Inputs: []TransactionInput{InputKey{Amount: 1, OutputIndexes: []uint32{5, 1<<31 + 9}}}}}
	tx.TransactionSignatures = TransactionSignatures{nil}
	tx.TransactionSignatures[0] = append(tx.TransactionSignatures[0], make([]zzSig, 2)...)
	var u Transaction
	if err := u.Deserialize(bytes.NewReader(tx.Serialize())); err != nil {
		t.Fatal(err)
	}
	if got := u.Inputs[0].(InputKey).OutputIndexes[1]; got != 1<<31+9 {
		t.Fatal(got)
	}
}
'''.replace('zzSig','crypto.Signature').replace('import "bytes"','import (\n\t"bytes"\n\n\t"github.com/r3volut1oner/go-karbo/crypto"\n)')),
dict(id='c04-minor',prop='C04',pkg='cryptonote',edits=[('cryptonote/block.go','	h.MinorVersion = uint8(minorVersion)','	h.MinorVersion = uint8(minorVersion & 0x7f)')],
 needs='a block with a minor version of 128 or more',breaks='the minor version is changed by parsing, and the id with it',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	b := zzBlock(t, zzChain(t), 5, 6, 0)
	b.MinorVersion = 200
	var c Block
	if err := c.Deserialize(zzReader(b.Serialize())); err != nil {
		t.Fatal(err)
	}
	if c.MinorVersion != 200 {
		t.Fatal(c.MinorVersion)
	}
}
'''.replace('zzReader','bytes.NewReader')),
dict(id='c06-no-extra',prop='C06',pkg='cryptonote',edits=[('cryptonote/block_parent.go','	if tef.MiningTag == nil {','	if tef.MiningTag == nil && len(baseTx.Extra) > 0 {')],
 needs='a merge mined block whose parent coinbase has an empty extra',breaks='parsing the block crashes the node',
 demo=T%'cryptonote'+'''import "bytes"

func TestZZDemo(t *testing.T) {
	raw := append([]byte{2, 0}, make([]byte, 32)...)  // header
	raw = append(raw, 1, 0, 0)                         // parent header
	raw = append(raw, make([]byte, 32+4)...)           // previous, nonce
	raw = append(raw, 1)                               // transactions
	raw = append(raw, 1, 0, 1, 0xff, 1, 0, 0, 9, 9, 9) // coinbase with one input, no outputs, no extra
	var b Block
	if err := b.Deserialize(bytes.NewReader(raw)); err == nil {
		t.Fatal("parsed")
	}
}
'''),
dict(id='c08-word-limit',prop='C08',pkg='encoding/binary',edits=[('encoding/binary/encode.go','	} else if i <= 16383 {','	} else if i <= 16384 {')],
 needs='a text, list or blob of exactly 16384 bytes or items',breaks='its size is written as zero',
 demo=T%'binary'+'''import "bytes"

func TestZZDemo(t *testing.T) {
	for _, n := range []uint64{0, 63, 64, 16383, 16384, 16385, 1073741823, 1073741824, 1<<62 - 1} {
		var b bytes.Buffer
		if err := NewEncoder(&b).writeVarInt(n); err != nil {
			t.Fatal(err)
		}
		if v, err := NewDecoder(&b).readVarInt(); err != nil || v != n {
			t.Fatal(n, v, err)
		}
	}
}
'''),
dict(id='c10-split-body',prop='C10',pkg='p2p',edits=[('p2p/levin.go','	if _, err := io.ReadFull(p.Conn, payload); err != nil {','	if n, err := p.Conn.Read(payload); err != nil && n < len(payload) {')],
 needs='a payload that arrives in more than one piece',breaks='the rest of the payload is replaced by zeros and read as the next header',
 demo='''package p2p

import (
	"bytes"
	"net"
	"testing"
	"testing/iotest"
)

type zzConn struct {
	net.Conn
	b bytes.Buffer
}

func (c *zzConn) Read(b []byte) (int, error)  { return iotest.HalfReader(&c.b).Read(b) }
func (c *zzConn) Write(b []byte) (int, error) { return c.b.Write(b) }

func TestZZDemo(t *testing.T) {
	p := &LevinProtocol{&zzConn{}}
	if _, err := p.write(1001, []byte("0123456789"), true, LevinPacketRequest, 0); err != nil {
		t.Fatal(err)
	}
	m, err := p.read()
	if err != nil || string(m.Payload) != "0123456789" {
		t.Fatal(err, m)
	}
}
'''),
dict(id='c12-parent',prop='C12',pkg='cryptonote',edits=[('cryptonote/block.go','		if b.MajorVersion == config.BlockMajorVersion2 || b.MajorVersion == config.BlockMajorVersion3 {\n			allBytesBuffer','		if b.MajorVersion == config.BlockMajorVersion2 || b.MajorVersion == config.BlockMajorVersion3 && b.Parent.TransactionsCount > 0 {\n			allBytesBuffer')],
 needs='a version 3 block whose parent block announces no transactions',breaks='the id does not commit to the timestamp and nonce, which such a block keeps in its parent',
 demo=T%'cryptonote'+'''func TestZZDemo(t *testing.T) {
	mk := func(nonce uint32) *Block {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 3, Nonce: nonce}, Parent: &ParentBlock{Nonce: nonce}}
		b.Parent.BaseTransaction = BaseTransaction{&TransactionPrefix{}, nil}
		return b
	}
	if *mk(1).Hash() == *mk(2).Hash() {
		t.Fatal("same id")
	}
}
'''),
dict(id='c14-top',prop='C14',pkg='cryptonote',edits=[('cryptonote/storage_memory.go','index > s.topBlock.Index() {','index != s.topBlock.Index() {')],
 needs='a block stored after one of a greater height',breaks='the top goes back to the lower block',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	for _, i := range []uint32{1, 5, 3} {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1}}
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{i}}
		if err := bc.storage.PushBlock(b, &blockInfo{Index: i, Hash: *b.Hash()}, TransactionsDetails{}); err != nil {
			t.Fatal(err)
		}
	}
	if b, _ := bc.storage.TopBlock(); b.Index() != 5 {
		t.Fatal(b.Index())
	}
}
'''),
dict(id='c15-tip-first',prop='C15',pkg='cryptonote',edits=[('cryptonote/chain.go','	if err := bc.storage.PushBlock(block, &info, transactionsDetails); err != nil {\n		return err\n	}\n\n	bc.bestTip = block\n','	bc.bestTip = block\n\n	if err := bc.storage.PushBlock(block, &info, transactionsDetails); err != nil {\n		return err\n	}\n')],
 needs='a valid block that the storage refuses, for example a competitor of the top block',breaks='the refused block becomes the tip',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	ts := bc.Network.GenesisTimestamp + 240
	one := zzBlock(t, bc, ts, 1, 0)
	if err := bc.AddBlock(one, nil); err != nil {
		t.Fatal(err)
	}
	if err := bc.AddBlock(zzBlock(t, bc, ts, 2, 0), nil); err == nil {
		t.Fatal("a second block at height 1")
	}
	if *bc.TopBlock().Hash() != *one.Hash() {
		t.Fatal("the refused block is the tip")
	}
}
'''),
dict(id='c16-future-sign',prop='C16',pkg='cryptonote',edits=[('cryptonote/chain.go','	if block.Timestamp > bc.Network.Timestamp()+bc.Network.BlockFutureTimeLimit(block.MajorVersion) {','	if int64(block.Timestamp) > int64(bc.Network.Timestamp()+bc.Network.BlockFutureTimeLimit(block.MajorVersion)) {')],
 needs='a timestamp of 2^63 or more',breaks='blocks from the far future are accepted',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	if err := bc.AddBlock(zzBlock(t, bc, 1<<63+5, 1, 0), nil); err == nil {
		t.Fatal("accepted")
	}
	if err := bc.AddBlock(zzBlock(t, bc, bc.Network.GenesisTimestamp+240, 1, 0), nil); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c17-less-reward',prop='C17',pkg='cryptonote',edits=[('cryptonote/chain.go','	if expectedReward != minerReward {','	if expectedReward < minerReward {')],
 needs='a coinbase that pays less than the reward',breaks='the block is accepted, and the coins are counted as generated',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	ts := bc.Network.GenesisTimestamp + 240
	if err := bc.AddBlock(zzBlock(t, bc, ts, 1, 1), nil); err == nil {
		t.Fatal("accepted")
	}
	if err := bc.AddBlock(zzBlock(t, bc, ts, 1, 0), nil); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c20-v5-window',prop='C20',pkg='config',edits=[('config/network.go','height < UpgradeHeightV5+count {','height < UpgradeHeightV5+count-1 {')],
 needs='the next difficulty exactly one block before the first version 5 window is full',breaks='a block from before the upgrade takes part in the average',
 demo=T%'config'+'''func TestZZDemo(t *testing.T) {
	n := MainNet()
	count := uint32(n.DifficultyBlocksCountByBlockVersion(5) - 1)
	mk := func(first uint64) []uint64 {
		l := make([]uint64, count+1)
		for i := range l {
			l[i] = 1000000000000 + 240*1000000*uint64(i)
		}
		l[0] = first
		return l
	}
	ts := func(first uint64) []uint64 {
		l := make([]uint64, count+1)
		for i := range l {
			l[i] = 1600000000 + 240*uint64(i)
		}
		l[0] = first
		return l
	}
	h := uint32(UpgradeHeightV5) + count - 1
	a, err := n.NextDifficulty(h, 5, ts(1600000000), mk(1000000000000))
	if err != nil {
		t.Fatal(err)
	}
	b, err := n.NextDifficulty(h, 5, ts(1500000000), mk(1000000))
	if err != nil || a != b {
		t.Fatal(a, b, err)
	}
}
'''),
dict(id='c21-first-two',prop='C21',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','		if math.MaxUint64-output.Amount < sumOfOutputs {','		if i > 1 && math.MaxUint64-output.Amount < sumOfOutputs {')],
 needs='the first two outputs alone sum to more than 2^64',breaks='the sum of the outputs wraps, coins are created',
 demo=VAL+'''func TestZZDemo(t *testing.T) {
	v := zzValidator(t, 100)
	k := OutputKey{zzKey()}
	s, err := v.validateOutputs(&Transaction{TransactionPrefix: TransactionPrefix{Outputs: []TransactionOutput{{1 << 63, k}, {1<<63 + 5, k}}}})
	if err == nil {
		t.Fatal(s)
	}
}
'''),
dict(id='c22-second-input',prop='C22',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','			validator.spentKeyImages[input.KeyImage] = true','			if validator.spentKeyImages[input.KeyImage] = true; len(transaction.Inputs) > 2 && i+1 == len(transaction.Inputs) {\n				delete(validator.spentKeyImages, input.KeyImage)\n			}')],
 needs='two transactions of one block spend the same output, and it is the last of three or more inputs of the first one',breaks='the output is spent twice',
 demo=VAL+'''func TestZZDemo(t *testing.T) {
	v := zzValidator(t, 100)
	tx := func(ks ...byte) *Transaction {
		x := &Transaction{}
		for _, k := range ks {
			x.Inputs = append(x.Inputs, InputKey{Amount: 1, OutputIndexes: []uint32{1}, KeyImage: crypto.KeyImage{k}})
		}
		return x
	}
	if _, err := v.validateInputs(tx(1, 2, 3)); err != nil {
		t.Fatal(err)
	}
	if _, err := v.validateInputs(tx(3)); err == nil {
		t.Fatal("spent twice")
	}
}
'''),
dict(id='c23-ratio',prop='C23',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','	if len(inputsAmounts) < len(outputsAmounts)*minRatio {','	if len(inputsAmounts) < (len(outputsAmounts)-1)*minRatio+1 {')],
 needs='a fusion with inputs between 4*(n-1)+1 and 4*n-1 for n outputs, n at least 4',breaks='it counts as a fusion and pays no fee',
 demo=VAL+'''func TestZZDemo(t *testing.T) {
	v := zzValidator(t, 300000)
	x := &Transaction{}
	for i := 0; i < 13; i++ {
		a := uint64(85)
		if i == 0 {
			a = 91
		}
		x.Inputs = append(x.Inputs, InputKey{Amount: a, OutputIndexes: []uint32{1}, KeyImage: crypto.KeyImage{byte(i)}})
		x.TransactionSignatures = append(x.TransactionSignatures, []crypto.Signature{{}})
	}
	for _, a := range []uint64{1, 10, 100, 1000} {
		x.Outputs = append(x.Outputs, TransactionOutput{a, OutputKey{zzKey()}})
	}
	if v.IsFusionTransaction(x) {
		t.Fatal("13 inputs for 4 outputs")
	}
}
'''),
dict(id='c30-ring-scalar',prop='C30',pkg='crypto',edits=[('crypto/signature.go','		if !ed.ScCheck(sig.C) || !ed.ScCheck(sig.R) {\n			return false\n		}\n\n		if !tmp3.FromBytes((*[32]byte)(pub)) {','		if !ed.ScCheck(sig.C) {\n			return false\n		}\n\n		if !tmp3.FromBytes((*[32]byte)(pub)) {')],
 needs='a ring signature whose response is not reduced',breaks='ring signatures are malleable: the group order can be added to a response',
 demo=T%'crypto'+'''import ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"

func TestZZDemo(t *testing.T) {
	sec := SecretKey(RandomScalar())
	pub, err := PublicFromSecret(&sec)
	if err != nil {
		t.Fatal(err)
	}
	image, err := GenerateKeyImage(pub, &sec)
	if err != nil {
		t.Fatal(err)
	}
	h := Hash{7}
	pubs := []PublicKey{*pub}
	sigs, err := GenerateRingSignature(&h, image, &pubs, &sec, 0)
	if err != nil {
		t.Fatal(err)
	}
	if !CheckRingSignature(&h, image, &pubs, &sigs, true) {
		t.Fatal("refused")
	}
	l := [32]byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 31: 0x10}
	c := 0
	for i := range l {
		c += int(l[i]) + int(sigs[0].R[i])
		sigs[0].R[i] = byte(c)
		c >>= 8
	}
	if ed.ScCheck(sigs[0].R) {
		t.Fatal("reduced")
	}
	if CheckRingSignature(&h, image, &pubs, &sigs, true) {
		t.Fatal("malleable")
	}
}
'''),
dict(id='c31-batch',prop='C31',pkg='p2p',edits=[('p2p/peer.go','len(requestBlocks) < MaxBlockSynchronization {','len(requestBlocks) <= MaxBlockSynchronization {')],
 needs='more than 128 missing blocks',breaks='129 blocks are requested at once, more than the protocol allows',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	for i := 0; i < 200; i++ {
		p.neededBlocks = append(p.neededBlocks, crypto.Hash{byte(i), 1})
	}
	if err := p.requestMissingBlocks(n, false); err != nil {
		t.Fatal(err)
	}
	if len(p.requestedBlocks) != 128 || len(p.neededBlocks) != 72 {
		t.Fatal(len(p.requestedBlocks), len(p.neededBlocks))
	}
}
'''),
dict(id='c32-twice',prop='C32',pkg='p2p',edits=[('p2p/notification_response_get_objects.go','		p.requestedBlocks.Remove(hash)\n',''),
  ('p2p/notification_response_get_objects.go','	if len(p.requestedBlocks) > 0 {\n		p.Shutdown()','	missing := len(p.requestedBlocks) - len(nt.Blocks)\n	if missing <= 0 {\n		p.requestedBlocks = nil\n	}\n	if missing > 0 {\n		p.Shutdown()')],
 needs='a delivery that repeats one requested block in place of another',breaks='the delivery counts as complete although a block is missing',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	mk := func(nonce uint32) *cryptonote.Block {
		b := &cryptonote.Block{BlockHeader: cryptonote.BlockHeader{MajorVersion: 1, Nonce: nonce}}
		b.BaseTransaction.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: 1}}
		return b
	}
	p.requestedBlocks = crypto.HashList{*mk(1).Hash(), *mk(2).Hash()}
	var m NotificationResponseGetObjects
	m.CurrentBlockchainHeight = 10
	m.Blocks = []RawBlock{{Block: mk(1).Serialize()}, {Block: mk(1).Serialize()}}
	if err := n.HandleResponseGetObjects(p, m); err == nil {
		t.Fatal("accepted")
	}
	if p.state != PeerStateShutdown {
		t.Fatal("the peer is kept")
	}
}
'''),
dict(id='c33-half-id',prop='C33',pkg='p2p',edits=[('p2p/command_handshake.go','	if req.NodeData.NetworkID != n.Config.Network.NetworkID {','	if string(req.NodeData.NetworkID[:8]) != string(n.Config.Network.NetworkID[:8]) {')],
 needs='an incoming handshake of a network whose id shares the first half',breaks='a peer of another network is admitted',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, true)
	req := NewHandshakeRequest(n.Blockchain)
	req.NodeData.NetworkID[12] ^= 1
	if err := n.HandleHandshake(p, req); err == nil {
		t.Fatal("admitted")
	}
}
'''),
dict(id='c34-same-pointer',prop='C34',pkg='p2p',edits=[('p2p/peerstore.go','	_ = ps.white.Remove(p)\n','	if ps.white.Get(p.ID) == p {\n		_ = ps.white.Remove(p)\n	}\n')],
 needs='a peer that reconnects: a second object with the id of a white peer is moved to grey',breaks='the id is on both lists',
 demo=T%'p2p'+'''func TestZZDemo(t *testing.T) {
	ps := NewPeerStore()
	if err := ps.toWhite(&Peer{ID: 5}); err != nil {
		t.Fatal(err)
	}
	_ = ps.toGrey(&Peer{ID: 5})
	if ps.white.Has(5) && ps.grey.Has(5) {
		t.Fatal("on both lists")
	}
}
'''),
dict(id='c35-power',prop='C35',pkg='cryptonote',edits=[('cryptonote/chain.go','	for i := uint32(1); i < height; i *= 2 {','	for i := uint32(1); i+1 < height; i *= 2 {')],
 needs='a height that is one above a power of two',breaks='the last step before genesis is left out',
 demo=CHAIN+'''func TestZZDemo(t *testing.T) {
	bc := zzChain(t)
	for i := uint32(1); i <= 5; i++ {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1}}
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{i}}
		if err := bc.storage.PushBlock(b, &blockInfo{Index: i, Hash: *b.Hash()}, TransactionsDetails{}); err != nil {
			t.Fatal(err)
		}
		bc.bestTip = b
	}
	l, err := bc.BuildSparseChain()
	if err != nil || len(l) != 5 { // 5 4 3 1 0
		t.Fatal(len(l), err)
	}
}
'''),
dict(id='c37-short-nonce',prop='C37',pkg='cryptonote',edits=[('cryptonote/transaction_extra.go','				if err := binary.Read(r, binary.LittleEndian, nb); err != nil {','				if _, err := r.Read(nb); err != nil {')],
 needs='an extra that ends in the middle of its nonce',breaks='the nonce is filled up with zeros instead of refused',
 demo=T%'cryptonote'+'''func TestZZDemo(t *testing.T) {
	if f, err := TxExtraFromBytes([]byte{2, 5, 1, 2}); err == nil {
		t.Fatal(f.Nonce)
	}
}
'''),
dict(id='c38-ahead',prop='C38',pkg='p2p',edits=[('p2p/node.go','		if diff < 0 && uint32(','		if diff != 0 && uint32(')],
 needs='a checkpoint zone above our chain and a peer far ahead of us within it',breaks='the peers we could synchronise from are dropped',
 demo=NODE+'''func TestZZDemo(t *testing.T) {
	n, p, _ := zzNode(t, false)
	if err := n.Blockchain.Checkpoints.AddCheckpoint(1000, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	if err := n.processSyncData(p, SyncData{CurrentHeight: 900, TopBlockHash: crypto.Hash{9}}, true); err != nil {
		t.Fatal(err)
	}
	if p.state != PeerStateSyncRequired {
		t.Fatal(p.state)
	}
}
'''),
dict(id='c40-offsets',prop='C40',pkg='cryptonote',edits=[('cryptonote/transaction_validator.go','globalIndexes[i] = globalIndexes[i-1] + input','globalIndexes[i] = globalIndexes[0] + input')],
 needs='a ring of three or more members',breaks='the ring is looked up by offsets from the first member instead of from the previous one',
 demo=None),
]
for s in SEEDS:
    if s['demo'] and 'bytes.NewReader' in s['demo'] and s['demo'].startswith(CHAIN[:40]) and '"bytes"' not in s['demo']:
        s['demo']=s['demo'].replace('import (\n','import (\n\t"bytes"\n',1)
SEEDS=[s for s in SEEDS if s['demo']]
