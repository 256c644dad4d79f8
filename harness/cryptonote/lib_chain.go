package cryptonote

import (
	"crypto/rand"
	"io/ioutil"
	"math/bits"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
	"github.com/sirupsen/logrus"
)

// verifHistory is a storage with an invented concrete history up to a top height; blocks are made when asked for.
type verifHistory struct {
	top      uint32
	stamp    func(i uint32) uint64
	size     func(i uint32) uint64
	coins    uint64
	pushed   []*Block
	infos    []*blockInfo
	details  []TransactionsDetails
	known    *crypto.Hash // a hash that the storage knows besides the history
	refuse   error
	asksHave int
}

func verifChainHash(i uint32) (h crypto.Hash) {
	h[0], h[1], h[28], h[29], h[30], h[31] = 0xc4, 0x3a, byte(i>>24), byte(i>>16), byte(i>>8), byte(i)
	return
}

func (s *verifHistory) block(i uint32) *Block {
	b := &Block{BlockHeader: BlockHeader{MajorVersion: verifVersion(i), Timestamp: s.stamp(i)}}
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: i}}
	if i > 0 {
		b.PreviousBlockHash = verifChainHash(i - 1)
	}
	return b
}

func (s *verifHistory) info(i uint32) *blockInfo {
	return &blockInfo{Index: i, Hash: verifChainHash(i), CumulativeDifficulty: verifWork(i), TotalGeneratedTransactions: 3 * uint64(i),
		TotalGeneratedCoins: s.coins, Timestamp: s.stamp(i), Size: s.size(i)}
}

func (s *verifHistory) Init(*Block) error         { return nil }
func (s *verifHistory) Close() error              { return nil }
func (s *verifHistory) TopIndex() (uint32, error) { return s.top + uint32(len(s.pushed)), nil }
func (s *verifHistory) TopBlock() (*Block, error) {
	if n := len(s.pushed); n > 0 {
		return s.pushed[n-1], nil
	}
	return s.block(s.top), nil
}

func (s *verifHistory) PushBlock(b *Block, i *blockInfo, d TransactionsDetails) error {
	if s.refuse != nil {
		return s.refuse
	}
	s.pushed, s.infos, s.details = append(s.pushed, b), append(s.infos, i), append(s.details, d)
	return nil
}

func (s *verifHistory) index(h *crypto.Hash) (uint32, bool) {
	i := uint32(h[28])<<24 | uint32(h[29])<<16 | uint32(h[30])<<8 | uint32(h[31])
	return i, i <= s.top && *h == verifChainHash(i)
}

func (s *verifHistory) HaveBlock(h *crypto.Hash) bool {
	for _, b := range s.pushed {
		if *b.Hash() == *h {
			return true
		}
	}
	return s.known != nil && *h == *s.known
}

func (s *verifHistory) GetBlock(h *crypto.Hash) *Block {
	if i, ok := s.index(h); ok {
		return s.block(i)
	}
	for _, b := range s.pushed {
		if *b.Hash() == *h {
			return b
		}
	}
	return nil
}

func (s *verifHistory) HashAtIndex(i uint32) (*crypto.Hash, error) {
	if i <= s.top {
		h := verifChainHash(i)
		return &h, nil
	}
	if i-s.top <= uint32(len(s.pushed)) {
		return s.pushed[i-s.top-1].Hash(), nil
	}
	return nil, nil
}

func (s *verifHistory) getBlockInfoAtIndex(i uint32) *blockInfo {
	if i <= s.top {
		return s.info(i)
	}
	if i-s.top <= uint32(len(s.infos)) {
		return s.infos[i-s.top-1]
	}
	return nil
}

func verifVersion(i uint32) byte {
	switch {
	case i > 700000:
		return 5
	case i > 266000:
		return 4
	case i > 216000:
		return 3
	case i > 60000:
		return 2
	}
	return 1
}

func verifWork(i uint32) uint64 { return 1 + uint64(i)*1000000 + uint64(i)*uint64(i)*3 }

// the histories: regular blocks, blocks with scattered times, and an attempt to drive the median far ahead
func verifStampOf(kind int, top uint32) func(uint32) uint64 {
	return func(i uint32) uint64 {
		t := 1400000000 + 240*uint64(i)
		switch kind {
		case 1:
			t += uint64(i) * 7919 % 2000
		case 2:
			if i%3 != 0 {
				t += 5000
			}
		}
		return t
	}
}

func verifNewChain(s *verifHistory) *BlockChain {
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), s, l)
	if bc.Init() != nil {
		panic("no chain")
	}
	return bc
}

func verifMedian(xs []uint64) uint64 {
	for i := range xs {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	if n := len(xs); n == 0 {
		return 0
	} else if n%2 == 1 {
		return xs[n/2]
	} else {
		return xs[n/2-1]/2 + xs[n/2]/2 + (xs[n/2-1]%2+xs[n/2]%2)/2
	}
}

// verifTail lists f over the n heights up to top, and none below low.
func verifTail(f func(uint32) uint64, n, top, low uint32) (xs []uint64) {
	i := low
	if top+1 > low+n {
		i = top + 1 - n
	}
	for ; i <= top; i++ {
		xs = append(xs, f(i))
	}
	return
}

func verifWindowOf(version byte) (times, difficulties uint32) {
	switch version {
	case 1:
		return 60, 375
	case 2:
		return 60, 17
	case 3:
		return 60, 61
	case 4:
		return 11, 61
	}
	return 11, 121
}

var verifGoodKey = verifKeyHex("dbbd38087aa091d7b8bf36d30d4059c0450ac73c9ac5dea93af77d1e6cd7fdaf")
var verifBadKey = verifKeyHex("0200000000000000000000000000000000000000000000000000000000000000")

func verifKeyHex(s string) (k crypto.PublicKey) {
	for i := range k {
		for _, c := range []byte(s[2*i : 2*i+2]) {
			if c >= 'a' {
				c -= 'a' - '9' - 1
			}
			k[i] = k[i]<<4 + (c - '0')
		}
	}
	return
}

// verifTimestamp is any time: given itself when it lies in the past, otherwise by its distance from now.
func verifTimestamp(bc *BlockChain) uint64 {
	if vs.Int("stamp", 0, 1) == 0 {
		t := vs.U64("time")
		vs.Assume(t < 1600000000)
		return t
	}
	d := vs.U64("time from now")
	vs.Assume(d < 1<<63 || d > 1<<64-1000)
	return bc.Network.Timestamp() + d
}

// verifCandidate is the valid next block with a coinbase of one output.
func verifCandidate(bc *BlockChain, s *verifHistory) *Block {
	i := s.top + 1
	b := &Block{BlockHeader: BlockHeader{MajorVersion: verifVersion(i), Timestamp: bc.Network.Timestamp(), PreviousBlockHash: verifChainHash(s.top)}}
	b.BaseTransaction.TransactionPrefix = TransactionPrefix{
		Version: 1, UnlockHeight: uint64(i) + 10,
		Inputs:  []TransactionInput{InputCoinbase{BlockIndex: i}},
		Outputs: []TransactionOutput{{Amount: verifBaseReward(s.coins), Target: OutputKey{PublicKey: verifGoodKey}}},
	}
	if b.MajorVersion == 2 || b.MajorVersion == 3 {
		verifAddParent(b)
	}
	return b
}

func verifAddParent(b *Block) {
	p := &ParentBlock{MajorVersion: 1, Timestamp: b.Timestamp, TransactionsCount: 1}
	p.BaseTransaction = BaseTransaction{TransactionPrefix: &TransactionPrefix{Version: 1, Extra: append([]byte{3, 33, 0}, make([]byte, 32)...)}}
	b.Parent = p
}

// the key of the secret scalar 1
var verifMinerKey = verifKeyHex("5866666666666666666666666666666666666666666666666666666666666666")

// verifSign signs a hash with the key of verifMinerKey. Symbolically SpecSign and SpecSigCheck take the place of
// signing and checking: exactly the signature made checks, and for exactly the hash and key it was made for.
func verifSign(h crypto.Hash) *crypto.Signature {
	old := rand.Reader
	rand.Reader = verifNoise{}
	defer func() { rand.Reader = old }()
	sig, err := h.Sign(&crypto.SecretKey{1})
	if err != nil {
		panic(err)
	}
	return sig
}

type verifNoise struct{}

func (verifNoise) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i*i + 7*i + 3)
	}
	return len(b), nil
}

var verifSigned struct {
	hash crypto.Hash
	sig  *crypto.Signature
}

func SpecSign(h crypto.Hash) *crypto.Signature {
	sig := &crypto.Signature{C: crypto.EllipticCurveScalar{1, 2, 3}, R: crypto.EllipticCurveScalar{4, 5, 6}}
	verifSigned.hash, verifSigned.sig = h, sig
	c := *sig
	return &c
}

func SpecSigCheck(sig *crypto.Signature, h *crypto.Hash, k *crypto.PublicKey) bool {
	return verifSigned.sig != nil && *sig == *verifSigned.sig && *k == verifMinerKey && *h == verifSigned.hash
}

func verifBaseReward(coins uint64) uint64 {
	const supply = 10000000000000000000
	if r := (supply - coins) >> 18; r >= 1000000000000 && coins < supply-1000000000000 {
		return r
	}
	return coins / 100 * 2 / (360 * 365)
}

// verifTx is a valid transaction that spends one output for two, as long as its height is below a checkpoint.
func verifTx(id byte, fee uint64) *Transaction {
	t := &Transaction{TransactionPrefix: TransactionPrefix{Version: 1, UnlockHeight: 0, Extra: []byte{1, id}}}
	for k := 0; k < 31; k++ {
		t.Extra = append(t.Extra, 0)
	}
	image := crypto.KeyImage{7, id}
	t.Inputs = []TransactionInput{InputKey{Amount: 1000000000000 + fee, OutputIndexes: []uint32{5, uint32(id), 1}, KeyImage: image}}
	t.Outputs = []TransactionOutput{
		{Amount: 800000000000, Target: OutputKey{PublicKey: verifGoodKey}},
		{Amount: 200000000000, Target: OutputKey{PublicKey: verifMinerKey}},
	}
	t.TransactionSignatures = TransactionSignatures{{crypto.Signature{C: crypto.EllipticCurveScalar{id}}, crypto.Signature{}, crypto.Signature{}}}
	return t
}

// verifPay is what a block of a size pays for an amount.
func verifPay(amount, median, size uint64, version byte) uint64 {
	zone := uint64(1000000)
	if version == 1 {
		zone = 100000
	}
	if median < zone {
		median = zone
	}
	if size <= median {
		return amount
	}
	hi, lo := bits.Mul64(amount, size*(2*median-size))
	for k := 0; k < 2; k++ {
		r := hi % median
		hi /= median
		lo, _ = bits.Div64(r, lo, median)
	}
	return lo
}
