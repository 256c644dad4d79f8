package cryptonote

import (
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
	"github.com/sirupsen/logrus"
)

//verif:use lib_chain.go

// ASSUME: the chain is at most 500000000 blocks high (the highest block number of the network)
// ASSUME: block hashes of different heights differ

// verifTall is a storage of blocks up to any height; each block has the hash of its height.
type verifTall struct {
	verifHistory
	any   uint32
	block *Block
	asked []uint32
	salt  byte
}

// the salt keeps the hashes unknown
func (s *verifTall) hash(i uint32) crypto.Hash {
	return crypto.HashFromBytes([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24), s.salt})
}

func (s *verifTall) TopIndex() (uint32, error) { return s.any, nil }
func (s *verifTall) TopBlock() (*Block, error) { return s.block, nil }
func (s *verifTall) HashAtIndex(i uint32) (*crypto.Hash, error) {
	s.asked = append(s.asked, i)
	h := s.hash(i)
	if i == s.any {
		h = *s.block.Hash()
	}
	return &h, nil
}

//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC35Tall() {
	s := &verifTall{any: vs.U32("top"), salt: vs.U8("salt")}
	vs.Assume(s.any <= 500000000)
	s.block = &Block{BlockHeader: BlockHeader{MajorVersion: 1}}
	s.block.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: s.any}}
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), s, l)
	if bc.Init() != nil {
		panic("no chain")
	}
	list, err := bc.BuildSparseChain()
	vs.Assert(err == nil, "no sparse chain")
	vs.Assert(len(list) > 0 && list[0] == *s.block.Hash(), "the top block is not first")
	for _, i := range s.asked {
		vs.Assert(i <= s.any, "a block above the top is looked up")
	}
	k := 1
	for d := uint32(1); d < s.any; d *= 2 {
		vs.Assert(k < len(list), "a distance is missing")
		vs.Assert(list[k] == s.hash(s.any-d), "a block is not at its distance from the top")
		k++
	}
	if s.any > 0 {
		vs.Assert(k < len(list) && list[k] == s.hash(0), "genesis is not last")
		k++
		vs.Cover("tall")
	} else {
		vs.Cover("genesis only")
	}
	vs.Assert(len(list) == k, "the list is too long")
}

// The real storage from the real genesis.
//
//verif:harness timeout=100 timeout.thorough=800 maporder=fixed
func VerifC35Grown() {
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := NewBlockChain(config.MainNet(), NewMemoryStorage(), l)
	vs.Assert(bc.Init() == nil, "no genesis")
	chain := []*Block{bc.TopBlock()}
	coins := chain[0].BaseTransaction.Outputs[0].Amount
	n := vs.Int("blocks", 0, vs.Bound("blocks", 10, 20))
	for i := uint32(1); i <= uint32(n); i++ {
		b := &Block{BlockHeader: BlockHeader{MajorVersion: 1, Timestamp: 1500000000 + uint64(i), PreviousBlockHash: *chain[i-1].Hash(), Nonce: vs.U32("nonce")}}
		reward := verifBaseReward(coins)
		coins += reward
		b.BaseTransaction.TransactionPrefix = TransactionPrefix{
			Version: 1, UnlockHeight: uint64(i) + 10,
			Inputs:  []TransactionInput{InputCoinbase{BlockIndex: i}},
			Outputs: []TransactionOutput{{Amount: reward, Target: OutputKey{PublicKey: verifGoodKey}}},
		}
		vs.Assert(bc.AddBlock(b, nil) == nil, "a block is refused")
		chain = append(chain, b)
	}
	list, err := bc.BuildSparseChain()
	vs.Assert(err == nil, "no sparse chain")
	want := []crypto.Hash{*chain[n].Hash()}
	for d := 1; d < n; d *= 2 {
		want = append(want, *chain[n-d].Hash())
	}
	if n > 0 {
		want = append(want, *chain[0].Hash())
	}
	vs.Assert(vs.Same(list, want), "the sparse chain is not the one of the blocks added")
	vs.Cover("grown")
}
