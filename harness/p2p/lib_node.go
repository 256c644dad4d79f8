package p2p

import (
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/sirupsen/logrus"
	"go.uber.org/zap"
)

// verifStore knows the blocks of the chain and those of a list, and notes what is asked for.
type verifStore struct {
	cryptonote.Storage
	know  func(h *crypto.Hash) bool
	asked []crypto.Hash
	top   *cryptonote.Block
}

// TopBlock is that of a longer chain, when there is one.
func (s *verifStore) TopBlock() (*cryptonote.Block, error) {
	if s.top != nil {
		return s.top, nil
	}
	return s.Storage.TopBlock()
}

func (s *verifStore) HaveBlock(h *crypto.Hash) bool {
	s.asked = append(s.asked, *h)
	return s.know != nil && s.know(h) || s.Storage.HaveBlock(h)
}

// verifNode is a node with a chain of the genesis block, and a peer on the other side of a connection.
func verifNode(network *config.Network, incoming bool) (*Node, *Peer, *verifConn, *verifStore) {
	return verifNodeOn(network, &verifStore{Storage: cryptonote.NewMemoryStorage()}, incoming)
}

func verifNodeOn(network *config.Network, s *verifStore, incoming bool) (*Node, *Peer, *verifConn, *verifStore) {
	l := logrus.New()
	l.Out = ioutil.Discard
	bc := cryptonote.NewBlockChain(network, s, l)
	if bc.Init() != nil {
		panic("no chain")
	}
	n := NewNode(bc, HostConfig{PeerID: 1, Network: network}, zap.NewNop())
	c := &verifConn{}
	return &n, NewPeer(n.logger, &LevinProtocol{c}, NetworkAddress{}, incoming), c, s
}

// verifSent splits what was written to a connection into packets.
func verifSent(c *verifConn) (list []*LevinCommand) {
	p := &LevinProtocol{&verifConn{in: c.out}}
	for {
		m, err := p.read()
		if err != nil {
			return
		}
		list = append(list, m)
	}
}
