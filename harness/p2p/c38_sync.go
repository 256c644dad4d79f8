package p2p

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go
//verif:use lib_conn.go
//verif:use lib_node.go

// ASSUME: the height of the node is below 2^31; one checkpoint at any height; at most one peer is known

// verifTall is a node whose top block has an arbitrary height.
func verifTall(incoming bool) (*Node, *Peer, *verifConn, *verifStore, uint32) {
	network := verifPlain()
	height := vs.U32("height")
	vs.Assume(height < 1<<31)
	top := &cryptonote.Block{}
	top.BlockHeader.MajorVersion = 1
	top.BaseTransaction = cryptonote.Transaction{TransactionPrefix: cryptonote.TransactionPrefix{Version: 1, Inputs: []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: height}}}}
	n, p, c, s := verifNodeOn(network, &verifStore{Storage: cryptonote.NewMemoryStorage(), top: top}, incoming)
	return n, p, c, s, height
}

func verifPlain() *config.Network { return config.MainNet() }

func verifGenesis(n *Node) crypto.Hash {
	b, err := n.Blockchain.GenesisBlock()
	if err != nil {
		panic("no genesis")
	}
	return *b.Hash()
}

// the state of a connection after the peer told its top block
func verifDecided(n *Node, before byte, initial, known bool, height, told, checkpoint uint32) (state byte, refused, open bool) {
	if before == PeerStateBeforeHandshake && !initial {
		return before, false, false
	}
	if before == PeerStateSynchronizing {
		return before, false, false
	}
	if known {
		if initial {
			return PeerStatePoolSyncRequired, false, false
		}
		return PeerStateNormal, false, false
	}
	behind := int64(height) - int64(told)
	window := int64(n.Blockchain.Network.MinedMoneyUnlockWindow())
	// whether a height counts from zero or from one is not decided here
	open = vs.And(behind >= window, behind <= window+1, told <= checkpoint)
	if vs.And(behind > window, told <= checkpoint) {
		return PeerStateShutdown, true, open
	}
	return PeerStateSyncRequired, false, open
}

//verif:harness timeout=100 timeout.thorough=300 maporder=fixed
func VerifC38TimedSync() {
	n, p, c, s, height := verifTall(vs.Int("incoming", 0, 1) == 1)
	checkpoint := vs.U32("checkpoint")
	vs.Assume(checkpoint > 0)
	if n.Blockchain.Checkpoints.AddCheckpoint(checkpoint, crypto.Hash{1}) != nil {
		panic("no checkpoint")
	}
	if vs.Int("peers", 0, 1) == 1 {
		q := &Peer{ID: vs.U64("id"), address: NetworkAddress{vs.U32("ip"), vs.U32("port")}}
		vs.Assume(q.ID != 0)
		if n.ps.toGrey(q) != nil {
			panic("no peer")
		}
	}
	before := byte(vs.Int("state", int(PeerStateBeforeHandshake), int(PeerStatePoolSyncRequired)))
	p.state = before
	p.remoteHeight = vs.U32("remote")
	remote := p.remoteHeight
	m, _, payload := verifMessage(2, &verifShape{})
	req := m.(TimedSyncRequest)
	known := vs.Bool("known")
	s.know = func(h *crypto.Hash) bool { return vs.And(known, *h == req.PayloadData.TopBlockHash) }
	vs.Assume(req.PayloadData.TopBlockHash != verifGenesis(n))
	err := n.handleCommand(p, &LevinCommand{Command: CommandTimedSync, Payload: payload})
	told := req.PayloadData.CurrentHeight
	state, refused, open := verifDecided(n, before, false, known, height, told, checkpoint)
	if open {
		return
	}
	vs.Assert(p.state == state, "the connection is taken to another state")
	vs.Assert((err != nil) == refused, "the wrong peers are refused")
	if err != nil {
		vs.Assert(err == ErrSyncDataTooDeepBehind, "the peer is refused for another reason")
		vs.Assert(len(c.out) == 0, "a refused peer is answered")
		vs.Cover("refused")
		return
	}
	if before == PeerStateBeforeHandshake {
		vs.Assert(p.remoteHeight == remote, "the height of a peer before the handshake is noted")
		vs.Cover("early")
	} else {
		vs.Assert(p.remoteHeight == told, "the height of the peer is not noted")
		vs.Cover("noted")
	}
	sent := verifSent(c)
	vs.Assert(len(sent) == 1 && sent[0].Command == CommandTimedSync && sent[0].IsResponse, "the request is not answered")
	var rsp TimedSyncResponse
	vs.Assert(verifDecode(sent[0].Payload, &rsp) == nil, "the answer is no response to the request")
	vs.Assert(vs.And(rsp.PayloadData.CurrentHeight == height+1, rsp.PayloadData.TopBlockHash == *n.Blockchain.TopBlock().Hash()), "the node presents its chain wrongly")
	entries := n.ps.toPeerEntries()
	vs.Assert(len(rsp.Peers) == len(entries), "the wrong number of peers is told")
	for i := range entries {
		vs.Assert(vs.And(rsp.Peers[i].ID == entries[i].ID, rsp.Peers[i].Address == entries[i].Address), "another peer is told")
	}
}

//verif:harness timeout=100 timeout.thorough=300 maporder=fixed
func VerifC38Initial() {
	n, p, c, s, height := verifTall(true)
	checkpoint := vs.U32("checkpoint")
	vs.Assume(checkpoint > 0)
	if n.Blockchain.Checkpoints.AddCheckpoint(checkpoint, crypto.Hash{1}) != nil {
		panic("no checkpoint")
	}
	m, _, payload := verifMessage(0, &verifShape{})
	req := m.(HandshakeRequest)
	n.Config.Network.NetworkID, n.Config.Network.P2PMinimumVersion = req.NodeData.NetworkID, 0
	known := vs.Bool("known")
	s.know = func(h *crypto.Hash) bool { return vs.And(known, *h == req.PayloadData.TopBlockHash) }
	vs.Assume(req.PayloadData.TopBlockHash != verifGenesis(n))
	told := req.PayloadData.CurrentHeight
	err := n.handleCommand(p, &LevinCommand{Command: CommandHandshake, Payload: payload})
	state, refused, open := verifDecided(n, PeerStateBeforeHandshake, true, known, height, told, checkpoint)
	if open {
		return
	}
	vs.Assert(p.state == state, "the connection is taken to another state")
	vs.Assert((err != nil) == refused, "the wrong peers are refused")
	if err != nil {
		vs.Assert(len(c.out) == 0, "a refused peer is answered")
		vs.Cover("refused")
		return
	}
	vs.Assert(p.remoteHeight == told, "the height of the peer is not noted")
	vs.Cover("noted")
}

//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC38RequestChain() {
	n, p, c, _ := verifNode(verifPlain(), vs.Int("incoming", 0, 1) == 1)
	p.state = PeerStateNormal
	m, _, payload := verifMessage(12, &verifShape{list: vs.Int("list", 0, vs.Bound("list", 3, 8))})
	nt := m.(NotificationRequestChain)
	if len(nt.Blocks) > 0 && vs.Int("ours", 0, 1) == 1 {
		last := &nt.Blocks[len(nt.Blocks)-1]
		*last = verifGenesis(n)
		copy(payload[len(payload)-32:], last[:])
	}
	accept := len(nt.Blocks) > 0 && nt.Blocks[len(nt.Blocks)-1] == verifGenesis(n)
	err := n.handleNotification(p, &LevinCommand{Command: NotificationRequestChainID, IsNotify: true, Payload: payload})
	vs.Assert((err == nil) == accept, "the wrong chains are accepted")
	vs.Assert((p.state == PeerStateShutdown) == !accept, "the wrong connections are shut down")
	vs.Assert(len(c.out) == 0 || accept, "a refused peer is answered")
	if accept {
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}

// what a node asks another one with, that one accepts
//
//verif:harness timeout=60 maporder=fixed
func VerifC38Asking() {
	n, p, c, _ := verifNode(verifPlain(), vs.Int("incoming", 0, 1) == 1)
	vs.Assert(n.NotifyRequestChain(p) == nil, "the chain is not told")
	sent := verifSent(c)
	vs.Assert(len(sent) == 1 && sent[0].Command == NotificationRequestChainID && sent[0].IsNotify && !sent[0].IsResponse, "the chain is not told in one notification")
	list, err := n.Blockchain.BuildSparseChain()
	var nt NotificationRequestChain
	vs.Assert(err == nil && verifDecode(sent[0].Payload, &nt) == nil && vs.Same(nt.Blocks, list), "another chain is told")
	n2, p2, c2, _ := verifNode(verifPlain(), true)
	p2.state = PeerStateNormal
	vs.Assert(n2.handleNotification(p2, sent[0]) == nil && p2.state == PeerStateNormal && len(c2.out) == 0, "the chain of a node is refused")
	vs.Cover("asked")
}
