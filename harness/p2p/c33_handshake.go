package p2p

import (
	"github.com/r3volut1oner/go-karbo/config"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go
//verif:use lib_conn.go
//verif:use lib_node.go

// ASSUME: the node has a chain of the genesis block only; versions, network ids and all other contents of the handshake are arbitrary

func verifNetwork() *config.Network {
	network := config.MainNet()
	copy(network.NetworkID[:], vs.Bytes("own", 16))
	network.P2PMinimumVersion, network.P2PCurrentVersion = vs.U8("minimum"), vs.U8("current")
	return network
}

func verifFits(network *config.Network, d BasicNodeData) bool {
	return vs.And(d.NetworkID == network.NetworkID, d.Version >= network.P2PMinimumVersion)
}

//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC33Incoming() {
	network := verifNetwork()
	n, p, c, _ := verifNode(network, true)
	m, _, payload := verifMessage(0, &verifShape{})
	req := m.(HandshakeRequest)
	if vs.Int("known", 0, 1) == 1 {
		req.PayloadData.TopBlockHash = *n.Blockchain.TopBlock().Hash()
		copy(payload[len(payload)-32:], req.PayloadData.TopBlockHash[:])
	}
	fits := verifFits(network, req.NodeData)
	err := n.handleCommand(p, &LevinCommand{Command: CommandHandshake, Payload: payload})
	vs.Assert((err == nil) == fits, "the wrong peers are admitted")
	vs.Assert((p.state == PeerStateShutdown) == !fits, "the wrong connections are shut down")
	sent := verifSent(c)
	if err != nil {
		vs.Assert(len(c.out) == 0, "a refused peer is answered")
		vs.Assert(p.ID == 0, "a refused peer has an id")
		vs.Cover("refused")
		return
	}
	vs.Cover("admitted")
	vs.Assert(p.ID == req.NodeData.PeerID && p.version == req.NodeData.Version, "the peer is taken for another one")
	vs.Assert(p.state != PeerStateBeforeHandshake, "the handshake is not noted")
	vs.Assert(p.remoteHeight == req.PayloadData.CurrentHeight, "the height of the peer is not noted")
	vs.Assert(len(sent) == 1 && sent[0].Command == CommandHandshake && sent[0].IsResponse, "the handshake is not answered")
	var rsp HandshakeResponse
	vs.Assert(verifDecode(sent[0].Payload, &rsp) == nil, "the answer is no response to a handshake")
	vs.Assert(rsp.NodeData.NetworkID == network.NetworkID && rsp.NodeData.Version == network.P2PCurrentVersion, "the node presents itself wrongly")
	vs.Assert(rsp.PayloadData.CurrentHeight == 1 && rsp.PayloadData.TopBlockHash == *n.Blockchain.TopBlock().Hash(), "the node presents its chain wrongly")
	// one handshake for a connection
	if req.NodeData.PeerID != 0 {
		c.out = nil
		vs.Assert(n.handleCommand(p, &LevinCommand{Command: CommandHandshake, Payload: payload}) != nil, "a second handshake is accepted")
		vs.Assert(p.state == PeerStateShutdown && len(c.out) == 0, "a second handshake is answered")
		vs.Cover("twice")
	}
}

//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC33Outgoing() {
	network := verifNetwork()
	n, p, c, _ := verifNode(network, false)
	m, _, payload := verifMessage(1, &verifShape{list: vs.Int("list", 0, vs.Bound("list", 1, 3))})
	rsp := m.(HandshakeResponse)
	k := verifPacket{verifSignature, uint64(len(payload)), vs.U8("have"), CommandHandshake, 1, 2, 1, payload}
	c.in = k.bytes()
	got, err := p.handshake(n)
	vs.Assert((err == nil) == verifFits(network, rsp.NodeData), "the wrong peers are admitted")
	sent := verifSent(c)
	vs.Assert(len(sent) == 1 && sent[0].Command == CommandHandshake && !sent[0].IsResponse && !sent[0].IsNotify, "no handshake is asked for")
	var req HandshakeRequest
	vs.Assert(verifDecode(sent[0].Payload, &req) == nil, "the request is no handshake")
	vs.Assert(req.NodeData.NetworkID == network.NetworkID && req.NodeData.Version == network.P2PCurrentVersion, "the node presents itself wrongly")
	vs.Assert(req.PayloadData.CurrentHeight == 1 && req.PayloadData.TopBlockHash == *n.Blockchain.TopBlock().Hash(), "the node presents its chain wrongly")
	if err != nil {
		vs.Assert(got == nil && p.ID == 0 && p.state == PeerStateBeforeHandshake, "a refused peer is admitted")
		vs.Cover("refused")
		return
	}
	vs.Assert(vs.Same(*got, rsp), "another response")
	vs.Assert(p.ID == rsp.NodeData.PeerID && p.version == rsp.NodeData.Version, "the peer is taken for another one")
	vs.Assert(p.state != PeerStateBeforeHandshake && p.remoteHeight == rsp.PayloadData.CurrentHeight, "the handshake is not noted")
	vs.Cover("admitted")
}

// a handshake is nothing a connection made by this node answers
//
//verif:harness timeout=60
func VerifC33Direction() {
	network := verifNetwork()
	n, p, c, _ := verifNode(network, false)
	_, _, payload := verifMessage(0, &verifShape{})
	vs.Assert(n.handleCommand(p, &LevinCommand{Command: CommandHandshake, Payload: payload}) != nil, "a handshake on an outgoing connection is accepted")
	vs.Assert(len(c.out) == 0 && p.state == PeerStateShutdown && p.ID == 0, "a handshake on an outgoing connection is answered")
	vs.Cover("refused")
}
