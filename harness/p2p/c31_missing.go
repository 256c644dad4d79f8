package p2p

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go
//verif:use lib_conn.go
//verif:use lib_node.go

// ASSUME: the announced ids differ, are announced while nothing else is asked for, and their heights fit 32 bits; known are a prefix of any length, and among later ids any of the first two and last two of each batch

func verifID(i int) crypto.Hash { return crypto.Hash{0xaa, byte(i), byte(i >> 8), 0x55} }

func verifIndex(h *crypto.Hash) int {
	i := int(h[1]) | int(h[2])<<8
	if *h != verifID(i) {
		return -1
	}
	return i
}

//verif:harness timeout=150 timeout.thorough=800 maporder=fixed
func VerifC31Announced() {
	n, p, c, s := verifNode(config.MainNet(), vs.Int("incoming", 0, 1) == 1)
	p.state = PeerStateSynchronizing
	counts := []int{0, 1, 3, 129, 260, 2, 127, 128, 130, 255, 256, 257, 385}
	count := counts[vs.Int("count", 0, vs.Bound("counts", 5, len(counts))-1)]
	prefixes := []int{0, 1, 2, count - 1, count, 128}
	prefix := prefixes[vs.Int("prefix", 0, len(prefixes)-1)]
	if prefix < 0 || prefix > count {
		return
	}
	late := map[int]bool{} // ids that become known later
	s.know = func(h *crypto.Hash) bool {
		i := verifIndex(h)
		return i >= 0 && i < prefix || late[i]
	}
	var ids []crypto.Hash
	for i := 0; i < count; i++ {
		ids = append(ids, verifID(i))
	}
	start, total := vs.U32("start"), vs.U32("total")
	vs.Assume(total > 0)
	last := uint64(start) + uint64(count) - 1
	vs.Assume(count == 0 || last < 1<<32)
	w := &verifWire{b: []byte{1, 0x11, 1, 1, 1, 1, 2, 1, 1}}
	w.size(3)
	w.u32("start_height", start)
	w.u32("total_height", total)
	w.hashes("m_block_ids", ids)
	err := n.handleNotification(p, &LevinCommand{Command: NotificationResponseChainEntryID, IsNotify: true, Payload: w.b})
	if count == 0 || prefix == 0 || last > uint64(total) {
		vs.Assert(err != nil && p.state == PeerStateShutdown, "a wrong announcement is accepted")
		vs.Assert(len(c.out) == 0, "a wrong announcement is answered")
		vs.Cover("refused")
		return
	}
	vs.Assert(err == nil, "a good announcement is refused")
	var wanted []crypto.Hash
	wanted = append(wanted, ids[prefix:]...)
	for round := 0; ; round++ {
		sent := verifSent(c)
		c.out = nil
		if len(wanted) == 0 {
			verifDone(n, p, sent, last, total)
			break
		}
		k := len(wanted)
		if k > 128 {
			k = 128
		}
		vs.Assert(len(sent) == 1 && sent[0].Command == NotificationRequestGetObjectsID && sent[0].IsNotify, "missing blocks are not asked for")
		var req NotificationRequestGetObjects
		vs.Assert(verifDecode(sent[0].Payload, &req) == nil && len(req.Transactions) == 0, "the request is no request for blocks")
		vs.Assert(vs.Same(req.Blocks, wanted[:k]), "other blocks than the next missing ones are asked for")
		vs.Assert(len(p.requestedBlocks) == k, "the blocks asked for are not noted")
		for i := range req.Blocks {
			vs.Assert(p.requestedBlocks.Has(&req.Blocks[i]), "the blocks asked for are not noted")
			late[verifIndex(&req.Blocks[i])] = true
		}
		wanted = wanted[k:]
		// they arrive, and others from elsewhere
		p.requestedBlocks = nil
		var rest []crypto.Hash
		for i := range wanted {
			if i < 2 || i >= len(wanted)-2 || i == 127 || i == 128 {
				if vs.Int("known", 0, 1) == 1 {
					late[verifIndex(&wanted[i])] = true
					continue
				}
			}
			rest = append(rest, wanted[i])
		}
		wanted = rest
		vs.Assert(p.requestMissingBlocks(n, true) == nil, "the next blocks are not asked for")
		vs.Cover("batch")
	}
}

// verifDone: nothing is missing; either more is to be announced, or the node is in step with the peer.
func verifDone(n *Node, p *Peer, sent []*LevinCommand, last uint64, total uint32) {
	if last+1 < uint64(total) {
		vs.Assert(len(sent) == 1 && sent[0].Command == NotificationRequestChainID && sent[0].IsNotify, "the rest of the chain is not asked for")
		var req NotificationRequestChain
		vs.Assert(verifDecode(sent[0].Payload, &req) == nil, "the request is no request for a chain")
		vs.Assert(vs.Same(req.Blocks, []crypto.Hash{*n.Blockchain.TopBlock().Hash()}), "another chain is told")
		vs.Assert(p.state == PeerStateSynchronizing, "the synchronisation ends early")
		vs.Cover("more")
		return
	}
	vs.Assert(len(sent) == 0, "something is asked for at the end")
	vs.Assert(p.state == PeerStateNormal, "the synchronisation does not end")
	vs.Cover("end")
}
