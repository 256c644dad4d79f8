package p2p

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/encoding/binary"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// verifWire writes the portable storage format, independently of the code under test.
type verifWire struct{ b []byte }

// where the sizes of the last message are
var verifSizes []int

const (
	verifU64  = 5
	verifU32  = 6
	verifU8   = 8
	verifBlob = 10
	verifBool = 11
	verifObj  = 12
)

func (w *verifWire) le(v uint64, n uint) {
	for i := uint(0); i < n; i++ {
		w.b = append(w.b, byte(v>>(8*i)))
	}
}

func (w *verifWire) size(n int) {
	verifSizes = append(verifSizes, len(w.b))
	switch {
	case n < 64:
		w.le(uint64(n)<<2, 1)
	case n < 1<<14:
		w.le(uint64(n)<<2|1, 2)
	default:
		w.le(uint64(n)<<2|2, 4)
	}
}

func (w *verifWire) name(s string, kind byte) {
	w.b = append(w.b, byte(len(s)))
	w.b = append(w.b, s...)
	w.b = append(w.b, kind)
}

func (w *verifWire) u32(s string, v uint32) { w.name(s, verifU32); w.le(uint64(v), 4) }
func (w *verifWire) u64(s string, v uint64) { w.name(s, verifU64); w.le(v, 8) }
func (w *verifWire) blob(s string, b []byte) {
	w.name(s, verifBlob)
	w.size(len(b))
	w.b = append(w.b, b...)
}
func (w *verifWire) object(s string, fields int) { w.name(s, verifObj); w.size(fields) }

func (w *verifWire) hashes(s string, hs []crypto.Hash) {
	var b []byte
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	w.blob(s, b)
}

func (w *verifWire) node(d BasicNodeData) {
	w.object("node_data", 5)
	w.blob("network_id", d.NetworkID[:])
	w.name("version", verifU8)
	w.b = append(w.b, d.Version)
	w.u64("peer_id", d.PeerID)
	w.u64("local_time", d.LocalTime)
	w.u32("my_port", d.MyPort)
}

func (w *verifWire) sync(d SyncData) {
	w.object("payload_data", 2)
	w.u32("current_height", d.CurrentHeight)
	w.blob("top_id", d.TopBlockHash[:])
}

func (w *verifWire) peers(ps []PeerEntry) {
	e := verifWire{}
	for _, p := range ps {
		e.le(uint64(p.Address.IP), 4)
		e.le(uint64(p.Address.Port), 4)
		e.le(p.ID, 8)
		e.le(p.LastSeen, 8)
	}
	w.blob("local_peerlist", e.b)
}

func (w *verifWire) raw(b RawBlock) {
	if b.Transactions == nil {
		w.size(1)
	} else {
		w.size(2)
	}
	w.blob("block", b.Block)
	if b.Transactions != nil {
		w.name("txs", 0x80|verifBlob)
		w.size(len(b.Transactions))
		for _, t := range b.Transactions {
			w.size(len(t))
			w.b = append(w.b, t...)
		}
	}
}

// verifShape says how long the lists and strings of a message are.
type verifShape struct {
	list, text int
	plain      bool // fixed contents
}

func (s *verifShape) some(name string, n int) []byte {
	if !s.plain {
		return vs.Bytes(name, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(3*i + 1)
	}
	return b
}

func (s *verifShape) u8(name string) uint8 {
	if s.plain {
		return 4
	}
	return vs.U8(name)
}

func (s *verifShape) u32(name string) uint32 {
	if s.plain {
		return 1000
	}
	return vs.U32(name)
}

func (s *verifShape) u64(name string) uint64 {
	if s.plain {
		return 1 << 33
	}
	return vs.U64(name)
}

func (s *verifShape) hash() (h crypto.Hash) {
	copy(h[:], s.some("hash", 32))
	return
}

func (s *verifShape) hashes() (hs []crypto.Hash) {
	for i := 0; i < s.list; i++ {
		hs = append(hs, s.hash())
	}
	return
}

// bytes are arbitrary, but only at the ends of long texts.
func (s *verifShape) bytes() []byte {
	if s.text <= 70 {
		return s.some("text", s.text)
	}
	b := make([]byte, s.text)
	copy(b, s.some("text", 8))
	copy(b[s.text-8:], s.some("text", 8))
	return b
}

func (s *verifShape) node() (d BasicNodeData) {
	copy(d.NetworkID[:], s.some("network", 16))
	d.Version, d.PeerID, d.LocalTime, d.MyPort = s.u8("version"), s.u64("peer"), s.u64("time"), s.u32("port")
	return
}

func (s *verifShape) sync() SyncData { return SyncData{s.u32("height"), s.hash()} }

func (s *verifShape) peers() (ps []PeerEntry) {
	for i := 0; i < s.list; i++ {
		ps = append(ps, PeerEntry{NetworkAddress{s.u32("ip"), s.u32("port")}, s.u64("id"), s.u64("seen")})
	}
	return
}

func (s *verifShape) raw() (b RawBlock) {
	b.Block = s.bytes()
	for i := 0; i < s.list; i++ {
		b.Transactions = append(b.Transactions, s.bytes())
	}
	return
}

const verifKinds = 14

// verifMessage makes a message of a kind with arbitrary contents: the value, a place to decode it to, and its encoding.
func verifMessage(kind int, s *verifShape) (interface{}, interface{}, []byte) {
	w := &verifWire{b: []byte{1, 0x11, 1, 1, 1, 1, 2, 1, 1}}
	verifSizes = nil
	switch kind {
	case 0:
		m := HandshakeRequest{s.node(), s.sync()}
		w.size(2)
		w.node(m.NodeData)
		w.sync(m.PayloadData)
		return m, &HandshakeRequest{}, w.b
	case 1:
		m := HandshakeResponse{s.node(), s.sync(), s.peers()}
		w.size(3)
		w.node(m.NodeData)
		w.sync(m.PayloadData)
		w.peers(m.Peers)
		return m, &HandshakeResponse{}, w.b
	case 2:
		m := TimedSyncRequest{s.sync()}
		w.size(1)
		w.sync(m.PayloadData)
		return m, &TimedSyncRequest{}, w.b
	case 3:
		m := TimedSyncResponse{s.u64("time"), s.sync(), s.peers()}
		w.size(3)
		w.u64("local_time", m.LocalTime)
		w.sync(m.PayloadData)
		w.peers(m.Peers)
		return m, &TimedSyncResponse{}, w.b
	case 4:
		w.size(0)
		return PingRequest{}, &PingRequest{}, w.b
	case 5:
		m := PingResponse{string(s.bytes()), s.u64("peer")}
		w.size(2)
		w.blob("status", []byte(m.Status))
		w.u64("peer_id", m.PeerID)
		return m, &PingResponse{}, w.b
	case 6:
		m := NotificationNewBlock{s.raw(), s.u32("height"), s.u32("hop")}
		w.size(3)
		w.name("b", verifObj)
		w.raw(m.Block)
		w.u32("current_blockchain_height", m.CurrentBlockchainHeight)
		w.u32("hop", m.Hop)
		return m, &NotificationNewBlock{}, w.b
	case 7:
		m := NotificationNewTransactions{s.u8("stem")&1 == 1, s.hashes()}
		w.size(2)
		w.name("stem", verifBool)
		if m.Stem {
			w.b = append(w.b, 1)
		} else {
			w.b = append(w.b, 0)
		}
		w.hashes("txs", m.Transactions)
		return m, &NotificationNewTransactions{}, w.b
	case 8:
		m := NotificationRequestGetObjects{s.hashes(), s.hashes()}
		w.size(2)
		w.hashes("txs", m.Transactions)
		w.hashes("blocks", m.Blocks)
		return m, &NotificationRequestGetObjects{}, w.b
	case 9:
		m := NotificationTxPool{s.hashes()}
		w.size(1)
		w.hashes("txs", m.Transactions)
		return m, &NotificationTxPool{}, w.b
	case 10:
		m := NotificationNewLiteBlock{s.u32("height"), s.u32("hop"), s.bytes()}
		w.size(3)
		w.u32("current_blockchain_height", m.CurrentBlockchainHeight)
		w.u32("hop", m.Hop)
		w.blob("block", m.Block)
		return m, &NotificationNewLiteBlock{}, w.b
	case 11:
		m := NotificationResponseChainEntry{s.u32("start"), s.u32("total"), s.hashes()}
		w.size(3)
		w.u32("start_height", m.StartHeight)
		w.u32("total_height", m.TotalHeight)
		w.hashes("m_block_ids", m.BlocksHashes)
		return m, &NotificationResponseChainEntry{}, w.b
	case 12:
		m := NotificationRequestChain{s.hashes()}
		w.size(1)
		w.hashes("block_ids", m.Blocks)
		return m, &NotificationRequestChain{}, w.b
	}
	m := NotificationResponseGetObjects{CurrentBlockchainHeight: s.u32("height"), MissedIds: s.hashes()}
	fields := 2
	if len(m.MissedIds) > 0 {
		fields++
	}
	w.size(fields)
	w.name("blocks", 0x80|verifObj)
	w.size(s.list)
	for i := 0; i < s.list; i++ {
		m.Blocks = append(m.Blocks, s.raw())
		w.raw(m.Blocks[i])
	}
	w.u32("current_blockchain_height", m.CurrentBlockchainHeight)
	if len(m.MissedIds) > 0 {
		w.hashes("missed_ids", m.MissedIds)
	}
	return m, &NotificationResponseGetObjects{}, w.b
}

func verifDecode(b []byte, to interface{}) error { return binary.Unmarshal(b, to) }
