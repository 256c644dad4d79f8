package p2p

import (
	"github.com/r3volut1oner/go-karbo/encoding/binary"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go

// ASSUME: lists and texts have the stated lengths; texts of more than 70 bytes are arbitrary in their first and last eight bytes only; the legacy field "txs" of objects responses is empty

//verif:harness timeout=120 timeout.thorough=800 steps=60000000
func VerifC08Wire() {
	s := &verifShape{list: vs.Int("list", 0, vs.Bound("list", 3, 5))}
	kind := vs.Int("kind", 0, verifKinds-1)
	switch kind {
	case 5, 6, 10, 13:
		texts := []int{0, 1, 62, 63, 64, 65, 16383, 16384, 20000}
		s.text = texts[vs.Int("text", 0, vs.Bound("texts", len(texts)-1, len(texts)-1))]
	}
	verifWireCheck(kind, s)
}

// Lists around the lengths where the size field grows.
//
//verif:harness timeout=120 timeout.thorough=800 steps=60000000
func VerifC08Long() {
	kinds := []int{1, 3, 8, 12, 11, 7, 9, 13}
	kind := kinds[vs.Int("kind", 0, vs.Bound("kinds", 7, len(kinds)-1))]
	s := &verifShape{list: []int{15, 16, 63, 64, 512, 682, 683}[vs.Int("list", 0, vs.Bound("lists", 6, 6))]}
	verifWireCheck(kind, s)
}

func verifWireCheck(kind int, s *verifShape) {
	m, to, want := verifMessage(kind, s)
	b, err := binary.Marshal(m)
	vs.Assert(err == nil, "a message is not encoded")
	vs.Assert(vs.Same(b, want), "the encoding is not the portable storage of the message")
	vs.Assert(binary.Unmarshal(b, to) == nil, "an encoded message is not decoded")
	vs.Assert(verifSameMessage(m, to), "a decoded message differs from the encoded one")
	vs.Cover("decoded")
}

func verifSameMessage(m, to interface{}) bool {
	switch p := to.(type) {
	case *HandshakeRequest:
		return vs.Same(m.(HandshakeRequest), *p)
	case *HandshakeResponse:
		return vs.Same(m.(HandshakeResponse), *p)
	case *TimedSyncRequest:
		return vs.Same(m.(TimedSyncRequest), *p)
	case *TimedSyncResponse:
		return vs.Same(m.(TimedSyncResponse), *p)
	case *PingRequest:
		return vs.Same(m.(PingRequest), *p)
	case *PingResponse:
		return vs.Same(m.(PingResponse), *p)
	case *NotificationNewBlock:
		return vs.Same(m.(NotificationNewBlock), *p)
	case *NotificationNewTransactions:
		return vs.Same(m.(NotificationNewTransactions), *p)
	case *NotificationRequestGetObjects:
		return vs.Same(m.(NotificationRequestGetObjects), *p)
	case *NotificationTxPool:
		return vs.Same(m.(NotificationTxPool), *p)
	case *NotificationNewLiteBlock:
		return vs.Same(m.(NotificationNewLiteBlock), *p)
	case *NotificationResponseChainEntry:
		return vs.Same(m.(NotificationResponseChainEntry), *p)
	case *NotificationRequestChain:
		return vs.Same(m.(NotificationRequestChain), *p)
	case *NotificationResponseGetObjects:
		return vs.Same(m.(NotificationResponseGetObjects), *p)
	}
	return false
}
