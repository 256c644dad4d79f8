package p2p

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go

// ASSUME: payloads are arbitrary up to the stated length, or the encoding of a message with an arbitrary window of the stated width anywhere, or with any number in place of a size; an allocation counts as unjustified when one request exceeds 4 KiB plus 64 times the length of the payload

var verifCommands = []uint32{CommandHandshake, 0, CommandTimedSync, 0, 0, 0, NotificationNewBlockID, NotificationNewTransactionsID,
	NotificationRequestGetObjectsID, NotificationTxPoolID, NotificationNewLiteBlockID, NotificationResponseChainEntryID,
	NotificationRequestChainID, NotificationResponseGetObjectsID}

func verifHostile(kind int, to interface{}, b []byte) {
	vs.AllocLimit(4096 + 64*len(b))
	var m interface{}
	var err error
	switch c := verifCommands[kind]; {
	case c == 0:
		err = verifDecode(b, to)
	case c > NotificationBoolBase:
		m, err = parseNotification(&LevinCommand{Command: c, IsNotify: true, Payload: b})
		vs.Assert((m == nil) == (err != nil), "neither a message nor an error")
	default:
		m, err = parseCommand(&LevinCommand{Command: c, Payload: b})
		vs.Assert((m == nil) == (err != nil), "neither a message nor an error")
	}
	if err != nil {
		vs.Cover("refused")
	} else {
		vs.Cover("?decoded")
	}
}

//verif:harness timeout=100 timeout.thorough=500 paths=300000 hang=1
func VerifC07Bytes() {
	kind := vs.Int("kind", 0, verifKinds-1)
	_, to, b := verifMessage(kind, &verifShape{})
	n := vs.Int("length", 0, vs.Bound("bytes", 3, 4))
	if vs.Int("head", 0, 1) == 0 {
		b = vs.Bytes("b", n)
	} else {
		b = append(b[:9:9], vs.Bytes("b", n)...)
	}
	verifHostile(kind, to, b)
}

//verif:harness timeout=100 timeout.thorough=800 paths=300000 hang=1
func VerifC07Window() {
	s := &verifShape{list: 1, text: 2, plain: true}
	kind := vs.Int("kind", 0, verifKinds-1)
	_, to, b := verifMessage(kind, s)
	w := vs.Bound("window", 1, 2)
	at := vs.Int("at", 9, len(b)-w)
	b = append([]byte{}, b...)
	copy(b[at:], vs.Bytes("b", w))
	verifHostile(kind, to, b)
}

// every number that gives the size of something, in turn, becomes any number
//
//verif:harness timeout=100 timeout.thorough=800 paths=300000 hang=1
func VerifC07Sizes() {
	s := &verifShape{list: 1, text: 2, plain: true}
	kind := vs.Int("kind", 0, verifKinds-1)
	_, to, b := verifMessage(kind, s)
	at := verifSizes[vs.Int("at", 0, len(verifSizes)-1)]
	k := vs.Int("width", 1, 3)
	size := vs.U64("size")
	if vs.Int("large", 0, 1) == 1 {
		vs.Assume(size > uint64(vs.Bound("large", 4000, 2000)) && size < 1<<(8<<uint(k)-2))
	} else {
		vs.Assume(size < uint64(vs.Bound("small", 40, 300)))
	}
	mark := size<<2 | uint64(k)
	c := append([]byte{}, b[:at]...)
	for i := 0; i < 1<<uint(k); i++ {
		c = append(c, byte(mark>>uint(8*i)))
	}
	verifHostile(kind, to, append(c, b[at+1:]...))
}
