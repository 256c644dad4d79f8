package p2p

import (
	"github.com/r3volut1oner/go-karbo/encoding/binary"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go

// ASSUME: lists and texts of the cut message have the stated lengths

//verif:harness timeout=120 timeout.thorough=800 paths=300000
func VerifC09Cut() {
	s := &verifShape{list: vs.Int("list", 0, vs.Bound("list", 2, 3)), text: 0}
	kind := vs.Int("kind", 0, verifKinds-1)
	switch kind {
	case 5, 6, 10, 13:
		s.text = []int{0, 3, 70}[vs.Int("text", 0, vs.Bound("texts", 2, 2))]
	}
	_, to, b := verifMessage(kind, s)
	cut := vs.Int("cut", 0, len(b)-1)
	vs.Assert(binary.Unmarshal(b[:cut], to) != nil, "a message cut short is decoded")
	vs.Cover("refused")
}

// A payload of another size is no id: every length field replaced by any number.
//
//verif:harness timeout=120 timeout.thorough=800
func VerifC09Ids() {
	m := TimedSyncRequest{(&verifShape{}).sync()}
	n := vs.Int("size", 0, 40)
	w := &verifWire{b: []byte{1, 0x11, 1, 1, 1, 1, 2, 1, 1}}
	w.size(1)
	w.object("payload_data", 2)
	w.u32("current_height", m.PayloadData.CurrentHeight)
	w.blob("top_id", vs.Bytes("id", n))
	var to TimedSyncRequest
	err := binary.Unmarshal(w.b, &to)
	vs.Assert((err == nil) == (n == 32), "an id of a wrong size is decoded, or one of the right size is not")
	if err == nil {
		vs.Cover("decoded")
	} else {
		vs.Cover("refused")
	}
}
