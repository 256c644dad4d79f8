package p2p

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_messages.go
//verif:use lib_conn.go

// ASSUME: packets carry up to the stated number of bytes (one packet of 70000 bytes besides); a stream arrives in the stated number of arbitrary pieces

// what goes onto the wire
//
//verif:harness timeout=60 timeout.thorough=300
func VerifC10Written() {
	kind := vs.Int("kind", 0, verifKinds-1)
	s := &verifShape{list: vs.Int("list", 0, 1), text: []int{0, 3, 70, 17000}[vs.Int("text", 0, vs.Bound("texts", 2, 3))]}
	m, _, payload := verifMessage(kind, s)
	k := &verifPacket{signature: verifSignature, size: uint64(len(payload)), command: vs.U32("command"), protocol: 1, payload: payload}
	c := &verifConn{}
	p := &LevinProtocol{c}
	var err error
	switch vs.Int("way", 0, 2) {
	case 0:
		k.flags = 1
		err = p.Notify(k.command, m)
	case 1:
		k.flags, k.code = 2, vs.U32("code")
		err = p.Reply(k.command, m, int32(k.code))
	case 2:
		k.flags, k.have = 1, 1
		err = p.Invoke(k.command, m, &PingResponse{})
		vs.Assert(err != nil, "a response that never came")
		err = nil
	}
	vs.Assert(err == nil, "the packet is not written")
	vs.Assert(vs.Same(c.out, k.bytes()), "the packet on the wire is not the message")
	vs.Cover("written")
}

func verifExpect(p *LevinProtocol, c *verifConn, k *verifPacket, end int) {
	m, err := p.read()
	vs.Assert(err == nil, "a packet is not read")
	if err != nil {
		return
	}
	vs.Assert(c.at == end, "the reader does not stop at the end of the packet")
	vs.Assert(m.Command == k.command, "another command is read")
	vs.Assert(m.IsNotify == (k.have == 0), "requests and notifications are mixed up")
	vs.Assert(m.IsResponse == (k.flags&2 == 2), "responses and requests are mixed up")
	vs.Assert(vs.Same(m.Payload, k.payload), "another payload is read")
}

//verif:harness timeout=100 timeout.thorough=600
func VerifC10Split() {
	a, b := verifAnyPacket(vs.Int("first", 0, vs.Bound("first", 1, 3))), verifAnyPacket(vs.Int("second", 0, 1))
	c := &verifConn{eof: vs.Int("eof", 0, 1) == 1}
	p := &LevinProtocol{c}
	end := len(a.bytes())
	c.in = append(a.bytes(), b.bytes()...)
	all := len(c.in)
	if vs.Int("tail", 0, 1) == 1 {
		c.in = append(c.in, vs.Bytes("tail", 2)...)
	}
	c.cut(vs.Bound("cuts", 2, 3), len(c.in))
	verifExpect(p, c, a, end)
	verifExpect(p, c, b, all)
	m, err := p.read()
	vs.Assert(m == nil && err != nil, "a packet out of nothing")
	vs.Cover("both")
}

//verif:harness timeout=60 timeout.thorough=300
func VerifC10Truncated() {
	a := verifAnyPacket(vs.Int("size", 0, vs.Bound("size", 3, 6)))
	all := a.bytes()
	c := &verifConn{eof: vs.Int("eof", 0, 1) == 1}
	p := &LevinProtocol{c}
	c.in = all[:vs.Int("length", 0, len(all)-1)]
	c.cut(1, len(c.in))
	m, err := p.read()
	vs.Assert(m == nil && err != nil, "a truncated packet is delivered")
	vs.Cover("refused")
}

// any head at all
//
//verif:harness timeout=60 timeout.thorough=300
func VerifC10Head() {
	a := verifAnyPacket(vs.Int("there", 0, 6))
	a.signature, a.size = vs.U64("signature"), vs.U64("size")
	switch vs.Int("case", 0, 3) {
	case 0:
		vs.Assume(a.size <= 8)
	case 3:
		vs.Assume(a.size>>32 != 0 && a.size&(1<<32-1) <= 8)
	case 1:
		vs.Assume(a.size > 100000000)
	case 2:
		a.size = 70000
		if vs.Int("long", 0, 1) == 1 {
			a.payload = make([]byte, 70001)
			copy(a.payload, vs.Bytes("start", 2))
			copy(a.payload[69998:], vs.Bytes("end", 3))
		}
	}
	c := &verifConn{in: a.bytes()}
	p := &LevinProtocol{c}
	m, err := p.read()
	good := a.signature == verifSignature && a.size <= 100000000
	vs.Assert((err == nil) == (good && a.size <= uint64(len(a.payload))), "the wrong packets are refused")
	if err == nil {
		vs.Assert(uint64(len(m.Payload)) == a.size && vs.Same(m.Payload, a.payload[:len(m.Payload)]), "another payload is read")
		vs.Assert(c.at == 33+len(m.Payload), "the reader does not stop at the end of the packet")
		vs.Cover("read")
	} else {
		vs.Assert(m == nil, "a packet besides an error")
		if !good {
			vs.Assert(c.at <= 33, "more than the head of a wrong packet is read")
		}
		vs.Cover("refused")
	}
}

// a request and the packet that comes back
//
//verif:harness timeout=60 timeout.thorough=300
func VerifC10Invoke() {
	kind := []int{1, 3, 5}[vs.Int("kind", 0, 2)]
	m, to, payload := verifMessage(kind, &verifShape{list: vs.Int("list", 0, 1), text: 2})
	k := verifAnyPacket(0)
	k.size, k.payload = uint64(len(payload)), payload
	c := &verifConn{in: append(k.bytes(), vs.Bytes("tail", 1)...)}
	c.cut(1, len(c.in))
	p := &LevinProtocol{c}
	command := vs.U32("asked")
	err := p.Invoke(command, PingRequest{}, to)
	vs.Assert((err == nil) == (k.command == command && k.flags&2 == 2), "the wrong packets are taken for the response")
	vs.Assert(c.at == 33+len(payload), "the reader does not stop at the end of the packet")
	if err == nil {
		switch r := to.(type) {
		case *HandshakeResponse:
			vs.Assert(vs.Same(*r, m), "another response is read")
		case *TimedSyncResponse:
			vs.Assert(vs.Same(*r, m), "another response is read")
		case *PingResponse:
			vs.Assert(vs.Same(*r, m), "another response is read")
		}
		vs.Cover("response")
	} else {
		vs.Cover("refused")
	}
}
