package p2p

import (
	"io"
	"net"

	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// verifConn is one end of a connection: it hands out a stream in pieces and records what is written.
type verifConn struct {
	net.Conn
	in   []byte
	at   int
	cuts []int // where pieces end
	out  []byte
	eof  bool // the end is told together with the last bytes
}

func (c *verifConn) Read(p []byte) (int, error) {
	if c.at == len(c.in) {
		return 0, io.EOF
	}
	n := len(c.in) - c.at
	for _, e := range c.cuts {
		if e > c.at && e-c.at < n {
			n = e - c.at
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.in[c.at:c.at+n])
	c.at += n
	if c.eof && c.at == len(c.in) {
		return n, io.EOF
	}
	return n, nil
}

func (c *verifConn) Write(p []byte) (int, error) {
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *verifConn) Close() error { return nil }

// cut makes up to n pieces end at arbitrary places up to a limit.
func (c *verifConn) cut(n, limit int) {
	from := 0
	for i := 0; i < n; i++ {
		e := vs.Int("cut", from, limit)
		if e > 0 {
			c.cuts = append(c.cuts, e)
			from = e
		}
	}
}

type verifPacket struct {
	signature, size                uint64
	have                           byte
	command, code, flags, protocol uint32
	payload                        []byte
}

func (k *verifPacket) bytes() []byte {
	w := verifWire{}
	w.le(k.signature, 8)
	w.le(k.size, 8)
	w.le(uint64(k.have), 1)
	w.le(uint64(k.command), 4)
	w.le(uint64(k.code), 4)
	w.le(uint64(k.flags), 4)
	w.le(uint64(k.protocol), 4)
	return append(w.b, k.payload...)
}

const verifSignature = 0x0101010101012101

// verifAnyPacket has an arbitrary payload and arbitrary fields.
func verifAnyPacket(n int) *verifPacket {
	return &verifPacket{verifSignature, uint64(n), vs.U8("have"), vs.U32("command"), vs.U32("code"), vs.U32("flags"), vs.U32("protocol"), vs.Bytes("payload", n)}
}
