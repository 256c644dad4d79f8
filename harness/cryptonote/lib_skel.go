package cryptonote

import vs "github.com/r3volut1oner/go-karbo/verifsym"

// verifSkel is a valid encoding with a record of the positions that decide its shape.
type verifSkel struct {
	b    []byte
	pos  []int
	fill byte
}

func (s *verifSkel) raw(bs ...byte) {
	for _, b := range bs {
		s.pos = append(s.pos, len(s.b))
		s.b = append(s.b, b)
	}
}

// key adds n bytes of key material.
func (s *verifSkel) key(n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, s.fill+byte(i&1))
	}
}

func (s *verifSkel) coinbase(extra ...byte) {
	s.raw(1, 10, 1, 0xff, 5, 1, 0x80, 1, 2)
	s.key(32)
	s.raw(byte(len(extra)))
	s.raw(extra...)
}

// transfer has a ring of two and an input of ring size one.
func (s *verifSkel) transfer() {
	s.raw(1, 0, 2)
	s.raw(2, 9, 2, 3, 0x81, 1)
	s.key(32)
	s.raw(2, 7, 1, 4)
	s.key(32)
	s.raw(2, 6, 2)
	s.key(32)
	s.raw(5, 2)
	s.key(32)
	s.raw(4, 2, 2, 8, 9)
	s.key(64 * 3)
}

func (s *verifSkel) parent() {
	s.raw(1, 2, 0x85, 1)
	s.key(32) // previous block
	s.key(4)  // nonce
	s.raw(3)  // transactions, branch of one
	s.key(32)
	s.raw(1, 10, 1, 0xff, 5, 0, 35, 3, 33, 1)
	s.key(32)
	s.key(32) // blockchain branch
}

func (s *verifSkel) block(version byte) {
	s.raw(version, 0)
	switch version {
	case 2, 3:
		s.key(32)
	default:
		s.raw(0x86, 1)
		s.key(36)
	}
	if version == 5 {
		s.key(64)
	}
	if version == 2 || version == 3 {
		s.parent()
	}
	s.coinbase(2, 1, 9)
	s.raw(2)
	s.key(64)
}

// verifWindow puts width arbitrary bytes somewhere over the shape bytes and cuts the end off somewhere.
func verifWindow(s *verifSkel, width int) []byte {
	b := append([]byte{}, s.b...)
	if vs.Int("cut", 0, 1) == 1 {
		return b[:vs.Int("length", 0, len(b)-1)]
	}
	at := s.pos[vs.Int("at", 0, len(s.pos)-1)]
	for i := 0; i < width && at+i < len(b); i++ {
		b[at+i] = vs.U8("byte")
	}
	return b
}
