package config

import (
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
	log "github.com/sirupsen/logrus"
)

type verifCp struct {
	h    uint32
	hash crypto.Hash
}

// verifCheckpoints adds a set of distinct checkpoints at arbitrary heights in arbitrary order.
func verifCheckpoints(max int) (Checkpoints, []verifCp) {
	l := log.New()
	l.Out = ioutil.Discard
	cp := NewCheckpoints(l)
	var cs []verifCp
	n := vs.Int("points", 0, max)
	for i := 0; i < n; i++ {
		c := verifCp{h: vs.U32("cph")}
		copy(c.hash[:], vs.Bytes("cphash", 32))
		dup := false
		for _, o := range cs {
			dup = vs.Or(dup, o.h == c.h)
		}
		err := cp.AddCheckpoint(c.h, c.hash)
		if dup {
			vs.Assert(err == ErrCheckpointsAlreadyExists, "a second checkpoint at one height is not refused")
			vs.Cover("dup")
		} else {
			vs.Assert(err == nil, "a new checkpoint is refused")
			cs = append(cs, c)
		}
	}
	return cp, cs
}

//verif:harness timeout=60
func VerifC24Zone() {
	cp, cs := verifCheckpoints(vs.Bound("checkpoints", 3, 4))
	h := vs.U32("h")
	want := false
	for _, c := range cs {
		// a highest checkpoint at height zero pins only genesis, which is never replaced
		want = vs.Or(want, vs.And(c.h != 0, h <= c.h))
	}
	vs.Assert(cp.IsInCheckpointZone(h) == want, "the checkpoint zone is not [0, highest checkpoint]")
	vs.Cover("zone")
}

//verif:harness timeout=60
func VerifC24Block() {
	cp, cs := verifCheckpoints(vs.Bound("checkpoints", 3, 4))
	h := vs.U32("h")
	var hash crypto.Hash
	copy(hash[:], vs.Bytes("hash", 32))
	bad := false
	for _, c := range cs {
		bad = vs.Or(bad, vs.And(c.h == h, !vs.Same(c.hash, hash)))
	}
	err := cp.CheckBlock(h, &hash)
	if bad {
		vs.Assert(err == ErrCheckpointsFailed, "a block that contradicts a checkpoint is accepted")
		vs.Cover("refused")
	} else {
		vs.Assert(err == nil, "a block that contradicts no checkpoint is refused")
		vs.Cover("accepted")
	}
}

//verif:harness timeout=100
func VerifC24Alternative() {
	cp, cs := verifCheckpoints(vs.Bound("checkpoints", 3, 4))
	size, index := vs.U32("size"), vs.U32("index")
	err := cp.AlternativeBlockAllowed(size, index)
	if index == 0 {
		vs.Assert(err != nil, "an alternative genesis block is allowed")
		vs.Cover("genesis")
		return
	}
	below, inZone := false, false
	for _, c := range cs {
		below = vs.Or(below, vs.And(c.h <= size, index <= c.h))
		inZone = vs.Or(inZone, vs.And(c.h != 0, index <= c.h))
	}
	deep := vs.And(size > 10, index < size-10, !inZone)
	if below {
		vs.Assert(err != nil, "an alternative block at or below the last passed checkpoint is allowed")
		vs.Cover("below")
	} else if deep {
		vs.Assert(err == ErrCheckpointsTooDeepReorg, "a reorganisation deeper than the unlock window is allowed")
		vs.Cover("deep")
	} else {
		vs.Assert(err == nil, "a permitted alternative block is refused")
		vs.Cover("allowed")
	}
}

// A long list of checkpoints added in no order, one of them, the first, any of the middle or the last, arbitrary.
//
//verif:harness timeout=60 timeout.thorough=300 int=1
func VerifC24Many() {
	l := log.New()
	l.Out = ioutil.Discard
	cp := NewCheckpoints(l)
	var cs []verifCp
	n := vs.Bound("many checkpoints", 8, 12)
	at := []int{0, n / 2, n - 1}[vs.Int("at", 0, 2)]
	for i := 0; i < n; i++ {
		c := verifCp{uint32(i*7%n+1) * 1000, crypto.Hash{byte(i)}}
		if i == at {
			c.h = vs.U32("cph")
		}
		dup := false
		for _, o := range cs {
			dup = vs.Or(dup, o.h == c.h)
		}
		err := cp.AddCheckpoint(c.h, c.hash)
		if dup {
			vs.Assert(err == ErrCheckpointsAlreadyExists, "a second checkpoint at one height is not refused")
			return
		}
		vs.Assert(err == nil, "a new checkpoint is refused")
		cs = append(cs, c)
	}
	size, index := vs.U32("size"), vs.U32("index")
	hash := crypto.Hash{vs.U8("hash")}
	below, inZone, bad := false, false, false
	for _, c := range cs {
		below = vs.Or(below, vs.And(c.h <= size, index <= c.h))
		inZone = vs.Or(inZone, vs.And(c.h != 0, index <= c.h))
		bad = vs.Or(bad, vs.And(c.h == index, !vs.Same(c.hash, hash)))
	}
	vs.Assert(cp.IsInCheckpointZone(index) == inZone, "the checkpoint zone is not [0, highest checkpoint]")
	vs.Assert((cp.CheckBlock(index, &hash) != nil) == bad, "a block that contradicts a checkpoint is accepted, or another is refused")
	deep := vs.And(size > 10, index < size-10, !inZone)
	vs.Assert((cp.AlternativeBlockAllowed(size, index) != nil) == vs.Or(index == 0, below, deep), "a forbidden alternative block is allowed, or a permitted one is refused")
	vs.Cover("many")
}
