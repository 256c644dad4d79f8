package p2p

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// ASSUME: up to the stated number of moves of the stated number of connections with arbitrary ids (also the same id twice, and none); one move at a time

//verif:harness timeout=100 timeout.thorough=800 maporder=fixed
func VerifC34Moves() {
	n := vs.Bound("peers", 3, 4)
	ps := NewPeerStore()
	peers := make([]*Peer, n)
	for i := range peers {
		peers[i] = &Peer{ID: vs.U64("id"), address: NetworkAddress{vs.U32("ip"), vs.U32("port")}}
	}
	// the lists as they should be: which connection is where
	var white, grey []*Peer
	without := func(l []*Peer, p *Peer) (r []*Peer) {
		for _, q := range l {
			if q.ID != p.ID {
				r = append(r, q)
			}
		}
		return
	}
	has := func(l []*Peer, p *Peer) bool { return len(without(l, p)) < len(l) }
	steps := vs.Bound("moves", 4, 5)
	for k := 0; k < steps; k++ {
		p := peers[vs.Int("who", 0, n-1)]
		if vs.Int("where", 0, 1) == 1 {
			err := ps.toWhite(p)
			vs.Assert((err == nil) == (p.ID != 0 && !has(white, p)), "the wrong moves to the white list fail")
			grey = without(grey, p)
			if err == nil {
				white = append(white, p)
			}
		} else {
			err := ps.toGrey(p)
			vs.Assert((err == nil) == (p.ID != 0 && !has(grey, p)), "the wrong moves to the grey list fail")
			white = without(white, p)
			if err == nil {
				grey = append(grey, p)
			}
		}
		for _, q := range peers {
			w, g := ps.white.Has(q.ID), ps.grey.Has(q.ID)
			vs.Assert(!(w && g), "a peer is on both lists")
			vs.Assert(w == has(white, q) && g == has(grey, q), "a peer is lost or on the wrong list")
		}
		for _, q := range white {
			vs.Assert(ps.white.Get(q.ID) == q, "another peer is on the white list")
		}
		for _, q := range grey {
			vs.Assert(ps.grey.Get(q.ID) == q, "another peer is on the grey list")
		}
	}
	entries := ps.toPeerEntries()
	vs.Assert(len(entries) == len(white)+len(grey), "the wrong number of peers is listed")
	for _, q := range append(white[:len(white):len(white)], grey...) {
		k := 0
		for _, e := range entries {
			if e.ID == q.ID {
				k++
				vs.Assert(e.Address == q.address, "a peer is listed with another address")
			}
		}
		vs.Assert(k == 1, "a stored peer is not listed once")
	}
	vs.Cover("moved")
}

// many connections
//
//verif:harness timeout=60 timeout.thorough=300 maporder=fixed
func VerifC34Many() {
	n := vs.Bound("many", 60, 260)
	ps := NewPeerStore()
	var peers []*Peer
	where := map[*Peer]int{}
	for i := 0; i < n; i++ {
		p := &Peer{ID: uint64(i+1) * 0x100000001, address: NetworkAddress{uint32(i), 80}}
		peers = append(peers, p)
		if i%3 == 0 {
			vs.Assert(ps.toWhite(p) == nil, "a peer is not stored")
			where[p] = 1
		} else {
			vs.Assert(ps.toGrey(p) == nil, "a peer is not stored")
			where[p] = 2
		}
	}
	// one more, with any id, moves about
	x := &Peer{ID: vs.U64("id"), address: NetworkAddress{vs.U32("ip"), vs.U32("port")}}
	for k, steps := 0, vs.Bound("moves of one", 3, 4); k < steps; k++ {
		same := x // the connection which holds the id of x
		for _, p := range peers {
			if p.ID == x.ID {
				same = p
			}
		}
		if same != x && where[same] == 0 {
			same = x
		}
		to := 2 - vs.Int("white", 0, 1)
		var err error
		if to == 1 {
			err = ps.toWhite(x)
		} else {
			err = ps.toGrey(x)
		}
		vs.Assert((err == nil) == (x.ID != 0 && where[same] != to), "the wrong moves fail")
		if err == nil {
			where[same] = 0
			where[x] = to
		}
	}
	peers = append(peers, x)
	stored := 0
	entries := ps.toPeerEntries()
	for _, p := range peers {
		if where[p] == 0 {
			continue
		}
		stored++
		list, other := ps.white, ps.grey
		if where[p] == 2 {
			list, other = other, list
		}
		vs.Assert(list.Has(p.ID) && list.Get(p.ID) == p, "a peer is lost")
		vs.Assert(!other.Has(p.ID), "a peer is on both lists")
		k := 0
		for _, e := range entries {
			if e.ID == p.ID {
				k++
				vs.Assert(e.Address == p.address, "a peer is listed with another address")
			}
		}
		vs.Assert(k == 1, "a stored peer is not listed once")
	}
	vs.Assert(len(entries) == stored, "the wrong number of peers is listed")
	vs.Cover("many")
}
