package crypto

import vs "github.com/r3volut1oner/go-karbo/verifsym"

// ASSUME: Keccak is collision free

func verifHashes(name string, n int) HashList {
	hl := HashList{}
	for i := 0; i < n; i++ {
		var h Hash
		copy(h[:], vs.Bytes(name, 32))
		hl = append(hl, h)
	}
	return hl
}

func verifPair(a, b Hash) Hash {
	var buf [64]byte
	copy(buf[:32], a[:])
	copy(buf[32:], b[:])
	return HashFromBytes(buf[:])
}

// verifRow is the widest complete row of the tree: the hashes at the end are paired so that a power of two remains.
func verifRow(hl HashList) HashList {
	width := 1
	for width*2 <= len(hl) {
		width *= 2
	}
	pairs := len(hl) - width
	row := append(HashList{}, hl[:len(hl)-2*pairs]...)
	for i := len(hl) - 2*pairs; i < len(hl); i += 2 {
		row = append(row, verifPair(hl[i], hl[i+1]))
	}
	return row
}

// verifTree is the root of a complete tree.
func verifTree(row HashList) Hash {
	if len(row) == 1 {
		return row[0]
	}
	h := len(row) / 2
	return verifPair(verifTree(row[:h]), verifTree(row[h:]))
}

//verif:harness timeout=60 timeout.thorough=600
func VerifC13Root() {
	n := vs.Int("hashes", 1, vs.Bound("hashes", 40, 200))
	hl := verifHashes("h", n)
	before := append(HashList{}, hl...)
	root := hl.MerkleRootHash()
	vs.Assert(root != nil, "no root")
	vs.Assert(*root == verifTree(verifRow(before)), "the root is not the CryptoNote tree hash")
	vs.Assert(vs.Same(before, hl), "the list was changed")
	vs.Cover("root")
}

//verif:harness timeout=60 timeout.thorough=600
func VerifC13Commits() {
	n := vs.Int("hashes", 1, vs.Bound("hashes", 20, 70))
	a, b := verifHashes("a", n), verifHashes("b", n)
	vs.Assume(*a.MerkleRootHash() == *b.MerkleRootHash())
	vs.Assert(vs.Same(a, b), "different lists have the same root")
	vs.Cover("same")
}

//verif:harness timeout=60 timeout.thorough=600
func VerifC13Branch() {
	n := vs.Int("hashes", 1, vs.Bound("hashes", 40, 200))
	hl := verifHashes("h", n)
	root := *hl.MerkleRootHash()
	// the siblings on the way from the first hash to the root, the one next to the root first
	var branch HashList
	for row := verifRow(hl); len(row) > 1; row = row[:len(row)/2] {
		branch = append(branch, verifTree(row[len(row)/2:]))
	}
	before := append(HashList{}, branch...)
	vs.Assert(branch.TreeHashFromBranch(hl[0]) == root, "the branch does not lead to the root")
	vs.Assert(vs.Same(before, branch), "the branch was changed")
	// nothing else leads there
	var leaf Hash
	copy(leaf[:], vs.Bytes("leaf", 32))
	other := verifHashes("b", len(branch))
	vs.Assume(other.TreeHashFromBranch(leaf) == root)
	vs.Assert(leaf == hl[0], "another leaf has a branch to the root")
	vs.Assert(vs.Same(other, branch), "another branch leads to the root")
	vs.Cover("branch")
}

//verif:harness timeout=60
func VerifC13List() {
	n := vs.Int("hashes", 0, vs.Bound("listed", 4, 6))
	hl := verifHashes("h", n)
	before := append(HashList{}, hl...)
	var h Hash
	copy(h[:], vs.Bytes("x", 32))
	at := -1
	for i := n - 1; i >= 0; i-- {
		if before[i] == h {
			at = i
		}
	}
	vs.Assert(hl.Index(&h) == at, "wrong index")
	vs.Assert(hl.Has(&h) == (at >= 0), "wrong membership")
	hl.Remove(&h)
	if at >= 0 {
		vs.Assert(len(hl) == n-1, "nothing was removed")
		vs.Assert(vs.Same(hl, append(append(HashList{}, before[:at]...), before[at+1:]...)), "the wrong hash was removed")
		vs.Cover("removed")
	} else {
		vs.Assert(vs.Same(hl, before), "an absent hash changed the list")
		vs.Cover("absent")
	}
}

// verifMany is a number of hashes around the powers of two that the tree is built from.
func verifMany() int {
	ns := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 513, 700, 1025, 2100}
	return ns[vs.Int("many", 0, vs.Bound("many hashes", 11, len(ns)-1))]
}

// Long lists of which one hash, at any of several places, is arbitrary.
//
//verif:harness timeout=60 timeout.thorough=600
func VerifC13Long() {
	n := verifMany()
	hl := HashList{}
	for i := 0; i < n; i++ {
		hl = append(hl, Hash{byte(i), byte(i >> 8), 9})
	}
	at := []int{0, n / 2, n - 1, n - 2}[vs.Int("at", 0, 3)]
	copy(hl[at][:], vs.Bytes("h", 32))
	root := hl.MerkleRootHash()
	vs.Assert(root != nil, "no root")
	vs.Assert(*root == verifTree(verifRow(hl)), "the root is not the CryptoNote tree hash")
	var branch HashList
	for row := verifRow(hl); len(row) > 1; row = row[:len(row)/2] {
		branch = append(branch, verifTree(row[len(row)/2:]))
	}
	vs.Assert(branch.TreeHashFromBranch(hl[0]) == *root, "the branch does not lead to the root")
	vs.Cover("root")
}
