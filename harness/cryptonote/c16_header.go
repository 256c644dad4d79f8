package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_chain.go

// ASSUME: maps are iterated in insertion order (C18 shows that the version does not depend on it)
// ASSUME: the chain below the block is one of three invented histories (regular, scattered, driven ahead) ending at one of the listed heights; fields vary in the stated groups, the others hold valid values; a version 5 signature checks exactly for the hash and key it was made for (replays use real signatures)

var verifTops = []uint32{0, 1, 59, 1000, 60000, 70000, 216000, 266000, 499998, 700000, 700300, 60, 58, 59999, 60001, 60060, 215999, 216001, 265999, 266001, 300000, 499999, 500000, 666999, 699999, 700001, 700119, 700120, 700121, 820000}

const (
	verifVaryStamp = iota
	verifVaryUnlock
	verifVaryIndex
	verifVaryAmounts
	verifVaryKeys
	verifVaryInputs
	verifVaryExtra
	verifVaryVersion
	verifVaryParent
	verifVaryPrev
	verifVarySignature
	verifVaryTxs
	verifVaryFree
	verifVaryLast = verifVaryFree
)

// verifVary changes one group of fields and tells whether the block still follows the rules.
func verifVary(bc *BlockChain, s *verifHistory, b *Block, group int) bool {
	i := s.top + 1
	v := b.MajorVersion
	limit := uint64(7 * 240)
	if v >= 4 {
		limit = 3 * 240
	}
	cb := &b.BaseTransaction.TransactionPrefix
	ok := true
	switch group {
	case verifVaryStamp:
		b.Timestamp = verifTimestamp(bc)
		if b.Parent != nil {
			b.Parent.Timestamp = b.Timestamp
		}
		now := bc.Network.Timestamp()
		ok = b.Timestamp <= now+limit
		window, _ := verifWindowOf(v)
		if last := verifTail(s.stamp, window, s.top, 0); uint32(len(last)) == window {
			ok = vs.And(ok, b.Timestamp >= verifMedian(last))
		}
	case verifVaryUnlock:
		cb.UnlockHeight = vs.U64("unlock")
		ok = cb.UnlockHeight == uint64(i)+10
	case verifVaryIndex:
		x := vs.U32("index")
		cb.Inputs[0] = InputCoinbase{BlockIndex: x}
		if vs.Int("unlock follows", 0, 1) == 1 {
			cb.UnlockHeight = uint64(x) + 10
		}
		ok = x == i
	case verifVaryAmounts:
		n := vs.Int("outputs", 0, 3)
		cb.Outputs = nil
		sum := vs.ZU(0)
		for k := 0; k < n; k++ {
			a := uint64(1)
			if k < vs.Bound("free amounts", 2, 3) {
				a = vs.U64("amount")
			}
			cb.Outputs = append(cb.Outputs, TransactionOutput{Amount: a, Target: OutputKey{PublicKey: verifMinerKey}})
			sum = sum.Add(vs.ZU(a))
			ok = vs.And(ok, a != 0)
		}
		ok = vs.And(ok, sum.Eq(vs.ZU(verifBaseReward(s.coins))))
		if v >= 5 && n != 1 {
			ok = false
		}
	case verifVaryKeys:
		n := vs.Int("outputs", 1, 3)
		cb.Outputs = nil
		for k := 0; k < n; k++ {
			a := uint64(1)
			if k == n-1 {
				a = verifBaseReward(s.coins) - uint64(n-1)
			}
			var t TransactionOutputTarget
			switch vs.Int("target", 0, 2) {
			case 0:
				t = OutputKey{PublicKey: verifMinerKey}
			case 1:
				t, ok = OutputKey{PublicKey: verifBadKey}, false
			case 2:
				t, ok = nil, false
			}
			cb.Outputs = append(cb.Outputs, TransactionOutput{Amount: a, Target: t})
		}
		if v >= 5 && n != 1 {
			ok = false
		}
	case verifVaryInputs:
		other := []TransactionInput{InputCoinbase{BlockIndex: i}, InputKey{Amount: 1, OutputIndexes: []uint32{1}}}
		cb.Inputs = nil
		switch vs.Int("inputs", 0, 4) {
		case 0:
		case 1:
			cb.Inputs = other[:1]
		case 2:
			cb.Inputs = other[1:]
		case 3:
			cb.Inputs = other
		case 4:
			cb.Inputs = []TransactionInput{other[0], other[0]}
		}
		if len(cb.Inputs) != 1 || cb.Inputs[0] != other[0] {
			b.BaseTransaction.TransactionSignatures = make(TransactionSignatures, len(cb.Inputs))
			ok = false
		} else if vs.Int("signatures", 0, 1) == 1 {
			b.BaseTransaction.TransactionSignatures = TransactionSignatures{{crypto.Signature{}}}
			ok = false
		}
	case verifVaryExtra:
		switch k := vs.Int("extra", 0, 5); k {
		case 0:
			cb.Extra = append([]byte{3, 33, 0}, make([]byte, 32)...)
			ok = v < 5
		case 1:
			cb.Extra = append([]byte{1}, make([]byte, 32)...)
		case 2:
			cb.Extra = []byte{vs.U8("tag")}
			vs.Assume(cb.Extra[0] > 4)
			ok = v < 5
		case 3, 4, 5:
			// nonces of up to 127 bytes fill the extra
			n := []int{1023, 1024, 1025}[k-3]
			for len(cb.Extra) < n {
				m := n - len(cb.Extra) - 2
				if m > 127 {
					m = 100
				}
				cb.Extra = append(append(cb.Extra, 2, byte(m)), make([]byte, m)...)
			}
			ok = n <= 1024 || i < 500000
		}
	case verifVaryVersion:
		b.MajorVersion = byte(vs.Int("version", 1, 5))
		b.Parent = nil
		if b.MajorVersion == 2 || b.MajorVersion == 3 {
			verifAddParent(b)
		}
		ok = b.MajorVersion == v
	case verifVaryParent:
		if b.Parent == nil {
			break
		}
		if vs.Int("large", 0, 1) == 1 {
			b.Parent.BaseTransaction.Extra = append(b.Parent.BaseTransaction.Extra, make([]byte, 2048)...)
			ok = false
		} else {
			b.Parent.BaseTransaction.Extra = append(b.Parent.BaseTransaction.Extra, make([]byte, 1024)...)
		}
		b.Parent.MajorVersion = vs.U8("parent version")
		ok = vs.And(ok, v != 2 || b.Parent.MajorVersion <= 1)
	case verifVaryPrev:
		ok = false
		switch vs.Int("prev", 0, 3) {
		case 0:
			copy(b.PreviousBlockHash[:], vs.Bytes("prev", 32))
			vs.Assume(b.PreviousBlockHash[0] != 0xc4)
		case 1:
			b.PreviousBlockHash = verifChainHash(i)
		case 2:
			if s.top == 0 {
				ok = true
				break
			}
			b.PreviousBlockHash = verifChainHash(s.top - 1)
		case 3:
			b.PreviousBlockHash = crypto.Hash{}
		}
	case verifVaryTxs:
		n := vs.Int("txs", 1, 2)
		for k := 0; k < n; k++ {
			b.TransactionsHashes = append(b.TransactionsHashes, crypto.Hash{byte(k)})
		}
		ok = false
	case verifVaryFree:
		b.MinorVersion, b.Nonce = vs.U8("minor"), vs.U32("nonce")
		cb.Version = vs.U8("tx version")
	}
	return ok
}

//verif:harness timeout=120 timeout.thorough=800 maporder=fixed contract=~/cryptonote.verifSign:SpecSign,(*~/crypto.Signature).Check:SpecSigCheck
func VerifC16Rules() {
	top := verifTops[vs.Int("top", 0, vs.Bound("last height", 10, len(verifTops)-1))]
	kind := vs.Int("history", 0, 2)
	s := &verifHistory{top: top, stamp: verifStampOf(kind, top), size: func(i uint32) uint64 { return 300 + uint64(i)%97 }, coins: 5000000000000000000}
	bc := verifNewChain(s)
	group := vs.Int("vary", 0, verifVaryLast)
	if kind > 0 && group != verifVaryStamp {
		vs.Assume(false)
	}
	b := verifCandidate(bc, s)
	if b.MajorVersion == 5 {
		b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifMinerKey}
	}
	ok := verifVary(bc, s, b, group)
	if b.MajorVersion == 5 {
		sig := verifSign(crypto.HashFromBytes(b.HashingBytes()))
		if group == verifVarySignature {
			switch vs.Int("signature", 0, 3) {
			case 0:
				sig.C[vs.Int("byte", 0, 31)] ^= 1
				ok = false
			case 1:
				sig.R[vs.Int("byte", 0, 31)] ^= 1
				ok = false
			case 2:
				b.Nonce++
				ok = false
			case 3:
				b.BaseTransaction.Outputs[0].Target = OutputKey{PublicKey: verifGoodKey}
				ok = false
			}
		}
		b.Signature = sig
	}
	err := bc.AddBlock(b, nil)
	if ok {
		vs.Assert(err == nil, "a block that follows all rules is refused")
		vs.Assert(bc.TopBlock() == b, "an accepted block is not the top")
		vs.Assert(len(s.pushed) == 1 && s.pushed[0] == b, "an accepted block is not stored")
		vs.Cover("accepted")
	} else {
		vs.Assert(err != nil, "a block that breaks a rule is accepted")
		vs.Assert(len(s.pushed) == 0 && bc.Height() == top, "a refused block changes the chain")
		vs.Cover("refused")
	}
}
