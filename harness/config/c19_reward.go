package config

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_wide.go

// ASSUME: utils.Mul128 and utils.Div128p32 meet their specification, which C26 decides for every operand
// ASSUME: median block sizes below 2^31 bytes (the largest permitted block is 500 MB); coins already generated at most 2^64-2^40

// verifBase is the emission formula: a 2^-18 share of what is left of 10^19, then 2% of the supply per year
// (360 blocks per day) once that share falls below one coin.
func verifBase(already uint64) vs.Z {
	supply, tail := vs.ZU(10000000000000000000), vs.ZU(1000000000000)
	left := supply.Sub(vs.ZU(already))
	share := left.Div(vs.ZU(1 << 18))
	two := vs.ZU(already).Div(vs.ZU(100)).Mul(vs.ZU(2)).Div(vs.ZU(360 * 365))
	return vs.ZIte(vs.Or(left.Le(tail), share.Lt(tail)), two, share)
}

func verifZone(version byte) uint64 {
	switch version {
	case 1:
		return 100000
	}
	return 1000000
}

//verif:harness int=1 timeout=120
func VerifC19Base() {
	n := MainNet()
	version := byte(vs.Int("version", 1, 5))
	already := vs.U64("already")
	vs.Assume(already <= 1<<64-1<<40)
	median, size := vs.U64("median"), vs.U64("size")
	m := vs.IteU64(median > verifZone(version), median, verifZone(version))
	vs.Assume(vs.And(m < 1<<31, size <= m))
	reward, emission, err := n.GetBlockReward(version, median, size, already, 0)
	vs.Assert(err == nil, "a block no larger than the median is refused")
	vs.Assert(vs.ZU(reward).Eq(verifBase(already)), "the reward is not the emission formula")
	vs.Assert(emission == reward, "coins emitted differ from the reward of a block without fees")
	vs.Assert(vs.Or(already > 10000000000000000000, reward <= 10000000000000000000-already, reward <= 1000000000000000), "the reward exceeds what is left to emit")
	vs.Cover("base")
	vs.Observe("r", reward)
}

//verif:harness int=1 timeout=60
func VerifC19Refused() {
	n := MainNet()
	version := byte(vs.Int("version", 1, 5))
	median, size, already, fee := vs.U64("median"), vs.U64("size"), vs.U64("already"), vs.U64("fee")
	m := vs.IteU64(median > verifZone(version), median, verifZone(version))
	vs.Assume(m < 1<<31)
	vs.Assume(size > 2*m)
	_, _, err := n.GetBlockReward(version, median, size, already, fee)
	vs.Assert(err != nil, "a block larger than twice the median is rewarded")
	vs.Cover("refused")
}

// The quadratic penalty: amount * S * (2M-S) / M^2 rounded down, on the base reward and on the fees. The medians
// are a list of fixed values (the full reward zone and its neighbours, values with every byte set, the largest).
func verifMedian() (byte, uint64) {
	version := byte(vs.Int("version", 1, 5))
	list := []uint64{verifZone(version), verifZone(version) + 1, 1<<31 - 1, 1<<20 + 1, 77777777, 500000000}
	if version == 1 {
		list[3] = 1<<17 - 1
	}
	return version, list[vs.Int("median", 0, vs.Bound("medians", 2, 5))]
}

//verif:harness int=1 timeout=200 query=60000 contract=~/utils.Mul128:verifSpecMul128,~/utils.Div128p32:verifSpecDiv128p32
func VerifC19Penalty() {
	n := MainNet()
	version, median := verifMedian()
	// the base reward is a constant here; VerifC19Base decides it for every supply
	already := uint64(vs.Int("supply", 0, 1)) * 5000000000000000000
	size := vs.U64("size")
	vs.Assume(vs.And(size > median, size <= 2*median))
	reward, emission, err := n.GetBlockReward(version, median, size, already, 0)
	vs.Assert(err == nil, "a block within twice the median is refused")
	vs.Assert(reward == emission, "without fees the reward is not what is emitted")
	base := (uint64(10000000000000000000) - already) >> 18
	m, s := vs.ZU(median), vs.ZU(size)
	rest := vs.ZU(base).Mul(m.Add(m).Sub(s)).Mul(s).Sub(vs.ZU(reward).Mul(m).Mul(m))
	vs.Assert(vs.And(vs.ZU(0).Le(rest), rest.Lt(m.Mul(m))), "the penalised reward is not base * S * (2M-S) / M^2")
	vs.Cover("penalty")
	vs.Observe("r", reward)
}

//verif:harness int=1 timeout=200 query=60000 contract=~/utils.Mul128:verifSpecMul128,~/utils.Div128p32:verifSpecDiv128p32
func VerifC19Fees() {
	n := MainNet()
	version, median := verifMedian()
	size, fee := vs.U64("size"), vs.U64("fee")
	vs.Assume(fee < 1<<62)
	vs.Assume(vs.And(size > median, size <= 2*median))
	bare, _, _ := n.GetBlockReward(version, median, size, 0, 0)
	reward, emission, err := n.GetBlockReward(version, median, size, 0, fee)
	vs.Assert(err == nil, "a block within twice the median is refused")
	vs.Assert(reward-emission == fee, "reward minus emission is not the fee")
	m, s := vs.ZU(median), vs.ZU(size)
	rest := vs.ZU(fee).Mul(m.Add(m).Sub(s)).Mul(s).Sub(vs.ZU(reward).Sub(vs.ZU(bare)).Mul(m).Mul(m))
	vs.Assert(vs.And(vs.ZU(0).Le(rest), rest.Lt(m.Mul(m))), "the fee part of the reward is not fee * S * (2M-S) / M^2")
	vs.Cover("fees")
	vs.Observe("r", reward)
}

//verif:harness int=1 timeout=60
func VerifC19FullFees() {
	n := MainNet()
	version := byte(vs.Int("version", 1, 5))
	median, size, fee := vs.U64("median"), vs.U64("size"), vs.U64("fee")
	m := vs.IteU64(median > verifZone(version), median, verifZone(version))
	vs.Assume(vs.And(m < 1<<31, size <= m, fee < 1<<62))
	reward, emission, err := n.GetBlockReward(version, median, size, 0, fee)
	vs.Assert(err == nil, "a block no larger than the median is refused")
	vs.Assert(vs.And(emission == 10000000000000000000>>18, reward == emission+fee), "fees of a block within the median are not paid in full")
	vs.Cover("full")
}
