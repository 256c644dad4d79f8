package config

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:use lib_wide.go

// ASSUME: utils.Mul128 meets its specification, which C26 decides for every operand
// ASSUME: block timestamps below 2^56; average work per block below 2^34 in version 5 and total work of the window below 2^48 in version 4 (above that 64-bit intermediates wrap in the published formula too)
// ASSUME: version 3 works in floating point and is checked only for crashes and the minimum, not for its value

const verifMinDiff = 100000

// verifTimes is a fixed list of timestamps: regular, jittered or running backwards for a while.
func verifTimes(pattern, n int) []uint64 {
	ts := make([]uint64, n)
	for i := range ts {
		t := uint64(1500000000 + 240*i)
		switch pattern {
		case 1:
			t += uint64((i * 7919) % 3001)
		case 2:
			t -= uint64((i * i * 31) % 5003)
		case 3:
			t = 1500000000 + uint64(i%2)
		case 4:
			t = 1500000000
		case 5:
			t = 1500000000 + uint64(i)*100000
		case 6:
			t = 1500000000 - uint64(i)*1000
		}
		ts[i] = t
	}
	return ts
}

// verifSorted sorts independently of the code under test.
func verifSorted(ts []uint64) []uint64 {
	out := append([]uint64{}, ts...)
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func verifWork(n int) []uint64 {
	cd := make([]uint64, n)
	for i := range cd {
		cd[i] = vs.U64("work")
	}
	return cd
}

func verifV1(ts, cd []uint64, sorted []uint64) {
	n := len(ts)
	got, err := MainNet().NextDifficulty(1000, 1, append([]uint64{}, ts...), cd)
	if n > 360 {
		n = 360
		sorted = verifSorted(ts[:360])
	}
	if n <= 1 {
		vs.Assert(err == nil && got == 1, "the first blocks do not have difficulty 1")
		return
	}
	lo, hi := 0, n-1
	if n > 240 {
		// the middle 240, one more cut at the low end if they cannot be centred
		lo = (n - 240 + 1) / 2
		hi = lo + 239
	}
	vs.Assume(cd[lo] <= cd[hi])
	if cd[lo] == cd[hi] {
		vs.Assert(err != nil, "a window without work is given a difficulty")
		vs.Cover("?none")
		return
	}
	vs.Assert(err == nil, "a valid window is refused")
	span := vs.ZU(sorted[hi]).Sub(vs.ZU(sorted[lo]))
	span = vs.ZIte(span.Eq(vs.ZU(0)), vs.ZU(1), span)
	num := vs.ZU(cd[hi]).Sub(vs.ZU(cd[lo])).Mul(vs.ZU(240)).Add(span).Sub(vs.ZU(1))
	if num.Lt(vs.ZStr("0x10000000000000000")) {
		// got = ceil(work * 240 / span)
		r := num.Sub(vs.ZU(got).Mul(span))
		vs.Assert(vs.And(vs.ZU(0).Le(r), r.Lt(span)), "version 1 difficulty is not work times target over the time span, rounded up")
		vs.Cover("exact")
	} else {
		vs.Assert(got == 0, "a difficulty beyond 64 bits is not refused")
		vs.Cover("?overflow")
	}
	vs.Observe("d", got)
}

//verif:harness int=1 timeout=60 contract=~/utils.Mul128:verifSpecMul128
func VerifC20V1Window() {
	lens := []int{0, 1, 2, 3, 60, 239, 240, 241, 242, 300, 359, 360, 361, 375}
	n := lens[vs.Int("blocks", 0, len(lens)-1)]
	ts := verifTimes(vs.Int("pattern", 0, vs.Bound("timestamp patterns", 3, 6)), n)
	verifV1(ts, verifWork(n), verifSorted(ts))
}

//verif:harness int=1 timeout=60 contract=~/utils.Mul128:verifSpecMul128
func VerifC20V1Times() {
	n := vs.Int("blocks", 2, vs.Bound("blocks with arbitrary timestamps", 3, 4))
	ts := make([]uint64, n)
	lo, hi := uint64(1<<63), uint64(0)
	for i := range ts {
		ts[i] = vs.U64("t")
		vs.Assume(ts[i] < 1<<56)
		lo = vs.IteU64(ts[i] < lo, ts[i], lo)
		hi = vs.IteU64(ts[i] > hi, ts[i], hi)
	}
	sorted := make([]uint64, n)
	sorted[0], sorted[n-1] = lo, hi
	cd := verifWork(n)
	verifV1(ts, cd, sorted)
}

func verifV2(ts, cd []uint64, lo, hi uint64) {
	n := len(ts)
	got, err := MainNet().NextDifficulty(100000, 2, append([]uint64{}, ts...), cd)
	if n > 17 {
		n = 17
	}
	if n <= 1 {
		vs.Assert(err == nil && got == 1, "the first blocks do not have difficulty 1")
		return
	}
	vs.Assume(cd[0] <= cd[n-1])
	if cd[0] == cd[n-1] {
		vs.Assert(err != nil, "a window without work is given a difficulty")
		vs.Cover("?none")
		return
	}
	vs.Assert(err == nil, "a valid window is refused")
	span := vs.ZU(hi).Sub(vs.ZU(lo))
	span = vs.ZIte(span.Eq(vs.ZU(0)), vs.ZU(1), span)
	num := vs.ZU(cd[n-1]).Sub(vs.ZU(cd[0])).Mul(vs.ZU(240))
	if num.Lt(vs.ZStr("0x10000000000000000")) {
		r := num.Sub(vs.ZU(got).Mul(span))
		low := vs.And(got == verifMinDiff, num.Lt(span.Mul(vs.ZU(verifMinDiff))))
		vs.Assert(vs.Or(low, vs.And(got >= verifMinDiff, vs.ZU(0).Le(r), r.Lt(span))), "version 2 difficulty is not work times target over the time span, at least the minimum")
		vs.Cover("exact")
	} else {
		vs.Assert(got == 0, "a difficulty beyond 64 bits is not refused")
		vs.Cover("?overflow")
	}
	vs.Observe("d", got)
}

//verif:harness int=1 timeout=60 contract=~/utils.Mul128:verifSpecMul128
func VerifC20V2Window() {
	n := vs.Int("blocks", 0, 19)
	ts := verifTimes(vs.Int("pattern", 0, vs.Bound("timestamp patterns", 3, 6)), n)
	m := n
	if m > 17 {
		m = 17
	}
	s := verifSorted(ts[:m])
	if m == 0 {
		s = []uint64{0}
	}
	verifV2(ts, verifWork(n), s[0], s[len(s)-1])
}

//verif:harness int=1 timeout=60 contract=~/utils.Mul128:verifSpecMul128
func VerifC20V2Times() {
	n := vs.Int("blocks", 2, vs.Bound("blocks with arbitrary timestamps", 3, 4))
	ts := make([]uint64, n)
	lo, hi := uint64(1<<63), uint64(0)
	for i := range ts {
		ts[i] = vs.U64("t")
		vs.Assume(ts[i] < 1<<56)
		lo = vs.IteU64(ts[i] < lo, ts[i], lo)
		hi = vs.IteU64(ts[i] > hi, ts[i], hi)
	}
	verifV2(ts, verifWork(n), lo, hi)
}

// Lists of different lengths are refused by every version that is given whole lists.
//
//verif:harness timeout=30
func VerifC20Lengths() {
	version := []byte{1, 2, 4, 5}[vs.Int("version", 0, 3)]
	ts := verifTimes(0, 61)
	cd := verifWork(61 + 2*vs.Int("more", 0, 1) - 1)
	height := map[byte]uint32{1: 1000, 2: 100000, 4: 280000, 5: 800000}[version]
	_, err := MainNet().NextDifficulty(height, version, ts, cd)
	vs.Assert(err != nil, "lists of different lengths are given a difficulty")
	vs.Cover("lengths")
}

// The window each version asks for.
//
//verif:harness timeout=30
func VerifC20Counts() {
	v := vs.U8("version")
	want := uint64(375)
	want = vs.IteU64(v == 2, 17, want)
	want = vs.IteU64(vs.Or(v == 3, v == 4), 61, want)
	want = vs.IteU64(v >= 5, 121, want)
	vs.Assert(uint64(MainNet().DifficultyBlocksCountByBlockVersion(v)) == want, "the difficulty window of a version")
	vs.Cover("counts")
}

func verifZMin(a, b vs.Z) vs.Z { return vs.ZIte(a.Le(b), a, b) }
func verifZMax(a, b vs.Z) vs.Z { return vs.ZIte(a.Le(b), b, a) }

// verifLwma is the weighted sum of the solve times of versions 4 and 5: clamped to +-6 targets (LWMA-2) or with
// out-of-order timestamps replaced by one second after the last (LWMA-1 and 3).
func verifLwma(ts []uint64, n int, clampOnly bool, prev vs.Z) (vs.Z, vs.Z) {
	sum, last := vs.ZU(0), vs.ZU(0)
	six := vs.ZU(6 * 240)
	for i := 1; i <= n; i++ {
		t := vs.ZU(ts[i])
		var st vs.Z
		if clampOnly {
			st = verifZMax(vs.ZI(-6*240), verifZMin(t.Sub(vs.ZU(ts[i-1])), six))
		} else {
			t = vs.ZIte(prev.Lt(t), t, prev.Add(vs.ZU(1)))
			st = verifZMin(six, t.Sub(prev))
			prev = t
		}
		sum = sum.Add(st.Mul(vs.ZU(uint64(i))))
		if i > n-3 {
			last = last.Add(st)
		}
	}
	return sum, last
}

func verifV4(ts []uint64, c0, c59, c60 uint64, height uint32) {
	cd := make([]uint64, 61)
	for i := range cd {
		cd[i] = vs.U64("other work")
	}
	cd[0], cd[59], cd[60] = c0, c59, c60
	got, err := MainNet().NextDifficulty(height, 4, append([]uint64{}, ts...), cd)
	vs.Assert(err == nil, "a valid window is refused")
	sum, last := verifLwma(ts, 60, height < 300000, vs.ZU(ts[0]))
	sum = verifZMax(sum, vs.ZU(1))
	work := vs.ZU(cd[60]).Sub(vs.ZU(cd[0]))
	prev := vs.ZU(cd[60]).Sub(vs.ZU(cd[59]))
	next := work.Mul(vs.ZU(240 * 61)).Div(sum.Mul(vs.ZU(2)))
	next = next.Mul(vs.ZU(99)).Div(vs.ZU(100))
	next = verifZMax(prev.Mul(vs.ZU(67)).Div(vs.ZU(100)), verifZMin(next, prev.Mul(vs.ZU(150)).Div(vs.ZU(100))))
	next = vs.ZIte(last.Lt(vs.ZU(192)), prev.Mul(vs.ZU(110)).Div(vs.ZU(100)), next)
	next = verifZMax(next, vs.ZU(verifMinDiff))
	vs.Assert(vs.ZU(got).Eq(next), "version 4 difficulty is not the LWMA of the window")
	vs.Observe("d", got)
}

// Arbitrary work over fixed timestamps.
//
//verif:harness int=1 timeout=60
func VerifC20V4Work() {
	height := []uint32{266001, 299999, 300000, 700000}[vs.Int("height", 0, 3)]
	ts := verifTimes(vs.Int("pattern", 0, 6), 61)
	c0, c59, c60 := vs.U64("c0"), vs.U64("c59"), vs.U64("c60")
	vs.Assume(vs.And(c0 <= c59, c59 <= c60, c60 < 1<<62, c60-c0 < 1<<48))
	verifV4(ts, c0, c59, c60, height)
	vs.Cover("v4")
}

// verifMoved replaces one timestamp by an arbitrary one. The values are split where a solve time starts or stops
// being cut off, so that each case is linear; values between the fifth later block (the sixteenth in the thorough
// run) and a million seconds after the last one are left out.
func verifMoved(ts []uint64, at int, clampOnly bool, prev int64) uint64 {
	var xs []int64
	xs = append(xs, 0, 1<<56)
	add := func(x int64) {
		if x > 0 && x < 1<<56 {
			xs = append(xs, x, x+1)
		}
	}
	last := at
	if clampOnly {
		for _, j := range []int{at - 1, at + 1} {
			if j >= 0 && j < len(ts) {
				add(int64(ts[j]) - 1440)
				add(int64(ts[j]) + 1440)
			}
		}
	} else {
		for j := 1; j < at; j++ {
			if int64(ts[j]) > prev {
				prev = int64(ts[j])
			} else {
				prev++
			}
		}
		if at > 0 {
			add(prev)
			add(prev + 1440)
		}
		last = at + vs.Bound("later blocks the timestamp may overtake", 5, 16)
		for j := at + 1; j < len(ts) && j <= last; j++ {
			add(int64(ts[j]) - int64(j-at-1))
			add(int64(ts[j]) - int64(j-at-1) - 1440)
			if at == 0 {
				// version 5 starts one target before the first block
				add(int64(ts[j]) - int64(j-at-1) + 240)
				add(int64(ts[j]) - int64(j-at-1) + 240 - 1440)
			}
		}
	}
	far := int64(0)
	for _, t := range ts {
		if int64(t) > far {
			far = int64(t)
		}
	}
	far += 1000000
	xs = append(xs, far)
	for i := range xs {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	k := vs.Int("case", 0, len(xs)-2)
	lo, hi := xs[k], xs[k+1]
	vs.Assume(lo < hi)
	if !clampOnly && last < len(ts)-1 && hi == far {
		vs.Assume(false)
	}
	if hi == lo+1 {
		return uint64(lo)
	}
	t := vs.U64("t")
	vs.Assume(vs.And(t >= uint64(lo), t < uint64(hi)))
	return t
}

// One arbitrary timestamp in an otherwise fixed window.
//
//verif:harness int=1 timeout=90 timeout.thorough=400 paths=20000
func VerifC20V4Times() {
	height := []uint32{299999, 300000}[vs.Int("height", 0, 1)]
	ts := verifTimes(vs.Int("pattern", 0, vs.Bound("timestamp patterns", 1, 3)), 61)
	places := []int{59, 60, 58, 57, 0, 1, 30}
	at := places[vs.Int("at", 0, vs.Bound("moved timestamps", 6, 6))]
	ts[at] = verifMoved(ts, at, height < 300000, int64(ts[0]))
	verifV4(ts, 1000000000, 1000000000+59*5000000, 1000000000+60*5000000, height)
	vs.Cover("v4")
}

func verifV5(ts, cd []uint64, height uint32) {
	n := len(ts) - 1
	got, err := MainNet().NextDifficulty(height, 5, append([]uint64{}, ts...), cd)
	vs.Assert(err == nil, "a valid window is refused")
	// right after the upgrade only the blocks of the new epoch count
	if height < 700120 {
		off := int(120 - (height - 700000))
		ts, cd, n = ts[off:], cd[off:], n-off
	}
	if n > 120 {
		n = 120
	}
	N := uint64(n)
	sum, _ := verifLwma(ts, n, false, vs.ZU(ts[0]).Sub(vs.ZU(240)))
	sum = verifZMax(sum, vs.ZU(N*N*240/20))
	avg := vs.ZU(cd[n]).Sub(vs.ZU(cd[0])).Div(vs.ZU(N))
	num := avg.Mul(vs.ZU(N * (N + 1) * 240 * 99))
	// for a small window the published formula divides first so as not to overflow
	big := avg.Div(sum.Mul(vs.ZU(200))).Mul(vs.ZU(N * (N + 1) * 240 * 99))
	next := vs.ZIte(vs.ZU(2000000*N*N*240).Lt(avg), big, num.Div(sum.Mul(vs.ZU(200))))
	round := next
	for i := uint64(10); i <= 1000000000; i *= 10 {
		r := next.Add(vs.ZU(i / 2)).Div(vs.ZU(i)).Mul(vs.ZU(i))
		round = vs.ZIte(vs.ZU(100*i).Lt(next), r, round)
	}
	round = verifZMax(round, vs.ZU(verifMinDiff))
	vs.Assert(vs.ZU(got).Eq(round), "version 5 difficulty is not the rounded LWMA of the window")
	vs.Observe("d", got)
}

// Arbitrary work over fixed timestamps, including the first blocks after the upgrade.
//
//verif:harness int=1 timeout=60
func VerifC20V5Work() {
	heights := []uint32{700001, 700002, 700060, 700118, 700119, 700120, 700121, 4000000}
	height := heights[vs.Int("height", 0, 7)]
	n := 121
	ts := verifTimes(vs.Int("pattern", 0, vs.Bound("timestamp patterns", 3, 6)), n)
	cd := verifWork(n)
	off := 0
	if height < 700120 {
		off = int(120 - (height - 700000))
	}
	vs.Assume(vs.And(cd[off] <= cd[n-1], cd[n-1] < 1<<62, cd[n-1]-cd[off] < uint64(n-1-off)<<34))
	verifV5(ts, cd, height)
	vs.Cover("v5")
}

//verif:harness int=1 timeout=90 timeout.thorough=400 paths=20000
func VerifC20V5Times() {
	n := []int{2, 3, 121}[vs.Int("blocks", 0, 2)]
	ts := verifTimes(vs.Int("pattern", 0, vs.Bound("timestamp patterns", 1, 3)), n)
	places := []int{1, 0, 119, 120, 60}
	at := places[vs.Int("at", 0, vs.Bound("moved timestamps", 4, 4))]
	vs.Assume(at < n)
	ts[at] = verifMoved(ts, at, false, int64(ts[0])-240)
	cd := make([]uint64, n)
	for i := range cd {
		cd[i] = 1000000000 + uint64(i)*123456789
	}
	verifV5(ts, cd, 800000)
	vs.Cover("v5")
}

// The first block of version 5 restarts the difficulty from the average work of the whole chain.
//
//verif:harness int=1 timeout=60
func VerifC20V5Restart() {
	cd := verifWork(121)
	got, err := MainNet().NextDifficulty(700000, 5, verifTimes(0, 121), cd)
	vs.Assert(err == nil, "the first block of version 5 is refused")
	vs.Assert(vs.ZU(got).Eq(vs.ZU(cd[0]).Div(vs.ZU(700000)).Div(vs.ZU(1000))), "the restart difficulty")
	vs.Cover("restart")
}

// Hostile timestamps never crash a version and never push it below the minimum.
//
//verif:harness int=1 timeout=60
func VerifC20Hostile() {
	version := []byte{3, 4, 4, 5}[vs.Int("version", 0, 3)]
	n := 61
	height := map[byte]uint32{3: 220000, 4: 266001 + 40000*uint32(vs.Int("late", 0, 1)), 5: 800000}[version]
	if version == 5 {
		n = 121
	}
	if version == 3 {
		n = []int{61, 60, 5, 4}[vs.Int("short", 0, 3)]
	}
	ts, cd := make([]uint64, n), make([]uint64, n)
	sofar := uint64(1000000)
	for i := range ts {
		ts[i] = vs.U64("t")
		vs.Assume(ts[i] < 1<<56)
		sofar += 1000000
		cd[i] = sofar
	}
	got, err := MainNet().NextDifficulty(height, version, ts, cd)
	vs.Assert(err == nil, "a full window is refused")
	vs.Assert(got >= verifMinDiff, "a difficulty below the minimum")
	vs.Cover("hostile")
}
