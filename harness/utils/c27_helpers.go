package utils

import vs "github.com/r3volut1oner/go-karbo/verifsym"

// rank assertions that define the k-th smallest element (0-based) of sl without sorting it.
func verifIsRank(sl []uint64, k int, v uint64) bool {
	below, atMost := uint64(0), uint64(0)
	for _, x := range sl {
		below += vs.IteU64(x < v, 1, 0)
		atMost += vs.IteU64(x <= v, 1, 0)
	}
	return vs.And(below <= uint64(k), uint64(k) < atMost)
}

//verif:harness timeout=100
func VerifC27Median() {
	n := vs.Int("n", 0, vs.Bound("elements", 4, 4))
	sl := make([]uint64, n)
	for i := range sl {
		sl[i] = vs.U64("x")
	}
	in := append([]uint64{}, sl...)
	m := MedianSlice(sl)
	switch {
	case n == 0:
		vs.Assert(m == 0, "median of nothing")
		vs.Cover("empty")
	case n%2 == 1:
		vs.Assert(verifIsRank(in, n/2, m), "median is not the middle value")
		vs.Cover("odd")
	default:
		// the middle two are found by rank: a is a value of the input with rank n/2-1, b with rank n/2
		var a, b uint64
		for _, x := range in {
			a = vs.IteU64(verifIsRank(in, n/2-1, x), x, a)
			b = vs.IteU64(verifIsRank(in, n/2, x), x, b)
		}
		// floor((a+b)/2) without overflow: a&b + (a^b)/2
		vs.Assert(m == (a&b)+(a^b)>>1, "median is not the floor of the mean of the middle two")
		vs.Cover("even")
	}
	vs.Observe("m", m)
}

// Longer lists: any sorted list placed in any order.
//
//verif:harness timeout=100 paths=6000
func VerifC27MedianPermuted() {
	n := vs.Int("n", 5, 5)
	sorted := make([]uint64, n)
	for i := range sorted {
		sorted[i] = vs.U64("x")
		vs.Assume(i == 0 || sorted[i-1] <= sorted[i])
	}
	sl := make([]uint64, n)
	free := make([]int, n)
	for i := range free {
		free[i] = i
	}
	for _, x := range sorted {
		k := vs.Int("at", 0, len(free)-1)
		sl[free[k]] = x
		free = append(free[:k:k], free[k+1:]...)
	}
	m := MedianSlice(sl)
	want := sorted[n/2]
	if n%2 == 0 {
		a, b := sorted[n/2-1], sorted[n/2]
		want = (a & b) + (a^b)>>1
	}
	vs.Assert(m == want, "median of a permuted list")
	vs.Cover("permuted")
}

//verif:harness timeout=30
func VerifC27Clamp() {
	lo, v, hi := int64(vs.U64("lo")), int64(vs.U64("v")), int64(vs.U64("hi"))
	vs.Assume(lo <= hi)
	r := ClampInt64(lo, v, hi)
	vs.Assert(lo <= r && r <= hi, "outside the interval")
	vs.Assert(v < lo || v > hi || r == v, "changed a value inside the interval")
	vs.Assert(v >= lo || r == lo, "not the lower end")
	vs.Assert(v <= hi || r == hi, "not the upper end")
	vs.Cover("clamp")
}

//verif:harness timeout=30
func VerifC27MinMax() {
	a, b := vs.U64("a"), vs.U64("b")
	vs.Assert(MinUint64(a, b) == vs.IteU64(a < b, a, b), "MinUint64")
	vs.Assert(MaxUint64(a, b) == vs.IteU64(a < b, b, a), "MaxUint64")
	x, y := int64(a), int64(b)
	vs.Assert(MinInt64(x, y) == int64(vs.IteU64(x < y, a, b)), "MinInt64")
	vs.Assert(MaxInt64(x, y) == int64(vs.IteU64(x < y, b, a)), "MaxInt64")
	vs.Cover("minmax")
}

//verif:harness timeout=60
func VerifC27Slices() {
	n := vs.Int("n", 0, vs.Bound("elements", 4, 6))
	s := make([]uint32, n)
	for i := range s {
		s[i] = vs.U32("x")
	}
	uniq, sorted := true, true
	for i := range s {
		for j := 0; j < i; j++ {
			uniq = vs.And(uniq, s[i] != s[j])
		}
		if i > 0 {
			sorted = vs.And(sorted, s[i-1] <= s[i])
		}
	}
	in := append([]uint32{}, s...)
	vs.Assert(SliceIsUniqueUint32(&s) == uniq, "uniqueness")
	vs.Assert(SliceIsSortedUint32(&s) == sorted, "sortedness")
	vs.Assert(vs.Same(in, s), "the slice was changed")
	vs.Cover("slices")
}

//verif:harness timeout=30
func VerifC27Reverse() {
	n := vs.Int("n", 0, vs.Bound("elements", 7, 12))
	s := make([]uint64, n)
	for i := range s {
		s[i] = vs.U64("x")
	}
	in := append([]uint64{}, s...)
	r := SliceReverse(s)
	vs.Assert(len(r) == n, "length")
	for i := range r {
		vs.Assert(r[i] == in[n-1-i], "not reversed")
	}
	vs.Cover("reverse")
}

// Long lists with one element that is arbitrary.
//
//verif:harness timeout=60 timeout.thorough=600
func VerifC27Long() {
	n := []int{13, 100, 12, 60, 61, 99, 200}[vs.Int("n", 0, vs.Bound("lists", 1, 6))]
	scale := []uint64{1 << 54, 1}[vs.Int("scale", 0, vs.Bound("scales", 0, 1))]
	order := vs.Int("order", 0, 2) // rising, falling, mixed
	sl := make([]uint64, n)
	for i := range sl {
		switch order {
		case 0:
			sl[i] = scale * uint64(2*i+1)
		case 1:
			sl[i] = scale * uint64(2*(n-i)+1)
		case 2:
			sl[i] = scale * uint64(i*37%n*2+1)
		}
	}
	// the others in order
	rest := make([]uint64, 0, n)
	at := []int{n / 3, 0, n - 1}[vs.Int("at", 0, vs.Bound("positions", 0, 2))]
	for i, x := range sl {
		if i == at {
			continue
		}
		k := len(rest)
		rest = append(rest, x)
		for k > 0 && rest[k-1] > x {
			rest[k] = rest[k-1]
			k--
		}
		rest[k] = x
	}
	place := vs.Int("place", 0, n-1)
	if d := place - n/2; d*d > 4 && place > 0 && place < n-1 && place%vs.Bound("places", 30, 5) != 0 {
		return
	}
	x := vs.U64("x")
	if place < n-1 && vs.Int("tie", 0, 1) == 1 {
		x = rest[place]
	} else {
		vs.Assume((place == 0 || rest[place-1] < x) && (place == n-1 || x < rest[place]))
	}
	sl[at] = x
	in := append([]uint64{}, sl...)
	rest = append(rest, 0)
	copy(rest[place+1:], rest[place:])
	rest[place] = x
	want := rest[n/2]
	if n%2 == 0 {
		a, b := rest[n/2-1], want
		want = (a & b) + (a^b)>>1
	}
	r := SliceReverse(sl)
	for i := range in {
		vs.Assert(r[n-1-i] == in[i], "not reversed")
	}
	vs.Assert(MedianSlice(append([]uint64{}, in...)) == want, "median of a long list")
	vs.Cover("long")
}

//verif:harness timeout=60 timeout.thorough=300
func VerifC27LongSlices() {
	n := vs.Bound("long", 40, 300)
	s := make([]uint32, n)
	step := []uint32{1, 1 << 23}[vs.Int("scale", 0, 1)]
	for i := range s {
		s[i] = step * uint32(i+1)
	}
	swap := vs.Int("swap", 0, 2)
	if swap > 0 {
		i := []int{0, n / 2, n - 2}[swap-1+vs.Int("later", 0, 1)]
		s[i], s[i+1] = s[i+1], s[i]
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[vs.Int("at", 0, 4)]
	s[at] = vs.U32("x")
	uniq, sorted := true, true
	for i := range s {
		uniq = vs.And(uniq, i == at || s[i] != s[at])
		if i > 0 {
			sorted = vs.And(sorted, s[i-1] <= s[i])
		}
	}
	vs.Assert(SliceIsUniqueUint32(&s) == uniq, "uniqueness")
	vs.Assert(SliceIsSortedUint32(&s) == sorted, "sortedness")
	vs.Cover("long")
}
