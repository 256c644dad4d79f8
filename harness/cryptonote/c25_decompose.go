package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

// verifDigits writes amount as a sum of digit*10^k with one free variable per digit; the
// representation exists and is unique for every 64-bit amount (the top digit is 0 or 1).
func verifDigits(first, max int) (uint64, []uint64) {
	amount, pow := uint64(0), uint64(1)
	for k := 0; k < first; k++ {
		pow *= 10
	}
	var ds []uint64
	for k := first; k < max; k++ {
		d := uint64(vs.U8("digit"))
		vs.Assume(d < 10)
		ds = append(ds, d*pow)
		amount += d * pow
		pow *= 10
	}
	return amount, ds
}

// ASSUME: VerifC25Decompose covers amounts with up to the stated number of decimal digits, VerifC25High amounts of up to 20 digits with three nonzero neighbouring digits and an optional leading one; the dust threshold is any 64-bit value
//
//verif:harness int=1 timeout=120 timeout.thorough=400
func VerifC25Decompose() {
	amount, digits := verifDigits(0, vs.Bound("digits", 6, 9))
	verifDecompose(amount, digits)
}

//verif:harness int=1 timeout=120 timeout.thorough=400 paths=8000
func VerifC25High() {
	first := vs.Int("first", 1, 16)
	amount, digits := verifDigits(first, first+vs.Bound("neighbouring digits", 2, 3))
	if vs.Bool("top") {
		amount += 10000000000000000000
		vs.Assume(amount >= 10000000000000000000) // 64 bits
		digits = append(digits, 10000000000000000000)
	}
	verifDecompose(amount, digits)
}

func verifDecompose(amount uint64, digits []uint64) {
	dustThreshold := vs.U64("dust")
	chunks, dusts := DecomposeAmountIntoDigits(amount, dustThreshold)
	vs.Assert(len(dusts) <= 1, "more than one dust value")
	sum := uint64(0)
	for _, c := range chunks {
		isDigit := false
		for _, d := range digits {
			isDigit = vs.Or(isDigit, vs.And(c == d, d != 0))
		}
		vs.Assert(isDigit, "a chunk is not a decimal digit of the amount times its power of ten")
		sum += c
	}
	for _, d := range dusts {
		vs.Assert(d <= dustThreshold, "dust above the threshold")
		vs.Assert(d != 0, "zero dust")
		sum += d
	}
	low, dust, got := uint64(0), uint64(0), uint64(0)
	for _, d := range digits {
		low += d
		dust = vs.IteU64(low <= dustThreshold, low, dust)
	}
	for _, d := range dusts {
		got += d
	}
	vs.Assert(got == dust, "the dust is not the largest run of low digits within the threshold")
	vs.Assert(sum == amount, "the parts do not sum to the amount")
	vs.Cover("decomposed")
	vs.Observe("parts", chunks, dusts)
}

// Every amount that is not a multiple-digit number is one chunk; classification agrees.
//
//verif:harness timeout=60
func VerifC25Pretty() {
	amount := vs.U64("amount")
	pretty := false
	pow := uint64(1)
	for k := 0; k < 20; k++ {
		for d := uint64(1); d < 10; d++ {
			if k == 19 && d > 1 {
				break
			}
			pretty = vs.Or(pretty, amount == d*pow)
		}
		pow *= 10
	}
	vs.Assert(config.MainNet().IsValidDecomposedAmount(amount) == pretty, "classification of a decomposed amount is wrong")
	vs.Cover("pretty")
}
