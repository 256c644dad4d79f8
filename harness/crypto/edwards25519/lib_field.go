package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

const verifPrime = "57896044618658097711785492504343953926634992332820282019728792003956564819949"

var verifShift = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// verifElement is a field element whose limbs are within num/100 of 2^25 and 2^24.
func verifElement(name string, num int64) (f FieldElement) {
	for i := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		x := int32(vs.U32(name + "[" + string(rune('0'+i)) + "]"))
		vs.Assume(int64(x) <= b)
		vs.Assume(int64(x) >= -b)
		f[i] = x
	}
	return
}

func verifBounded(f *FieldElement, num int64, what string) {
	for i := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		vs.Assert(vs.And(int64(f[i]) <= b, int64(f[i]) >= -b), what)
	}
}

func verifPow(k uint) vs.Z {
	z := vs.ZI(1)
	for ; k >= 32; k -= 32 {
		z = z.Mul(vs.ZI(1 << 32))
	}
	return z.Mul(vs.ZI(1 << k))
}

func verifVal(f *FieldElement) vs.Z {
	z := vs.ZI(0)
	for i := range f {
		z = z.Add(vs.ZI(int64(f[i])).Mul(verifPow(verifShift[i])))
	}
	return z
}

func verifSame(f *FieldElement, z vs.Z, what string) {
	p := vs.ZStr(verifPrime)
	vs.Assert(verifVal(f).Mod(p).Eq(z.Mod(p)), what)
	vs.Cover("done")
}
