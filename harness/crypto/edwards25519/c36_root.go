package edwards25519

import (
	vs "github.com/r3volut1oner/go-karbo/verifsym"
)

//verif:use lib_field.go
//verif:use lib_curve.go
// ASSUME: in VerifC36Power a field element is g^k for a generator g of the multiplicative group and an unknown k; zero, which has no k, is not covered there

// Under the engine a field element is a handle to its logarithm in the multiplicative group, of order p-1.
var verifLogs []vs.Z

func verifLogHandle(z vs.Z) (f FieldElement) {
	verifLogs = append(verifLogs, z)
	f[0] = int32(len(verifLogs) - 1)
	f[8], f[9] = verifMark, verifMark
	return f
}

func verifLogOf(f *FieldElement) vs.Z {
	vs.Assert(f[9] == verifMark, "only powers of the operands are multiplied")
	return verifLogs[f[0]]
}

func verifLogMul(h, f, g *FieldElement) { *h = verifLogHandle(verifLogOf(f).Add(verifLogOf(g))) }

func verifLogSquare(h, f *FieldElement) { *h = verifLogHandle(verifLogOf(f).Mul(vs.ZI(2))) }

func verifBase(name string) (FieldElement, vs.Z) {
	z := verifAny(name)
	if vs.Symbolic() {
		return verifLogHandle(z), z
	}
	vs.Assume(!z.Eq(vs.ZI(0)))
	return verifHandle(z, 101), z
}

// verifPower asserts that r is the product of the powers of the bases.
func verifPower(r *FieldElement, what string, bases []vs.Z, exps []vs.Z) {
	p := vs.ZStr(verifPrime)
	if vs.Symbolic() {
		z := verifLogOf(r)
		for i := range bases {
			z = z.Sub(bases[i].Mul(exps[i]))
		}
		vs.Assert(z.Mod(p.Sub(vs.ZI(1))).Eq(vs.ZI(0)), what)
		return
	}
	z := vs.ZI(1)
	for i := range bases {
		z = z.Mul(verifModPow(bases[i], exps[i]))
	}
	vs.Assert(verifZero(verifVal(r).Sub(z)), what)
}

//verif:harness timeout=300 int=2 try=20 contract=!FeMul:verifLogMul,!FeSquare:verifLogSquare
func VerifC36Power() {
	p := vs.ZStr(verifPrime)
	f, z := verifBase("z")
	var r FieldElement
	FeInvert(&r, &f)
	verifPower(&r, "the inverse is the power p-2", []vs.Z{z}, []vs.Z{p.Sub(vs.ZI(2))})
	e := p.Sub(vs.ZI(5)).Div(vs.ZI(8))
	fePow22523(&r, &f)
	verifPower(&r, "the power is the power (p-5)/8", []vs.Z{z}, []vs.Z{e})
	g, w := verifBase("w")
	feDivPowM1(&r, f, g)
	verifPower(&r, "the candidate root is u v^3 (u v^7)^((p-5)/8)", []vs.Z{z, w}, []vs.Z{e.Add(vs.ZI(1)), e.Mul(vs.ZI(7)).Add(vs.ZI(3))})
	vs.Cover("done")
}
