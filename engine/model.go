package main

import (
	"math/big"
	"strings"
)

// MV is a model value: u for widths up to 64 (and bools), b for wider vectors and integers.
type MV struct {
	u uint64
	b *big.Int
}

func (v MV) big() *big.Int {
	if v.b != nil {
		return v.b
	}
	return new(big.Int).SetUint64(v.u)
}
func mkMV(v *big.Int, w int) MV {
	if w == WInt {
		return MV{b: v}
	}
	if w > 64 {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return MV{b: new(big.Int).Mod(v, m)}
	}
	if w == WBool {
		return MV{u: v.Uint64()}
	}
	m := new(big.Int).And(v, new(big.Int).SetUint64(maskw(w)))
	return MV{u: m.Uint64()}
}

// Model assigns variables by name; missing variables are zero. uf overrides uninterpreted results.
type Model struct {
	vals map[string]MV
	uf   map[string]MV
	memo map[*Term]MV
}

func NewModel() *Model {
	return &Model{vals: map[string]MV{}, uf: map[string]MV{}, memo: map[*Term]MV{}}
}
func (m *Model) clone() *Model {
	n := NewModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range m.uf {
		n.uf[k] = v
	}
	return n
}

func zeroMV(w int) MV {
	if w == WInt || w > 64 {
		return MV{b: new(big.Int)}
	}
	return MV{}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ufDefault supplies the value of an uninterpreted application not fixed by the solver.
func ufDefault(t *Term, key string) MV {
	h := keccak256([]byte(key))
	return mkMV(new(big.Int).SetBytes(h[:]), t.w)
}

func (m *Model) Eval(t *Term) MV {
	if t.op == OConst {
		if t.big != nil {
			return MV{b: t.big}
		}
		return MV{u: t.u}
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval1(t)
	m.memo[t] = v
	return v
}
func (m *Model) Bool(t *Term) bool { return m.Eval(t).u == 1 }

func sx(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	s := uint(64 - w)
	return int64(u<<s) >> s
}

func (m *Model) eval1(t *Term) MV {
	switch t.op {
	case OVar:
		if v, ok := m.vals[t.name]; ok {
			return v
		}
		return zeroMV(t.w)
	case ONot:
		return MV{u: 1 - m.Eval(t.args[0]).u}
	case OAnd:
		for _, a := range t.args {
			if m.Eval(a).u == 0 {
				return MV{u: 0}
			}
		}
		return MV{u: 1}
	case OIte:
		if m.Eval(t.args[0]).u == 1 {
			return m.Eval(t.args[1])
		}
		return m.Eval(t.args[2])
	case OTab:
		return MV{u: t.tab[m.Eval(t.args[0]).u]}
	case OApp:
		var sb strings.Builder
		sb.WriteString(t.name)
		for _, a := range t.args {
			sb.WriteByte('|')
			sb.WriteString(m.Eval(a).big().Text(62))
		}
		key := sb.String()
		if v, ok := m.uf[key]; ok {
			return v
		}
		return ufDefault(t, key)
	case OKeccak:
		in := make([]byte, len(t.args))
		for i, a := range t.args {
			in[i] = byte(m.Eval(a).u)
		}
		if v, ok := m.uf["keccak"+string(in)]; ok {
			return v
		}
		d := keccak256(in)
		return MV{b: new(big.Int).SetBytes(d[:])}
	}
	w := t.w
	small := w <= 64 && w >= 0
	for _, a := range t.args {
		if a.w > 64 || a.w == WInt {
			small = false
		}
	}
	if small {
		a := m.Eval(t.args[0]).u
		aw := t.args[0].w
		mask := maskw(w)
		switch t.op {
		case OConcat:
			r := uint64(0)
			for _, x := range t.args {
				r = r<<uint(x.w) | m.Eval(x).u
			}
			return MV{u: r}
		case OExtract:
			return MV{u: a >> uint(t.lo) & mask}
		case OSext:
			return MV{u: uint64(sx(a, aw)) & mask}
		case OBNot:
			return MV{u: ^a & mask}
		case ONeg:
			return MV{u: -a & mask}
		case OAdd, OBAnd, OBOr, OBXor:
			r := a
			for _, x := range t.args[1:] {
				v := m.Eval(x).u
				switch t.op {
				case OAdd:
					r += v
				case OBAnd:
					r &= v
				case OBOr:
					r |= v
				case OBXor:
					r ^= v
				}
			}
			return MV{u: r & mask}
		}
		if len(t.args) == 2 {
			b := m.Eval(t.args[1]).u
			switch t.op {
			case OEq:
				return MV{u: b2u(a == b)}
			case OUlt:
				return MV{u: b2u(a < b)}
			case OUle:
				return MV{u: b2u(a <= b)}
			case OSlt:
				return MV{u: b2u(sx(a, aw) < sx(b, aw))}
			case OSle:
				return MV{u: b2u(sx(a, aw) <= sx(b, aw))}
			case OSub:
				return MV{u: (a - b) & mask}
			case OMul:
				return MV{u: (a * b) & mask}
			case OUdiv:
				if b == 0 {
					return MV{u: mask}
				}
				return MV{u: a / b}
			case OUrem:
				if b == 0 {
					return MV{u: a}
				}
				return MV{u: a % b}
			case OShl:
				if b >= uint64(w) {
					return MV{}
				}
				return MV{u: a << b & mask}
			case OLshr:
				if b >= uint64(w) {
					return MV{}
				}
				return MV{u: a >> b}
			case OAshr:
				if b >= uint64(w) {
					b = uint64(w - 1)
				}
				return MV{u: uint64(sx(a, w)>>b) & mask}
			}
		}
	}
	// general path on big integers
	arg := func(i int) *big.Int { return m.Eval(t.args[i]).big() }
	r := new(big.Int)
	switch t.op {
	case OConcat:
		for _, x := range t.args {
			r.Lsh(r, uint(x.w))
			r.Or(r, m.Eval(x).big())
		}
	case OExtract:
		r.Rsh(arg(0), uint(t.lo))
	case OSext:
		r.Set(toSigned(arg(0), t.args[0].w))
	case OBNot:
		r.Not(arg(0))
	case ONeg:
		r.Neg(arg(0))
	case OAdd, OIAdd:
		for i := range t.args {
			r.Add(r, arg(i))
		}
	case OIMul, OMul:
		r.SetInt64(1)
		for i := range t.args {
			r.Mul(r, arg(i))
		}
	case OBAnd:
		r.And(arg(0), arg(1))
	case OBOr:
		r.Or(arg(0), arg(1))
	case OBXor:
		r.Xor(arg(0), arg(1))
	case OSub:
		r.Sub(arg(0), arg(1))
	case OUdiv:
		if arg(1).Sign() == 0 {
			r.SetInt64(-1)
		} else {
			r.Quo(arg(0), arg(1))
		}
	case OUrem:
		if arg(1).Sign() == 0 {
			r.Set(arg(0))
		} else {
			r.Rem(arg(0), arg(1))
		}
	case OSdiv, OSrem:
		x, y := toSigned(arg(0), w), toSigned(arg(1), w)
		if y.Sign() == 0 {
			if t.op == OSrem {
				r.Set(x)
			} else if x.Sign() < 0 {
				r.SetInt64(1)
			} else {
				r.SetInt64(-1)
			}
		} else if t.op == OSdiv {
			r.Quo(x, y)
		} else {
			r.Rem(x, y)
		}
	case OShl, OLshr, OAshr:
		k := arg(1)
		n := uint(w)
		if k.IsUint64() && k.Uint64() < uint64(w) {
			n = uint(k.Uint64())
		}
		switch t.op {
		case OShl:
			r.Lsh(arg(0), n)
		case OLshr:
			r.Rsh(arg(0), n)
		default:
			r.Rsh(toSigned(arg(0), w), n)
		}
	case OEq:
		return MV{u: b2u(arg(0).Cmp(arg(1)) == 0)}
	case OUlt, OILt:
		return MV{u: b2u(arg(0).Cmp(arg(1)) < 0)}
	case OUle, OILe:
		return MV{u: b2u(arg(0).Cmp(arg(1)) <= 0)}
	case OSlt:
		aw := t.args[0].w
		return MV{u: b2u(toSigned(arg(0), aw).Cmp(toSigned(arg(1), aw)) < 0)}
	case OSle:
		aw := t.args[0].w
		return MV{u: b2u(toSigned(arg(0), aw).Cmp(toSigned(arg(1), aw)) <= 0)}
	case OIDiv:
		if arg(1).Sign() != 0 {
			r = floorDiv(arg(0), arg(1))
		}
	case OIMod:
		if arg(1).Sign() != 0 {
			r = floorMod(arg(0), arg(1))
		}
	case OU2I:
		r.Set(arg(0))
	case OS2I:
		r.Set(toSigned(arg(0), t.args[0].w))
	default:
		panic("eval op " + opNames[t.op])
	}
	return mkMV(r, w)
}
