package main

import (
	"go/token"
)

// intFloat is a float64 known to hold an integer of at most 53 bits, where float arithmetic is exact. The term is
// the integer, 64 bits wide and signed. Everything else about symbolic floats is left open (Opaque).
type intFloat struct{ t *Term }

const exactFloat = 1 << 53

// intFloat converts an integer.
func (in *Interp) intFloat(x *Term, w int, signed bool) Value {
	if w < 64 {
		if signed {
			x = in.ctx.Sext(x, 64)
		} else {
			x = in.ctx.Zext(x, 64)
		}
	} else if !signed && !in.mustHold(in.ctx.Ule(x, in.ctx.BV(exactFloat, 64))) {
		return &Opaque{"int to float"}
	}
	return in.exact(x)
}

// exact tells whether a 64 bit signed integer is small enough.
func (in *Interp) exact(x *Term) Value {
	lo, hi := in.ctx.Neg(in.ctx.BV(exactFloat, 64)), in.ctx.BV(exactFloat, 64)
	if !in.mustHold(in.ctx.And(in.ctx.Sle(lo, x), in.ctx.Sle(x, hi))) {
		return &Opaque{"int to float"}
	}
	return intFloat{x}
}

func (in *Interp) asIntFloat(v Value) (*Term, bool) {
	switch v := v.(type) {
	case intFloat:
		return v.t, true
	case float64:
		if v >= -exactFloat && v <= exactFloat && v == float64(int64(v)) {
			return in.ctx.BV(uint64(int64(v)), 64), true
		}
	}
	return nil, false
}

func (in *Interp) iteFloat(c *Term, a, b Value) Value {
	x, okx := in.asIntFloat(a)
	y, oky := in.asIntFloat(b)
	if !okx || !oky {
		return &Opaque{"float"}
	}
	return intFloat{in.ctx.Ite(c, x, y)}
}

func (in *Interp) floatOp(op token.Token, a, b Value) Value {
	x, okx := in.asIntFloat(a)
	y, oky := in.asIntFloat(b)
	if !okx || !oky {
		return &Opaque{"float"}
	}
	c := in.ctx
	switch op {
	case token.ADD:
		return in.exact(c.Add(x, y))
	case token.SUB:
		return in.exact(c.Sub(x, y))
	case token.EQL:
		return simp(c.Eq(x, y))
	case token.LSS:
		return simp(c.Slt(x, y))
	case token.LEQ:
		return simp(c.Sle(x, y))
	case token.GTR:
		return simp(c.Slt(y, x))
	case token.GEQ:
		return simp(c.Sle(y, x))
	}
	return &Opaque{"float"}
}
