package main

// Turning solver models into native runs.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

func modelValues(m *Model) map[string]string {
	out := map[string]string{}
	for k, v := range m.vals {
		if k == "!uf" {
			continue
		}
		out[k] = v.big().String()
	}
	return out
}

// substitute rebuilds t under a mapping.
func (c *Ctx) substitute(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.substitute(a, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		switch t.op {
		case ONot:
			r = c.Not(as[0])
		case OAnd:
			r = c.And(as...)
		case OIte:
			r = c.Ite(as[0], as[1], as[2])
		case OEq:
			r = c.Eq(as[0], as[1])
		case OUlt:
			r = c.Ult(as[0], as[1])
		case OUle:
			r = c.Ule(as[0], as[1])
		case OSlt:
			r = c.Slt(as[0], as[1])
		case OSle:
			r = c.Sle(as[0], as[1])
		case OConcat:
			r = c.Concat(as...)
		case OExtract:
			r = c.Extract(as[0], t.hi, t.lo)
		case OKeccak:
			r = c.Keccak(as)
		case OApp:
			r = c.App(t.name, t.w, as...)
		default:
			n := *t
			n.args = as
			n.vs = nil
			n.hasKec = false
			r = c.mk(&n)
		}
	}
	memo[t] = r
	return r
}

// realize finds a model of pc in which every hash has its real value; nil if none was found.
func (in *Interp) realize(pc []*Term, m *Model) *Model {
	return in.realizeT(pc, m)
}

func (in *Interp) realizeT(pc []*Term, m *Model) *Model {
	ok := func(m *Model) bool {
		n := m.clone()
		n.uf = map[string]MV{}
		for _, c := range pc {
			if !n.Bool(c) {
				return false
			}
		}
		return true
	}
	if ok(m) {
		return m
	}
	cs := append([]*Term(nil), pc...)
	cur := m
	for round := 0; round < 40; round++ {
		// innermost hash applications
		var inner []*Term
		seen := map[*Term]bool{}
		var rec func(t *Term) bool // contains keccak
		rec = func(t *Term) bool {
			if !t.hasKec {
				return false
			}
			if seen[t] {
				return true
			}
			seen[t] = true
			has := false
			for _, a := range t.args {
				if rec(a) {
					has = true
				}
			}
			if t.op == OKeccak && !has {
				inner = append(inner, t)
			}
			return true
		}
		for _, c := range cs {
			rec(c)
		}
		if len(inner) == 0 {
			break
		}
		memo := map[*Term]*Term{}
		var pins []*Term
		for _, k := range inner {
			data := make([]byte, len(k.args))
			for i, a := range k.args {
				data[i] = byte(cur.Eval(a).u)
				pins = append(pins, in.ctx.Eq(a, in.ctx.BV(uint64(data[i]), 8)))
			}
			d := keccak256(data)
			memo[k] = in.ctx.BVBytes(d[:])
		}
		var next []*Term
		for _, c := range cs {
			x := in.ctx.substitute(c, memo)
			if x.isFalse() {
				return nil
			}
			if !x.isTrue() {
				next = append(next, x)
			}
		}
		next = append(next, pins...)
		res, nm := in.solve(next, cur, false)
		if res != Sat {
			return nil
		}
		cs, cur = next, nm
		if ok(cur) {
			return cur
		}
	}
	if ok(cur) {
		return cur
	}
	return nil
}

func confirmViolations(r *hResult, n *Native, prog *Program) {
	ex := r.ex
	defer func() {
		if len(r.confirmed) == 0 {
			tryNative(r, n)
		}
	}()
	if len(ex.violations) == 0 {
		return
	}
	// the explorer's deadline is over; give the realisation its own
	saved := ex.deadline
	ex.deadline = time.Now().Add(30 * time.Second)
	defer func() { ex.deadline = saved }()
	groups := map[string][]*Violation{}
	var keys []string
	for _, v := range ex.violations {
		k := v.Kind + "|" + v.Msg + "|" + v.Pos
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], v)
	}
	sort.Strings(keys)
	for _, k := range keys {
		done := false
		why := ""
		for _, v := range groups[k] {
			m := v.model
			if v.in != nil {
				in := v.in
				in.ex = ex
				if x := in.realize(v.pc, v.model); x != nil {
					m = x
				} else {
					why = "the hash values of the model could not be realised"
				}
			}
			rp := Replay{Property: *flagProp, Harness: r.h.Name, Pkg: r.h.Pkg, Kind: v.Kind, Msg: v.Msg, Pos: v.Pos, Values: modelValues(m), Bounds: ex.bounds}
			if v.mapOrd {
				rp.Repeat = 400
			}
			o := n.run([]Replay{rp}, 20*time.Second)[0]
			if confirms(v.Kind, v.Msg, o) {
				rp.Note = o.Result + ": " + o.Msg
				r.confirmed = append(r.confirmed, &rp)
				done = true
				break
			}
			if debugPanics {
				fmt.Printf("unconfirmed replay: %+v\n  values %v\n", o, rp.Values)
			}
			if why == "" || o.Result != "skip" {
				why = "native result " + o.Result + " " + o.Msg
			}
		}
		if !done {
			r.unconf = append(r.unconf, k+" ("+why+")")
		}
	}
	for _, v := range ex.violations {
		if v.in != nil {
			v.in.close()
		}
	}
}

// tryNative looks for a native failure of an assertion that has no confirmed model among variations of the models.
func tryNative(r *hResult, n *Native) {
	ex := r.ex
	x := uint64(88172645463325252)
	rnd := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x >> 5
	}
	done := map[string]bool{}
	for _, t := range ex.tries {
		if done[t.kind+t.msg+t.pos] {
			continue
		}
		var rps []Replay
		for round := 0; round < ex.cfg.Try; round++ {
			vals := map[string]string{}
			for k, v := range t.vals {
				if k != "!uf" {
					vals[k] = v.big().String()
				}
			}
			for _, i := range t.inputs {
				if i.pick || round == 0 {
					continue
				}
				v := new(big.Int)
				for k := 0; k < i.w; k += 32 {
					v.Lsh(v, 32)
					v.Or(v, new(big.Int).SetUint64(rnd()&(1<<32-1)))
				}
				v.Rsh(v, uint((32-i.w%32)%32))
				if round%4 == 3 {
					switch rnd() % 4 {
					case 0:
						v.SetInt64(0)
					case 1:
						v.SetInt64(1)
					case 2:
						v.Sub(v.Lsh(big.NewInt(1), uint(i.w)), big.NewInt(1))
					}
				}
				vals[i.name] = v.String()
			}
			rps = append(rps, Replay{Property: *flagProp, Harness: r.h.Name, Pkg: r.h.Pkg, Kind: t.kind, Msg: t.msg, Pos: t.pos, Values: vals, Bounds: ex.bounds})
		}
		for i, o := range n.run(rps, 60*time.Second) {
			if confirms(t.kind, t.msg, o) {
				rps[i].Note = o.Result + ": " + o.Msg
				if o.Result == "assert" {
					rps[i].Msg = o.Msg
				}
				r.confirmed = append(r.confirmed, &rps[i])
				done[t.kind+t.msg+t.pos] = true
				break
			}
		}
	}
}

func confirms(kind, msg string, o NativeOut) bool {
	switch o.Result {
	case "assert", "panic", "fatal":
		return true
	case "alloc":
		return kind == "alloc"
	case "timeout":
		return kind == "deadlock" || kind == "hang" || kind == "alloc" || kind == "fatal"
	}
	return false
}

func obsString(v Value) string {
	switch v := v.(type) {
	case uint64:
		return fmt.Sprint(v)
	case bool:
		return fmt.Sprint(v)
	case rawStr:
		return string(v)
	case string:
		return hex.EncodeToString([]byte(v))
	case iface:
		if v.t == nil {
			return "nil"
		}
		return "value"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "ptr"
	}
	return "?"
}

func validateSamples(r *hResult, n *Native) {
	ex := r.ex
	if len(ex.samples) == 0 {
		return
	}
	var cases []Replay
	saved := ex.deadline
	ex.deadline = time.Now().Add(15 * time.Second)
	defer func() { ex.deadline = saved }()
	var keep []PathRecord
	for _, s := range ex.samples {
		kec := false
		for _, c := range s.pc {
			kec = kec || c.hasKec
		}
		if kec {
			m := s.in.realize(s.pc, s.model)
			if m == nil {
				r.skipped++
				continue
			}
			s.model = m
		}
		s.model = s.model.clone()
		s.model.uf = map[string]MV{}
		keep = append(keep, s)
	}
	ex.samples = keep
	if len(keep) == 0 {
		return
	}
	for _, s := range ex.samples {
		cases = append(cases, Replay{Property: *flagProp, Harness: r.h.Name, Pkg: r.h.Pkg, Kind: "sample", Values: modelValues(s.model), Bounds: ex.bounds})
	}
	outs := n.run(cases, 30*time.Second)
	for i, s := range ex.samples {
		o := outs[i]
		switch o.Result {
		case "assert", "panic", "fatal", "alloc":
			cases[i].Kind, cases[i].Msg, cases[i].Pos = o.Result, o.Msg, "native run of an explored path"
			if known := sameGroup(r, o); known {
				continue
			}
			cases[i].Note = "found while replaying an explored path natively"
			if debugPanics {
				fmt.Printf("native sample failed: %+v %v\n", o, cases[i].Values)
			}
			r.mismatch = append(r.mismatch, "explored path is fine, native run says "+o.Result+": "+o.Msg)
			c := cases[i]
			r.confirmed = append(r.confirmed, &c)
		case "ok":
			if s.mapOrd {
				r.validated++
				continue
			}
			want := []string{}
			for _, ob := range s.observe {
				var ps []string
				for _, v := range ob.Vals {
					ps = append(ps, obsString(concreteOf(s.model, v)))
				}
				want = append(want, ob.Tag+":"+strings.Join(ps, ","))
			}
			a, b := strings.Join(s.covers, ";")+"|"+strings.Join(want, ";"), strings.Join(o.Covers, ";")+"|"+strings.Join(o.Observe, ";")
			if a != b {
				r.mismatch = append(r.mismatch, fmt.Sprintf("symbolic %s, native %s", clip(a), clip(b)))
			} else {
				r.validated++
			}
		case "skip":
			r.skipped++
		default:
			r.mismatch = append(r.mismatch, "native "+o.Result+" "+o.Msg)
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func sameGroup(r *hResult, o NativeOut) bool {
	for _, c := range r.confirmed {
		if c.Msg == o.Msg {
			return true
		}
	}
	return false
}
