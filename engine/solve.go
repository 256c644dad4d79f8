package main

// Solver portfolio: an incremental z3 process per worker, then a race of other back ends.

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

var fallbackSem = make(chan struct{}, 3)

// queryWidth classifies a query: whether it mixes integers.
type qinfo struct {
	ints bool // any mathematical-integer term
	conv bool // bit vector to integer conversions
	muls bool // symbolic multiplication or division
	hard bool
}

func inspect(cs []*Term) qinfo {
	var q qinfo
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.w == WInt {
			q.ints = true
		}
		switch t.op {
		case OU2I, OS2I:
			q.conv = true
		case OMul, OUdiv, OUrem, OSdiv, OSrem, OIMul, OIDiv, OIMod:
			q.muls = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, c := range cs {
		rec(c)
	}
	return q
}

func (in *Interp) proc(name string, argv ...string) *Proc {
	p := in.procs[name]
	if p == nil || p.dead || p.count > 3000 {
		if p != nil {
			p.kill()
		}
		np, err := startProc(argv)
		if err != nil {
			panic(pathEnd{"unsupported", "solver start: " + err.Error()})
		}
		in.procs[name] = np
		p = np
	}
	return p
}

func entOf(sc *Script, r Result, vals map[string]*big.Int) *cacheEnt {
	ent := &cacheEnt{res: r}
	if r == Sat {
		m := NewModel()
		sc.applyModel(m, vals)
		ent.vals, ent.uf = m.vals, m.uf
	}
	return ent
}

func (in *Interp) solveRaw(cs []*Term, important bool) *cacheEnt {
	qi := inspect(cs)
	cfg := in.ex.cfg
	remain := time.Until(in.ex.deadline)
	if remain < 50*time.Millisecond {
		return &cacheEnt{res: Unknown}
	}
	lim := func(ms int) int {
		if r := int(time.Until(in.ex.deadline) / time.Millisecond); ms > r {
			return max(r, 50)
		}
		return ms
	}
	useInt := qi.ints || (cfg.IntMode && qi.muls)
	if useInt {
		if ent := in.solveInt(cs, lim(cfg.QueryMS)); ent != nil && ent.res != Unknown {
			return ent
		}
	}
	sc := render(cs)
	if !qi.ints {
		r, vals := in.proc("z3", "z3-new", "-in").runQuery(sc, lim(cfg.QueryMS), false)
		if r != Unknown {
			return entOf(sc, r, vals)
		}
	}
	if cfg.FallbackMS <= 0 {
		return &cacheEnt{res: Unknown}
	}
	// race
	fallbackSem <- struct{}{}
	defer func() { <-fallbackSem }()
	statFallback.Add(1)
	type ans struct {
		ent *cacheEnt
		who string
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim(cfg.FallbackMS))*time.Millisecond)
	defer cancel()
	ch := make(chan ans, 8)
	n := 0
	launch := func(who string, sc *Script, argv ...string) {
		n++
		go func() {
			r, vals := oneShot(ctx, sc, argv)
			if r == Unknown {
				ch <- ans{nil, who}
				return
			}
			if r == Sat && sc.approx {
				ch <- ans{recheck(cs, sc, vals), who}
				return
			}
			ch <- ans{entOf(sc, r, vals), who}
		}()
	}
	if !qi.ints {
		launch("cvc5", sc, "cvc5", "--produce-models")
		launch("z3", sc, "z3", "-in")
		launch("cvc5-int", sc, "cvc5", "--produce-models", "--solve-bv-as-int=sum")
	}
	if !useInt || true {
		if isc := intScript(cs, in.ctx.wide); isc != nil && isc.trivial != Unknown {
			return &cacheEnt{res: isc.trivial}
		} else if isc != nil {
			launch("int-z3", isc, "z3-new", "-in")
			launch("int-cvc5", isc, "cvc5", "--produce-models")
			launch("int-cvc5-cov", isc, "cvc5", "--produce-models", "--nl-cov")
		}
	}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.ent != nil {
			cancel()
			return a.ent
		}
	}
	return &cacheEnt{res: Unknown}
}

// solveInt runs the integer encoding on the worker's incremental process: first with products as free
// atoms (sound for unsat), then exactly.
func (in *Interp) solveInt(cs []*Term, ms int) *cacheEnt {
	sc, nonlin := intScriptL(cs, true, in.ctx.wide)
	if sc == nil {
		return nil
	}
	statInt.Add(1)
	if sc.trivial != Unknown {
		return &cacheEnt{res: sc.trivial}
	}
	r, vals := in.proc("z3i", "z3-new", "-in").runQuery(sc, ms, false)
	if r == Unsat || r == Sat && !nonlin && !sc.approx {
		return entOf(sc, r, vals)
	}
	if r == Sat {
		if ent := recheck(cs, sc, vals); ent != nil {
			return ent
		}
	}
	if in.ctx.wide {
		if ent := in.partly(cs, ms); ent != nil {
			return ent
		}
	}
	if !nonlin {
		return nil
	}
	sc = intScript(cs, in.ctx.wide)
	r, vals = in.proc("z3i", "z3-new", "-in").runQuery(sc, ms, false)
	if r == Unknown {
		return nil
	}
	if r == Sat && sc.approx {
		return recheck(cs, sc, vals)
	}
	return entOf(sc, r, vals)
}

// partly looks for a model with all but one of the inputs fixed, where products become linear.
func (in *Interp) partly(cs []*Term, ms int) *cacheEnt {
	groups := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && t.w <= 64 && t.w > 0 {
			n, _, _ := strings.Cut(t.name, "[")
			groups[n] = append(groups[n], t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	var names []string
	for n := range groups {
		names = append(names, n)
	}
	sort.Strings(names)
	x := uint64(88172645463325252)
	pick := func(round int, v *Term) uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return [4]uint64{x >> 8, 0, ^uint64(0), 1}[round%4] & maskw(v.w)
	}
	// everything fixed
	for round := 0; round < 64; round++ {
		m := NewModel()
		for i, n := range names {
			for _, v := range groups[n] {
				k := pick(round>>(2*uint(i%3)), v)
				m.vals[v.name] = MV{u: k}
			}
		}
		ok := true
		for _, c := range cs {
			if !m.Bool(c) {
				ok = false
				break
			}
		}
		if ok {
			return &cacheEnt{res: Sat, vals: m.vals}
		}
	}
	deadline := time.Now().Add(60 * time.Second)
	for round := 0; round < 4; round++ {
		for _, free := range names {
			if len(names) == 1 || time.Now().After(deadline) {
				break
			}
			ds := append([]*Term{}, cs...)
			for _, n := range names {
				if n == free {
					continue
				}
				for _, v := range groups[n] {
					ds = append(ds, in.ctx.Eq(v, in.ctx.BV(pick(round+1, v), v.w)))
				}
			}
			sc, nonlin := intScriptL(ds, true, true)
			if sc == nil || nonlin || sc.trivial != Unknown {
				continue
			}
			r, vals := in.proc("z3i", "z3-new", "-in").runQuery(sc, 2*ms, false)
			if r == Sat {
				if ent := recheck(ds, sc, vals); ent != nil {
					return ent
				}
			}
		}
	}
	return nil
}

var lemmas sync.Map

// proveLemma decides whether the constraints leave the goal no solution; it also tries with the definitions
// introduced last only, which is enough for a proof.
func proveLemma(text, goal string) bool {
	type res struct {
		once sync.Once
		ok   bool
	}
	x, _ := lemmas.LoadOrStore(sha256.Sum256([]byte(text+goal)), &res{})
	l := x.(*res)
	l.once.Do(func() {
		if d := os.Getenv("GOSYM_LEMMA"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/l%d.smt2", d, statInt.Load()), []byte(text+goal), 0644)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		statInt.Add(1)
		lines := strings.SplitAfter(text, "\n")
		var defs []int
		for i, s := range lines {
			if strings.HasPrefix(s, "(assert (= ") {
				defs = append(defs, i)
			}
		}
		ch := make(chan Result, 8)
		n := 0
		for _, keep := range []int{26, 40, 1 << 30} {
			t := text
			if keep < len(defs) {
				drop := map[int]bool{}
				for _, i := range defs[:len(defs)-keep] {
					drop[i] = true
				}
				var sb strings.Builder
				for i, s := range lines {
					if !drop[i] {
						sb.WriteString(s)
					}
				}
				t = sb.String()
			} else if keep < 1<<30 {
				continue
			}
			all := keep == 1<<30
			for _, argv := range [][]string{{"z3-new", "-in"}, {"cvc5", "--produce-models"}} {
				argv := argv
				n++
				go func() {
					r, _ := oneShot(ctx, &Script{em: newEmitter(), text: t + goal}, argv)
					if r == Sat && !all {
						r = Unknown
					}
					ch <- r
				}()
			}
		}
		for ; n > 0; n-- {
			if r := <-ch; r != Unknown {
				l.ok = r == Unsat
				return
			}
		}
	})
	return l.ok
}

// recheck evaluates the model of an over-approximating encoding against the exact terms.
func recheck(cs []*Term, sc *Script, vals map[string]*big.Int) *cacheEnt {
	ent := entOf(sc, Sat, vals)
	m := NewModel()
	m.vals = ent.vals
	for _, c := range cs {
		if !m.Bool(c) {
			return nil
		}
	}
	return ent
}

func oneShot(ctx context.Context, sc *Script, argv []string) (Result, map[string]*big.Int) {
	start := time.Now()
	defer func() { statSolverNS.Add(int64(time.Since(start))) }()
	var sb strings.Builder
	if strings.HasPrefix(argv[0], "cvc5") {
		sb.WriteString("(set-logic ALL)\n")
	}
	sb.WriteString(sc.text)
	sb.WriteString("(check-sat)\n")
	var names []string
	for _, v := range sc.vars {
		names = append(names, sc.em.done[v])
	}
	for _, v := range sc.apps {
		names = append(names, sc.em.done[v])
	}
	names = append(names, sc.extra...)
	if len(names) > 0 {
		sb.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	}
	f, err := os.CreateTemp("", "gosym*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(sb.String())
	f.Close()
	var args []string
	for _, a := range argv[1:] {
		if a != "-in" {
			args = append(args, a)
		}
	}
	cmd := exec.CommandContext(ctx, argv[0], append(args, f.Name())...)
	cmd.SysProcAttr = killWithParent()
	out, _ := cmd.Output()
	s := string(out)
	line, rest, _ := strings.Cut(s, "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	if strings.Contains(rest, "(error") {
		return Unknown, nil
	}
	vals := map[string]*big.Int{}
	if x := parseSexp(rest); x != nil {
		for _, pr := range x.list {
			if len(pr.list) == 2 {
				if v, ok := sexpVal(pr.list[1]); ok {
					vals[pr.list[0].atom] = v
				}
			}
		}
	}
	return Sat, vals
}

func debugf(f string, a ...interface{}) {
	if debugPanics {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
