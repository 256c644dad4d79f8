package main

// Path exploration: each path re-executes the harness under a decision prefix; every path carries a
// model of its path condition, so each new symbolic branch costs one query for the other side.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	taken bool
	val   uint64 // concretised value for value decisions
	isVal bool
}

type Job struct {
	prefix []Decision
	model  *Model
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, alloc, deadlock, steps
	Pos     string
	model   *Model
	pc      []*Term
	neg     *Term
	prefix  []Decision
	covers  []string
	in      *Interp
	mapOrd  bool
}

type PathRecord struct {
	model   *Model
	covers  []string
	observe []ObsRec
	end     string
	mapOrd  bool
	pc      []*Term
	in      *Interp
}

type ObsRec struct {
	Tag  string
	Vals []Value
}

type Explorer struct {
	prog    *Program
	harness *ssa.Function
	name    string
	cfg     *Config

	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	active   int
	stop     bool
	deadline time.Time

	paths      int
	decisions  atomic.Int64
	steps      atomic.Int64
	asserts    atomic.Int64
	covers     map[string]int
	violations []*Violation
	tries      []tryRec
	vioCount   map[string]int
	vioTotal   int
	bounds     map[string]int
	incomplete map[string]int
	funcs      map[string]bool
	samples    []PathRecord
	sampleN    int
	truncated  bool
	infeasible int
	maxDepth   int
}

type Config struct {
	Workers      int
	TimeoutS     int
	QueryMS      int
	FallbackMS   int
	MaxPaths     int
	StepLimit    int64
	AllocLimit   int64
	Samples      int
	MaxVioPerMsg int
	Abstract     map[string]bool          // functions replaced by uninterpreted functions
	Contract     map[string]*ssa.Function // functions replaced by their specification (decided by another property)
	FixedOrder   bool                     // maps are iterated in insertion order only
	Hang         bool                     // reaching the step limit is a violation (replayed natively with a time limit)
	Bounds       map[string]int           // overrides
	Thorough     bool
	Wide         bool // limb arithmetic (int=2)
	Try          int  // native runs per assertion without a confirmed model
	IntMode      bool // discharge assertion queries with the integer encoding first
}

func NewExplorer(p *Program, h *ssa.Function, name string, cfg *Config) *Explorer {
	e := &Explorer{prog: p, harness: h, name: name, cfg: cfg, bounds: map[string]int{}, covers: map[string]int{}, vioCount: map[string]int{}, incomplete: map[string]int{}, funcs: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(time.Duration(cfg.TimeoutS) * time.Second)
	return e
}

func (e *Explorer) push(j *Job) {
	e.mu.Lock()
	e.jobs = append(e.jobs, j)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) next() *Job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) || (e.cfg.MaxPaths > 0 && e.paths >= e.cfg.MaxPaths) {
			if len(e.jobs) > 0 || e.stop {
				e.truncated = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.jobs); n > 0 {
			j := e.jobs[n-1]
			e.jobs = e.jobs[:n-1]
			e.active++
			return j
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) doneJob() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) note(what string) {
	e.mu.Lock()
	e.incomplete[what]++
	e.mu.Unlock()
}

func (e *Explorer) Run() {
	e.jobs = []*Job{{model: NewModel()}}
	var wg sync.WaitGroup
	// wake sleepers at the deadline
	timer := time.AfterFunc(time.Until(e.deadline)+10*time.Millisecond, func() { e.cond.Broadcast() })
	defer timer.Stop()
	for i := 0; i < e.cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := NewInterp(e)
			defer in.close()
			for {
				j := e.next()
				if j == nil {
					return
				}
				in.runPath(j)
				e.doneJob()
				if in.ctx.next > 3_000_000 {
					in.close()
					in = NewInterp(e)
				}
			}
		}()
	}
	wg.Wait()
}

// Path is the state of one path.
type Path struct {
	prefix   []Decision
	pos      int
	dec      []Decision
	pc       []*Term
	pcSet    map[*Term]bool
	model    *Model
	names    map[string]int
	covers   []string
	coverSet map[string]bool
	observe  []ObsRec
	steps    int64
	stepLim  int64
	alloc    int64
	files    int // written to by the code under test
	allocLim int64
	assumes  bool
	mapOrd   bool
	keccak   map[*Value][]Value
	locks    map[*Value]*lockState
	now      *Term
	nowCalls int
	inMap    map[*MapV]*Value
	inputs   []inputRec
	onces    map[*Value]bool
	unreal   bool
	conc     map[*Term]uint64
}

type inputRec struct {
	name string
	w    int
	pick bool // chosen by Int
}

// tryRec is an assertion the solver left open or refuted; native runs of variations of the model may decide it.
type tryRec struct {
	kind, msg, pos string
	vals           map[string]MV
	inputs         []inputRec
}

func (in *Interp) runPath(j *Job) {
	e := in.ex
	p := &Path{prefix: j.prefix, pcSet: map[*Term]bool{}, model: j.model.clone(), names: map[string]int{}, coverSet: map[string]bool{}, stepLim: e.cfg.StepLimit, allocLim: e.cfg.AllocLimit, keccak: map[*Value][]Value{}, locks: map[*Value]*lockState{}, onces: map[*Value]bool{}, conc: map[*Term]uint64{}}
	in.path = p
	in.undo = in.undo[:0]
	in.logging = true
	in.depth = 0
	in.spec = 0
	in.guard = nil
	end := "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r.kind
					if r.kind == "unsupported" || r.kind == "limit" {
						e.note(r.kind + ": " + r.msg)
					}
				case targetPanic:
					end = "panic"
					in.violation("panic", "panic: "+r.msg, r.pos, nil)
				default:
					if in.ex.cfg.Workers == 1 && debugPanics {
						panic(r)
					}
					end = "unsupported"
					e.note(fmt.Sprintf("engine: %v @ %s", r, in.where()))
				}
			}
		}()
		in.call(e.harness, nil, nil)
		in.checkLocksAtEnd()
	}()
	in.logging = false
	in.rollback(0)
	e.steps.Add(p.steps)
	e.decisions.Add(int64(len(p.dec)))
	e.mu.Lock()
	e.paths++
	if end == "infeasible" {
		e.infeasible++
	}
	if len(p.dec) > e.maxDepth {
		e.maxDepth = len(p.dec)
	}
	for _, c := range p.covers {
		e.covers[c]++
	}
	for f := range in.newFuncs {
		e.funcs[f] = true
	}
	in.newFuncs = map[string]bool{}
	if (end == "done") && len(p.covers) > 0 && !p.unreal {
		e.sampleN++
		rec := PathRecord{model: p.model, covers: p.covers, observe: p.observe, end: end, mapOrd: p.mapOrd, pc: p.pc, in: in}
		if len(e.samples) < e.cfg.Samples {
			e.samples = append(e.samples, rec)
		} else if e.cfg.Samples > 0 {
			// deterministic reservoir
			h := uint64(e.sampleN)*0x9E3779B97F4A7C15 ^ 0x5bd1e995
			k := (h >> 20) % uint64(e.sampleN)
			if k < uint64(e.cfg.Samples) {
				e.samples[k] = rec
			}
		}
	}
	e.mu.Unlock()
}

// concreteOf evaluates a scalar/bytes value under a model.
func concreteOf(m *Model, v Value) Value {
	switch v := v.(type) {
	case *Term:
		mv := m.Eval(v)
		if v.w == WBool {
			return mv.u == 1
		}
		if mv.b != nil {
			return mv.b.String()
		}
		return mv.u
	case []Value:
		b := make([]byte, len(v))
		for i, x := range v {
			if u, ok := concreteOf(m, x).(uint64); ok {
				b[i] = byte(u)
			}
		}
		return string(b)
	case array:
		return concreteOf(m, []Value(v))
	case *SymStr:
		return concreteOf(m, v.b)
	case numSeq:
		var ps []string
		for _, x := range v {
			ps = append(ps, obsString(concreteOf(m, x)))
		}
		return rawStr(strings.Join(ps, "+"))
	}
	return v
}

// addPC records a constraint that the current model satisfies.
func (in *Interp) addPC(t *Term) {
	p := in.path
	if t.isConst() || p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	if t.op == OAnd {
		for _, x := range t.args {
			p.pcSet[x] = true
		}
	}
	p.pc = append(p.pc, t)
}

// slice returns the path constraints connected to ts.
func (in *Interp) slice(ts ...*Term) []*Term {
	var vs *VarSet
	for _, t := range ts {
		vs = vs.union(t.vs)
	}
	pc := in.path.pc
	used := make([]bool, len(pc))
	for {
		changed := false
		for i, c := range pc {
			if !used[i] && vs.intersects(c.vs) {
				used[i] = true
				n := vs.union(c.vs)
				if n != vs {
					vs = n
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// known reports whether cond is already decided syntactically on this path.
func (in *Interp) known(cond *Term) (bool, bool) {
	if cond.isConst() {
		return cond.u == 1, true
	}
	p := in.path
	if p.pcSet[cond] {
		return true, true
	}
	if p.pcSet[in.ctx.Not(cond)] {
		return false, true
	}
	return false, false
}

// branch decides a symbolic condition, forking if both sides are feasible.
func (in *Interp) branch(cond *Term) bool { return in.branchK(cond, false) }

func (in *Interp) branchK(cond *Term, important bool) bool {
	if v, ok := in.known(cond); ok {
		return v
	}
	if in.spec > 0 {
		if in.mustHold(cond) {
			return true
		}
		if in.mustHold(in.ctx.Not(cond)) {
			return false
		}
		panic(specAbort{"branch"})
	}
	p := in.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d.taken {
			in.addPC(cond)
		} else {
			in.addPC(in.ctx.Not(cond))
		}
		return d.taken
	}
	v := p.model.Bool(cond)
	side := cond
	other := in.ctx.Not(cond)
	if !v {
		side, other = other, side
	}
	res, m := in.solve(append(in.slice(other), other), p.model, important)
	switch res {
	case Sat:
		np := append(append([]Decision(nil), p.dec...), Decision{taken: !v})
		in.ex.push(&Job{prefix: np, model: m})
		p.dec = append(p.dec, Decision{taken: v})
		in.addPC(side)
	case Unsat:
		p.dec = append(p.dec, Decision{taken: v})
		in.addPC(side)
	default:
		if important {
			in.try("assert", "left open by the solver")
			in.ex.note("solver unknown on assertion (" + in.asserting + ") at " + in.where())
		} else {
			in.ex.note("solver unknown on branch at " + in.where())
		}
		p.dec = append(p.dec, Decision{taken: v})
		in.addPC(side)
	}
	p.pos = len(p.dec)
	return v
}

// mustHold proves cond under the path condition and the speculation guard.
func (in *Interp) mustHold(cond *Term) bool {
	if v, ok := in.known(cond); ok {
		return v
	}
	neg := in.ctx.Not(cond)
	q := neg
	if in.guard != nil {
		q = in.ctx.And(in.guard, neg)
	}
	if q.isFalse() {
		return true
	}
	if q.isTrue() || in.path.model.Bool(q) {
		return false
	}
	res, _ := in.solve(append(in.slice(q), q), in.path.model, false)
	return res == Unsat
}

// assume restricts the path.
func (in *Interp) assume(cond *Term) {
	if v, ok := in.known(cond); ok {
		if !v {
			panic(pathEnd{"infeasible", "assume"})
		}
		return
	}
	if in.spec > 0 {
		panic(specAbort{"assume"})
	}
	p := in.path
	if p.model.Bool(cond) {
		in.addPC(cond)
		return
	}
	res, m := in.solve(append(in.slice(cond), cond), p.model, false)
	switch res {
	case Sat:
		p.model = m
		in.addPC(cond)
	case Unsat:
		panic(pathEnd{"infeasible", "assume"})
	default:
		panic(pathEnd{"limit", "solver unknown on assumption at " + in.where()})
	}
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.u
	}
	if in.spec > 0 {
		panic(specAbort{"concretize"})
	}
	p := in.path
	if v, ok := p.conc[t]; ok {
		return v
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(pathEnd{"limit", "too many values for " + why + " at " + in.where()})
		}
		var val uint64
		if p.pos < len(p.prefix) {
			val = p.prefix[p.pos].val
		} else {
			val = p.model.Eval(t).u
		}
		eq := in.ctx.Eq(t, in.ctx.BV(val, t.w))
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.dec = append(p.dec, d)
			if d.taken {
				in.addPC(eq)
				p.conc[t] = val
				return val
			}
			in.addPC(in.ctx.Not(eq))
			continue
		}
		ne := in.ctx.Not(eq)
		res, m := in.solve(append(in.slice(ne), ne), p.model, false)
		if res == Sat {
			np := append(append([]Decision(nil), p.dec...), Decision{taken: false, val: val, isVal: true})
			in.ex.push(&Job{prefix: np, model: m})
		} else if res == Unknown {
			in.ex.note("solver unknown enumerating " + why + " at " + in.where())
		}
		p.dec = append(p.dec, Decision{taken: true, val: val, isVal: true})
		p.pos = len(p.dec)
		in.addPC(eq)
		p.conc[t] = val
		return val
	}
}

// choose forks over n alternatives without constraints (modelled by a fresh variable).
func (in *Interp) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := in.fresh("choose!"+name, 8)
	in.assume(in.ctx.Ult(v, in.ctx.BV(uint64(n), 8)))
	return int(in.concretize(v, "choice"))
}

func (in *Interp) fresh(name string, w int) *Term {
	p := in.path
	k := p.names[name]
	p.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	p.inputs = append(p.inputs, inputRec{name: name, w: w})
	return in.ctx.Var(name, w)
}

func (in *Interp) assertCond(cond *Term, msg string) {
	in.ex.asserts.Add(1)
	if in.spec > 0 {
		if in.mustHold(cond) {
			return
		}
		panic(specAbort{"assert"})
	}
	in.asserting = msg
	ok := in.branchK(cond, true)
	in.asserting = ""
	if !ok {
		in.violation("assert", msg, in.where(), nil)
		panic(pathEnd{"violation", msg})
	}
}

func (in *Interp) try(kind, msg string) {
	e := in.ex
	if e.cfg.Try == 0 {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.tries) < 24 {
		e.tries = append(e.tries, tryRec{kind, msg, in.where(), in.path.model.clone().vals, append([]inputRec(nil), in.path.inputs...)})
	}
}

func (in *Interp) violation(kind, msg, pos string, extra *Term) {
	in.try(kind, msg)
	p := in.path
	e := in.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + msg + "|" + pos
	if e.vioTotal++; e.vioTotal > 400 {
		e.stop = true
		e.truncated = true
	}
	e.vioCount[key]++
	if e.vioCount[key] > e.cfg.MaxVioPerMsg {
		return
	}
	e.violations = append(e.violations, &Violation{Harness: e.name, Msg: msg, Kind: kind, Pos: pos, model: p.model.clone(), pc: append([]*Term(nil), p.pc...), prefix: append([]Decision(nil), p.dec...), covers: append([]string(nil), p.covers...), in: in, mapOrd: p.mapOrd})
}

// ---- query cache and solver portfolio ----

type cacheKey [2]uint64
type cacheEnt struct {
	res  Result
	vals map[string]MV
	uf   map[string]MV
}

var qcache sync.Map

func keyOf(cs []*Term) cacheKey {
	var k cacheKey
	hs := make([]*Term, len(cs))
	copy(hs, cs)
	sort.Slice(hs, func(i, j int) bool { return hs[i].h1 < hs[j].h1 })
	k[0], k[1] = 0x1234567, 0x89abcdef
	for i, t := range hs {
		if i > 0 && hs[i-1] == t {
			continue
		}
		k[0] = mix(k[0], t.h1)
		k[1] = mix(k[1], t.h2)
	}
	return k
}

// solve decides the conjunction; on Sat returns base updated with the solver's values.
func (in *Interp) solve(cs []*Term, base *Model, important bool) (Result, *Model) {
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil
		}
	}
	key := keyOf(cs)
	if x, ok := qcache.Load(key); ok {
		ent := x.(*cacheEnt)
		if !(important && ent.res == Unknown) {
			statCache.Add(1)
			if ent.res != Sat {
				return ent.res, nil
			}
			m := base.clone()
			for k, v := range ent.vals {
				m.vals[k] = v
			}
			for k, v := range ent.uf {
				m.uf[k] = v
			}
			return Sat, m
		}
	}
	statQueries.Add(1)
	ent := in.solveRaw(cs, important)
	switch ent.res {
	case Sat:
		statSat.Add(1)
	case Unsat:
		statUnsat.Add(1)
	default:
		statUnknown.Add(1)
	}
	if ent.res == Sat {
		// trust but verify: the model must satisfy every constraint under our evaluator
		m := base.clone()
		for k, v := range ent.vals {
			m.vals[k] = v
		}
		for k, v := range ent.uf {
			m.uf[k] = v
		}
		for _, c := range cs {
			if !m.Bool(c) {
				in.ex.note("model check failed (evaluator vs solver)")
				if debugPanics {
					fmt.Println("MODEL CHECK", c)
				}
				qcache.Store(key, &cacheEnt{res: Unknown})
				return Unknown, nil
			}
		}
		qcache.Store(key, ent)
		return Sat, m
	}
	qcache.Store(key, ent)
	return ent.res, nil
}
