package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

var (
	statQueries  atomic.Int64
	statSat      atomic.Int64
	statUnsat    atomic.Int64
	statUnknown  atomic.Int64
	statSolverNS atomic.Int64
	statFallback atomic.Int64
	statCache    atomic.Int64
	statInt      atomic.Int64
)

func sortStr(w int) string {
	switch w {
	case WBool:
		return "Bool"
	case WInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Emitter writes definitions for terms once.
type Emitter struct {
	sb    *strings.Builder
	done  map[*Term]string
	decl  map[string]bool
	ax    []string
	apps  []*Term
	vars  []*Term
	isInt bool
}

func newEmitter() *Emitter {
	return &Emitter{sb: &strings.Builder{}, done: map[*Term]string{}, decl: map[string]bool{}}
}

func bvLit(v *big.Int, w int) string {
	if w%4 == 0 {
		s := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(s)) + s
	}
	return fmt.Sprintf("(_ bv%s %d)", v.Text(10), w)
}

func (e *Emitter) ref(t *Term) string {
	if s, ok := e.done[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OConst:
		switch t.w {
		case WBool:
			s = "false"
			if t.u == 1 {
				s = "true"
			}
		case WInt:
			if t.big.Sign() < 0 {
				s = "(- " + new(big.Int).Neg(t.big).Text(10) + ")"
			} else {
				s = t.big.Text(10)
			}
		default:
			s = bvLit(t.cbig(), t.w)
		}
		return s
	case OVar:
		s = fmt.Sprintf("v%d", t.id)
		fmt.Fprintf(e.sb, "(declare-fun %s () %s)\n", s, sortStr(t.w))
		e.vars = append(e.vars, t)
		e.done[t] = s
		return s
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = e.ref(a)
	}
	joined := strings.Join(as, " ")
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, as[0])
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, as[0])
	case OAdd, OMul, OBAnd, OBOr, OBXor, OConcat:
		body = as[0]
		for _, a := range as[1:] {
			body = fmt.Sprintf("(%s %s %s)", opNames[t.op], body, a)
		}
	case OTab:
		iw := t.args[0].w
		body = tabSMT(t, func(lo, hi int) string {
			if lo == hi {
				return fmt.Sprintf("(= %s %s)", as[0], bvLit(big.NewInt(int64(lo)), iw))
			}
			return fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvLit(big.NewInt(int64(lo)), iw), as[0], as[0], bvLit(big.NewInt(int64(hi)), iw))
		}, func(k int) string { return fmt.Sprintf("(bvult %s %s)", as[0], bvLit(big.NewInt(int64(k)), iw)) },
			func(v uint64) string { return bvLit(new(big.Int).SetUint64(v), t.w) })
	case OU2I:
		body = "(bv2nat " + as[0] + ")"
	case OS2I:
		w := t.args[0].w
		body = fmt.Sprintf("(ite (bvslt %s %s) (- (bv2nat %s) %s) (bv2nat %s))", as[0], bvLit(new(big.Int), w), as[0], new(big.Int).Lsh(big.NewInt(1), uint(w)).Text(10), as[0])
	case OApp:
		fn := "uf_" + sanitize(t.name)
		for _, a := range t.args {
			fn += fmt.Sprintf("_%d", a.w)
		}
		fn += fmt.Sprintf("_%d", t.w)
		if !e.decl[fn] {
			e.decl[fn] = true
			ds := make([]string, len(t.args))
			for i, a := range t.args {
				ds[i] = sortStr(a.w)
			}
			fmt.Fprintf(e.sb, "(declare-fun %s (%s) %s)\n", fn, strings.Join(ds, " "), sortStr(t.w))
		}
		if len(as) == 0 {
			body = fn
		} else {
			body = "(" + fn + " " + joined + ")"
		}
		e.apps = append(e.apps, t)
	case OKeccak:
		n := len(t.args)
		fn := fmt.Sprintf("keccak_%d", n)
		ws := fmt.Sprintf("(_ BitVec %d)", 8*n)
		if !e.decl[fn] {
			e.decl[fn] = true
			fmt.Fprintf(e.sb, "(declare-fun %s (%s) (_ BitVec 256))\n(declare-fun inv%s ((_ BitVec 256)) %s)\n", fn, ws, fn, ws)
			if !e.decl["keccak_len"] {
				e.decl["keccak_len"] = true
				e.sb.WriteString("(declare-fun keccak_len ((_ BitVec 256)) (_ BitVec 16))\n")
			}
		}
		in := as[0]
		if n > 1 {
			c := t.ctx.Concat(t.args...)
			in = e.ref(c)
		}
		body = fmt.Sprintf("(%s %s)", fn, in)
		e.apps = append(e.apps, t)
		s = fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(e.sb, "(define-fun %s () %s %s)\n", s, sortStr(t.w), body)
		e.done[t] = s
		e.ax = append(e.ax, fmt.Sprintf("(= (inv%s %s) %s)", fn, s, in), fmt.Sprintf("(= (keccak_len %s) %s)", s, bvLit(big.NewInt(int64(n)), 16)))
		return s
	default:
		body = "(" + opNames[t.op] + " " + joined + ")"
	}
	s = fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(e.sb, "(define-fun %s () %s %s)\n", s, sortStr(t.w), body)
	e.done[t] = s
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

// Script renders one self-contained query.
type Script struct {
	trivial Result // decided during encoding
	approx  bool   // over-approximation: a model needs rechecking
	extra   []string
	text    string
	vars    []*Term
	apps    []*Term
	em      *Emitter
}

func render(cs []*Term) *Script {
	e := newEmitter()
	var refs []string
	for _, c := range cs {
		refs = append(refs, e.ref(c))
	}
	for _, r := range refs {
		fmt.Fprintf(e.sb, "(assert %s)\n", r)
	}
	for _, a := range e.ax {
		fmt.Fprintf(e.sb, "(assert %s)\n", a)
	}
	return &Script{text: e.sb.String(), vars: e.vars, apps: e.apps, em: e}
}

// Proc is one solver process.
type Proc struct {
	argv  []string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	dead  bool
	count int
}

func startProc(argv []string) (*Proc, error) {
	p := &Proc{argv: argv}
	p.cmd = exec.Command(argv[0], argv[1:]...)
	p.cmd.SysProcAttr = killWithParent()
	p.cmd.Stderr = nil
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	return p, nil
}
func (p *Proc) kill() {
	if p.dead {
		return
	}
	p.dead = true
	p.cmd.Process.Kill()
	p.in.Close()
	p.cmd.Wait()
}

// ask sends text followed by an echo marker and collects output until the marker.
func (p *Proc) ask(text string, limit time.Duration) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(p.in, text+"\n(echo \"@@done\")\n"); err != nil {
			ch <- res{"", false}
			return
		}
		var sb strings.Builder
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), false}
				return
			}
			if strings.Contains(line, "@@done") {
				ch <- res{sb.String(), true}
				return
			}
			sb.WriteString(line)
		}
	}()
	select {
	case r := <-ch:
		if !r.ok {
			p.kill()
		}
		return r.s, r.ok
	case <-time.After(limit):
		p.kill()
		<-ch
		return "", false
	}
}

// ---- s-expression parsing for get-value ----
type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var rec func() *sexp
	rec = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			x := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return x
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				x.list = append(x.list, rec())
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return rec()
}

func sexpVal(x *sexp) (*big.Int, bool) {
	if x == nil {
		return nil, false
	}
	if x.list == nil {
		a := x.atom
		switch {
		case a == "true":
			return big.NewInt(1), true
		case a == "false":
			return big.NewInt(0), true
		case strings.HasPrefix(a, "#x"):
			return new(big.Int).SetString(a[2:], 16)
		case strings.HasPrefix(a, "#b"):
			return new(big.Int).SetString(a[2:], 2)
		}
		return new(big.Int).SetString(a, 10)
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		v, ok := sexpVal(x.list[1])
		if !ok {
			return nil, false
		}
		return v.Neg(v), true
	}
	if len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
		return new(big.Int).SetString(x.list[1].atom[2:], 10)
	}
	return nil, false
}

var solverLogDir = os.Getenv("GOSYM_LOG")
var solverLogN atomic.Int64

// runQuery executes one query in a fresh scope of the process; returns values for vars and apps.
func (p *Proc) runQuery(sc *Script, timeoutMS int, isCvc bool) (Result, map[string]*big.Int) {
	start := time.Now()
	defer func() { statSolverNS.Add(int64(time.Since(start))) }()
	var sb strings.Builder
	if isCvc {
		sb.WriteString("(reset)\n(set-option :produce-models true)\n(set-logic ALL)\n")
	} else {
		sb.WriteString("(reset)\n")
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMS)
	}
	sb.WriteString(sc.text)
	sb.WriteString("(check-sat)")
	if solverLogDir != "" {
		os.WriteFile(fmt.Sprintf("%s/q%06d.smt2", solverLogDir, solverLogN.Add(1)), []byte(sb.String()), 0644)
	}
	p.count++
	out, ok := p.ask(sb.String(), time.Duration(timeoutMS)*time.Millisecond+3*time.Second)
	if !ok {
		return Unknown, nil
	}
	if strings.Contains(out, "(error") {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", out[:min(len(out), 400)])
		}
		return Unknown, nil
	}
	out = strings.TrimSpace(out)
	switch out {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	vals := map[string]*big.Int{}
	var names []string
	for _, v := range sc.vars {
		names = append(names, sc.em.done[v])
	}
	for _, v := range sc.apps {
		names = append(names, sc.em.done[v])
	}
	for i := 0; i < len(names); i += 200 {
		j := min(i+200, len(names))
		out, ok := p.ask("(get-value ("+strings.Join(names[i:j], " ")+"))", 20*time.Second)
		if !ok || strings.Contains(out, "(error") {
			return Unknown, nil
		}
		x := parseSexp(out)
		if x == nil {
			return Unknown, nil
		}
		for _, pr := range x.list {
			if len(pr.list) == 2 {
				if v, ok := sexpVal(pr.list[1]); ok {
					vals[pr.list[0].atom] = v
				}
			}
		}
	}
	return Sat, vals
}

// applyModel copies solver values into the model.
func (sc *Script) applyModel(m *Model, vals map[string]*big.Int) {
	for _, v := range sc.vars {
		if x, ok := vals[sc.em.done[v]]; ok {
			m.vals[v.name] = mkMV(x, v.w)
		}
	}
	m.memo = map[*Term]MV{}
	for _, a := range sc.apps { // emitted in dependency order
		x, ok := vals[sc.em.done[a]]
		if !ok {
			continue
		}
		if a.op == OKeccak {
			in := make([]byte, len(a.args))
			for i, y := range a.args {
				in[i] = byte(m.Eval(y).u)
			}
			m.uf["keccak"+string(in)] = mkMV(x, 256)
		} else {
			var sb strings.Builder
			sb.WriteString(a.name)
			for _, y := range a.args {
				sb.WriteByte('|')
				sb.WriteString(m.Eval(y).big().Text(62))
			}
			m.uf[sb.String()] = mkMV(x, a.w)
		}
		m.memo = map[*Term]MV{}
	}
}

func killWithParent() *syscall.SysProcAttr { return &syscall.SysProcAttr{} }

// tabSMT prints a table as a disjunction of ranges (bool) or a balanced decision tree.
func tabSMT(t *Term, inRange func(lo, hi int) string, lt func(k int) string, lit func(v uint64) string) string {
	type run struct {
		lo, hi int
		v      uint64
	}
	var runs []run
	for i, v := range t.tab {
		if n := len(runs); n > 0 && runs[n-1].v == v {
			runs[n-1].hi = i
		} else {
			runs = append(runs, run{i, i, v})
		}
	}
	if t.w == WBool {
		s := "(or false"
		for _, r := range runs {
			if r.v == 1 {
				s += " " + inRange(r.lo, r.hi)
			}
		}
		return s + ")"
	}
	var rec func(rs []run) string
	rec = func(rs []run) string {
		if len(rs) == 1 {
			return lit(rs[0].v)
		}
		m := len(rs) / 2
		return "(ite " + lt(rs[m].lo) + " " + rec(rs[:m]) + " " + rec(rs[m:]) + ")"
	}
	return rec(runs)
}
