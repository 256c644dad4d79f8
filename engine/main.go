package main

// gosym: bounded symbolic execution of Go functions from their SSA form.
//
//	gosym -prop C01 -tier quick         decide one property
//	gosym -replay FILE                  replay a recorded counterexample against the real build

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagOnly    = flag.String("only", "", "run only this harness (no evidence)")
	flagReplay  = flag.String("replay", "", "replay a counterexample file")
	flagV       = flag.Bool("v", false, "verbose")
	flagWorkers = flag.Int("workers", runtime.NumCPU(), "workers")
	flagProf    = flag.String("cpuprofile", "", "profile")
	flagTimeout = flag.Int("timeout", 0, "override per-harness timeout (s)")
	flagCap     = flag.Int("cap", 0, "overall time cap (s)")
)

type Harness struct {
	Name string
	Pkg  string // import path
	Opts map[string]string
	File string
}

func (h *Harness) num(tier, key string, def int) int {
	for _, k := range []string{key + "." + tier, key} {
		if v, ok := h.Opts[k]; ok {
			n, err := strconv.Atoi(v)
			if err == nil {
				return n
			}
		}
	}
	return def
}

var reDir = regexp.MustCompile(`(?m)^//verif:harness ?(.*)\n(?://.*\n)*func (Verif\w+)\(`)
var reUse = regexp.MustCompile(`(?m)^//verif:use (\S+)`)

// collect finds the harness files of a property; returns overlay files (repo path -> verif path).
func collect(prop, verif, repo, mod string) ([]*Harness, map[string]string, error) {
	ov := map[string]string{}
	var hs []*Harness
	base := filepath.Join(verif, "harness")
	pre := strings.ToLower(prop) + "_"
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		dir := filepath.Dir(rel)
		if strings.HasPrefix(dir, "verifsym") {
			ov[filepath.Join(repo, rel)] = p
			return nil
		}
		if !strings.HasPrefix(fi.Name(), pre) {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, dir, "zz_verif_"+fi.Name())] = p
		for _, m := range reUse.FindAllStringSubmatch(string(src), -1) {
			lib := filepath.Join(dir, m[1])
			ov[filepath.Join(repo, filepath.Dir(lib), "zz_verif_"+filepath.Base(lib))] = filepath.Join(base, lib)
		}
		if err := stubs(string(src), repo, ov); err != nil {
			return err
		}
		for _, m := range reDir.FindAllStringSubmatch(string(src), -1) {
			h := &Harness{Name: m[2], Pkg: mod + "/" + dir, Opts: map[string]string{}, File: rel}
			for _, kv := range strings.Fields(m[1]) {
				k, v, _ := strings.Cut(kv, "=")
				h.Opts[k] = v
			}
			hs = append(hs, h)
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs, ov, err
}

func modulePath(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:])
		}
	}
	return ""
}

func load(repo string, pkgsWanted []string, ov map[string]string) (*Program, error) {
	content := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Overlay: content}
	pkgs, err := packages.Load(cfg, pkgsWanted...)
	if err != nil {
		return nil, err
	}
	mod := modulePath(repo)
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, mod) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return &Program{ssa: prog, fset: fset, mod: mod}, nil
}

// ---- native replay ----

type Replay struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Pkg      string            `json:"pkg"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Pos      string            `json:"position"`
	Values   map[string]string `json:"values"`
	Bounds   map[string]int    `json:"bounds"`
	Repeat   int               `json:"repeat,omitempty"`
	Note     string            `json:"note,omitempty"`
}

type NativeOut struct {
	Result  string   `json:"result"` // ok, assert, panic, alloc, skip, fatal, timeout
	Msg     string   `json:"msg"`
	Covers  []string `json:"covers"`
	Observe []string `json:"observe"`
}

type Native struct {
	bin string
	dir string
	err error
}

func buildNative(repo, verif, mod string, hs []*Harness, ov map[string]string) *Native {
	n := &Native{}
	dir, err := os.MkdirTemp("", "gosym-native")
	if err != nil {
		return &Native{err: err}
	}
	n.dir = dir
	byPkg := map[string][]string{}
	for _, h := range hs {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Name)
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n\t\"" + symPkg + "\"\n")
	var ps []string
	for p := range byPkg {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for i, p := range ps {
		fmt.Fprintf(&src, "\tp%d %q\n", i, p)
	}
	src.WriteString(")\n\nfunc main() {\n\tverifsym.Main(map[string]func(){\n")
	for i, p := range ps {
		for _, f := range byPkg[p] {
			fmt.Fprintf(&src, "\t\t%q: p%d.%s,\n", f, i, f)
		}
	}
	src.WriteString("\t})\n}\n")
	mainFile := filepath.Join(dir, "main.go")
	os.WriteFile(mainFile, src.Bytes(), 0644)
	rep := map[string]string{filepath.Join(repo, "zz_verifmain", "main.go"): mainFile}
	for k, v := range ov {
		rep[k] = v
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, j, 0644)
	n.bin = filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./zz_verifmain")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n
}

func (n *Native) close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run replays the given cases in one process; the process's death is attributed to the case that was running.
func (n *Native) run(cases []Replay, perCase time.Duration) []NativeOut {
	outs := make([]NativeOut, len(cases))
	i := 0
	for i < len(cases) {
		batch := cases[i:]
		j, _ := json.Marshal(batch)
		f := filepath.Join(n.dir, "cases.json")
		os.WriteFile(f, j, 0644)
		total := perCase + time.Duration(len(batch)-1)*200*time.Millisecond
		ctx, cancel := context.WithTimeout(context.Background(), total)
		cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", n.bin, f)
		cmd.Dir = n.dir
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.WaitDelay = time.Second
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		done := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if s, ok := strings.CutPrefix(l, "@@VERIF "); ok && done < len(batch) {
				json.Unmarshal([]byte(s), &outs[i+done])
				done++
			}
		}
		if done == len(batch) {
			break
		}
		o := NativeOut{Result: "fatal", Msg: firstFatal(se.String())}
		if timedOut {
			o = NativeOut{Result: "timeout", Msg: "no answer in time"}
		} else if err == nil {
			o = NativeOut{Result: "fatal", Msg: "process exited early"}
		}
		outs[i+done] = o
		i += done + 1
	}
	return outs
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "out of memory") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// ---- known findings ----

type Known struct {
	Prop, Harness, Kind string
	Msg, Pos            *regexp.Regexp
	Text                string
	seen                bool
}

var reKV = regexp.MustCompile(`(\w+)=("[^"]*"|\S+)`)

func readKnown(file string) []*Known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []*Known
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding:")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(rest, " | ")
		k := &Known{Text: strings.TrimSpace(text)}
		for _, m := range reKV.FindAllStringSubmatch(head, -1) {
			v := strings.Trim(m[2], `"`)
			switch m[1] {
			case "property":
				k.Prop = v
			case "harness":
				k.Harness = v
			case "kind":
				k.Kind = v
			case "msg":
				k.Msg = regexp.MustCompile("^(?:" + v + ")$")
			}
		}
		if k.Msg != nil {
			ks = append(ks, k)
		}
	}
	return ks
}

// ---- one property ----

type hResult struct {
	h          *Harness
	ex         *Explorer
	wall       float64
	confirmed  []*Replay
	unconf     []string
	validated  int
	mismatch   []string
	skipped    int
	missing    []string
	nontrivial bool
}

func main() {
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(20 << 30)
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
	}
	r := run()
	pprof.StopCPUProfile()
	if stubDir != "" {
		os.RemoveAll(stubDir)
	}
	os.Exit(r)
}

func run() int {
	start := time.Now()
	mod := modulePath(*flagRepo)
	if *flagReplay != "" {
		return replayFile(*flagReplay, mod)
	}
	hs, ov, err := collect(*flagProp, *flagVerif, *flagRepo, mod)
	if err != nil || len(hs) == 0 {
		fmt.Println("ERROR no harness for", *flagProp, err)
		return 2
	}
	pk := map[string]bool{}
	for _, h := range hs {
		pk[h.Pkg] = true
	}
	var want []string
	for p := range pk {
		want = append(want, p)
	}
	sort.Strings(want)
	prog, err := load(*flagRepo, want, ov)
	if err != nil {
		fmt.Println("ERROR loading:", err)
		return 2
	}
	nch := make(chan *Native, 1)
	go func() { nch <- buildNative(*flagRepo, *flagVerif, mod, hs, ov) }()
	var native *Native
	defer func() { native.close() }()
	if *flagV {
		fmt.Printf("loaded in %.1fs\n", time.Since(start).Seconds())
	}
	capS := 300
	if *flagTier == "thorough" {
		capS = 840
	}
	if *flagCap > 0 {
		capS = *flagCap
	}
	known := readKnown(filepath.Join(*flagVerif, "known_findings.txt"))
	var results []*hResult
	status := 0
	reported := map[string]bool{}
	nvio := 0
	for _, h := range hs {
		if *flagOnly != "" && h.Name != *flagOnly {
			continue
		}
		if h.Opts["tier"] != "" && h.Opts["tier"] != *flagTier {
			continue
		}
		left := capS - int(time.Since(start).Seconds())
		if left < 5 {
			fmt.Printf("NOTE harness %s not run: time cap\n", h.Name)
			continue
		}
		fn := findFunc(prog, h)
		if fn == nil {
			fmt.Println("ERROR no function", h.Name)
			return 2
		}
		cfg := configFor(h, left)
		if err := contracts(prog, h, cfg); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		ex := NewExplorer(prog, fn, h.Name, cfg)
		t0 := time.Now()
		ex.Run()
		r := &hResult{h: h, ex: ex, wall: time.Since(t0).Seconds()}
		results = append(results, r)
		for _, c := range staticCovers(fn) {
			if ex.covers[c] == 0 {
				r.missing = append(r.missing, c)
			}
		}
		if native == nil {
			native = <-nch
			if native.err != nil {
				fmt.Println("ERROR", native.err)
				return 2
			}
		}
		confirmViolations(r, native, prog)
		validateSamples(r, native)
		summary(r)
		for i, rp := range r.confirmed {
			var kf *Known
			for _, k := range known {
				if k.Prop == *flagProp && (k.Harness == "" || k.Harness == h.Name) && (k.Kind == "" || k.Kind == rp.Kind) && k.Msg.MatchString(rp.Msg) {
					kf = k
				}
			}
			if kf != nil {
				if !kf.seen {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, kf.Text)
				}
				kf.seen = true
				continue
			}
			key := rp.Kind + rp.Msg + rp.Pos
			if reported[key] {
				continue
			}
			reported[key] = true
			dir := filepath.Join(*flagVerif, "replay", *flagProp)
			os.MkdirAll(dir, 0755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", h.Name, i))
			b, _ := json.MarshalIndent(rp, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, path)
			fmt.Printf("  %s: %s: %s (%s)\n", rp.Harness, rp.Kind, rp.Msg, rp.Pos)
			nvio++
			status = 1
		}
	}
	for _, k := range known {
		if k.Prop == *flagProp && !k.seen && *flagOnly == "" {
			fmt.Printf("NOTE known finding not observed in this run: %s\n", k.Text)
		}
	}
	if status == 0 {
		for _, r := range results {
			if len(r.missing) > 0 && (len(r.ex.incomplete) > 0 || r.ex.truncated) {
				fmt.Printf("NOTE harness %s was cut short before reaching %v\n", r.h.Name, r.missing)
			} else if len(r.missing) > 0 {
				fmt.Printf("ERROR harness %s is vacuous: not reached: %v\n", r.h.Name, r.missing)
				status = 2
			}
			if len(r.mismatch) > 0 {
				fmt.Printf("NOTE translator mismatch in %s: %s\n", r.h.Name, r.mismatch[0])
			}
		}
	}
	if *flagOnly == "" {
		writeEvidence(results, start, nvio)
	}
	fmt.Printf("property %s tier %s: exit %d, %.1fs\n", *flagProp, *flagTier, status, time.Since(start).Seconds())
	return status
}

func configFor(h *Harness, left int) *Config {
	tier := *flagTier
	defT, defQ, defF := 60, 4000, 20000
	if tier == "thorough" {
		defT, defQ, defF = 400, 10000, 60000
	}
	cfg := &Config{
		Workers: *flagWorkers, TimeoutS: min(left, h.num(tier, "timeout", defT)), QueryMS: h.num(tier, "query", defQ), FallbackMS: h.num(tier, "fallback", defF),
		MaxPaths: h.num(tier, "paths", 0), StepLimit: int64(h.num(tier, "steps", 20_000_000)), AllocLimit: int64(h.num(tier, "alloc", 1<<27)), Samples: h.num(tier, "samples", 12),
		MaxVioPerMsg: 3, Abstract: map[string]bool{}, IntMode: h.Opts["int"] != "", Wide: h.Opts["int"] == "2", Try: optInt(h, "try"), Hang: h.Opts["hang"] != "", FixedOrder: h.Opts["maporder"] == "fixed", Thorough: tier == "thorough",
	}
	if *flagTimeout > 0 {
		cfg.TimeoutS = *flagTimeout
	}
	if a := h.Opts["abstract"]; a != "" {
		for _, x := range strings.Split(a, ",") {
			cfg.Abstract[strings.ReplaceAll(x, "~", modulePath(*flagRepo))] = true
		}
	}
	return cfg
}

// contracts resolves contract=function:spec options.
func contracts(prog *Program, h *Harness, cfg *Config) error {
	a := h.Opts["contract"]
	if a == "" {
		return nil
	}
	cfg.Contract = map[string]*ssa.Function{}
	for _, x := range strings.Split(a, ",") {
		f, spec, _ := strings.Cut(strings.ReplaceAll(strings.ReplaceAll(x, "~", modulePath(*flagRepo)), "!", h.Pkg+"."), ":")
		g := findFunc(prog, &Harness{Pkg: h.Pkg, Name: spec})
		if g == nil {
			return fmt.Errorf("no specification function %s in %s", spec, h.Pkg)
		}
		cfg.Contract[f] = g
	}
	return nil
}

func optInt(h *Harness, k string) int {
	n, _ := strconv.Atoi(h.Opts[k])
	return n
}

func findFunc(prog *Program, h *Harness) *ssa.Function {
	for _, p := range prog.ssa.AllPackages() {
		if p.Pkg.Path() == h.Pkg {
			return p.Func(h.Name)
		}
	}
	return nil
}

// staticCovers lists the reachability witnesses a harness declares with constant tags.
func staticCovers(fn *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if cal := c.Call.StaticCallee(); cal != nil && cal.String() == symPkg+".Cover" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(k.Value.ExactString())
							if !strings.HasPrefix(s, "?") {
								out = append(out, s)
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(fn)
	sort.Strings(out)
	return out
}

func summary(r *hResult) {
	ex := r.ex
	fmt.Printf("  %-40s paths=%d decisions=%d asserts=%d infeasible=%d depth=%d wall=%.1fs%s covers=%v vio=%d/%d validated=%d\n", r.h.Name, ex.paths, ex.decisions.Load(), ex.asserts.Load(), ex.infeasible, ex.maxDepth, r.wall, map[bool]string{true: " TRUNCATED", false: ""}[ex.truncated], ex.covers, len(r.confirmed), len(ex.violations), r.validated)
	var ks []string
	for k := range ex.incomplete {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 12 && !*flagV {
			break
		}
		fmt.Printf("    incomplete %dx %s\n", ex.incomplete[k], k)
	}
	for _, u := range r.unconf {
		fmt.Printf("    unconfirmed: %s\n", u)
	}
	for _, u := range r.mismatch {
		fmt.Printf("    mismatch: %s\n", u)
	}
}

func replayFile(file, mod string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	hs, ov, _ := collect(rp.Property, *flagVerif, *flagRepo, mod)
	n := buildNative(*flagRepo, *flagVerif, mod, hs, ov)
	defer n.close()
	if n.err != nil {
		fmt.Println(n.err)
		return 2
	}
	o := n.run([]Replay{rp}, 30*time.Second)
	fmt.Printf("%+v\n", o[0])
	if o[0].Result == "ok" || o[0].Result == "skip" {
		return 0
	}
	return 1
}
