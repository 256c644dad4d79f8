package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(results []*hResult, start time.Time, nvio int) {
	type hEv struct {
		Harness    string            `json:"harness"`
		File       string            `json:"file"`
		Bounds     map[string]int    `json:"bounds,omitempty"`
		Paths      int               `json:"paths"`
		Decisions  int64             `json:"decisions"`
		Infeasible int               `json:"infeasible_paths"`
		Asserts    int64             `json:"assertions_checked"`
		Steps      int64             `json:"ssa_instructions"`
		Covers     map[string]int    `json:"covers_reached"`
		Truncated  bool              `json:"truncated_by_time"`
		Incomplete map[string]int    `json:"incomplete,omitempty"`
		Validated  int               `json:"native_replays_agreeing"`
		Mismatch   []string          `json:"native_replays_disagreeing,omitempty"`
		Unconf     []string          `json:"unconfirmed_counterexamples,omitempty"`
		WallS      float64           `json:"wall_s"`
		Functions  int               `json:"functions_encoded"`
		Opts       map[string]string `json:"options,omitempty"`
	}
	var hev []hEv
	fset := map[string]bool{}
	paths, val, asserts := 0, 0, int64(0)
	var dec int64
	var samples []interface{}
	for _, r := range results {
		ex := r.ex
		hev = append(hev, hEv{r.h.Name, r.h.File, ex.bounds, ex.paths, ex.decisions.Load(), ex.infeasible, ex.asserts.Load(), ex.steps.Load(), ex.covers, ex.truncated, ex.incomplete, r.validated, r.mismatch, r.unconf, round2(r.wall), len(ex.funcs), r.h.Opts})
		for f := range ex.funcs {
			fset[f] = true
		}
		paths += ex.paths
		dec += ex.decisions.Load()
		val += r.validated
		asserts += ex.asserts.Load()
		for _, s := range ex.samples {
			if len(samples) < 8 {
				samples = append(samples, map[string]interface{}{"harness": r.h.Name, "covers": s.covers, "values": clipMap(modelValues(s.model))})
			}
		}
	}
	var own, std []string
	mod := modulePath(*flagRepo)
	for f := range fset {
		if strings.Contains(f, mod) {
			if !strings.Contains(f, "verifsym") && !strings.Contains(f, ".Verif") {
				own = append(own, strings.ReplaceAll(f, mod+"/", ""))
			}
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(own)
	sort.Strings(std)
	ev := map[string]interface{}{
		"property": *flagProp,
		"tier":     *flagTier,
		"seed":     seed(),
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        paths,
			"transitions":                   dec,
			"traces_validated_against_impl": val,
			"samples":                       samples,
			"assertions_checked":            asserts,
			"harnesses":                     hev,
			"functions_encoded":             own,
			"library_functions_encoded":     len(std),
			"queries":                       statQueries.Load(),
			"queries_sat":                   statSat.Load(),
			"queries_unsat":                 statUnsat.Load(),
			"queries_unknown":               statUnknown.Load(),
			"queries_answered_from_cache":   statCache.Load(),
			"queries_integer_encoding":      statInt.Load(),
			"queries_raced_over_solvers":    statFallback.Load(),
			"solver_time_s":                 round2(float64(statSolverNS.Load()) / 1e9),
			"explanation":                   "states = symbolic paths explored to their end; transitions = symbolic branch decisions; every assertion was decided by an SMT solver for all values of the path; traces_validated = explored paths whose solver model was run on the native build with the same observations",
		},
		"assumptions": assumptions(),
		"wall_s":      round2(time.Since(start).Seconds()),
		"violations":  nvio,
	}
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, *flagProp+".json"), b, 0644)
}

func seed() int {
	n := 0
	for _, c := range os.Getenv("VERIF_SEED") {
		if c >= '0' && c <= '9' {
			n = n*10 + int(c-'0')
		}
	}
	return n
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func clipMap(m map[string]string) map[string]string {
	if len(m) <= 40 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	o := map[string]string{}
	for _, k := range ks[:40] {
		o[k] = m[k]
	}
	o["..."] = "more"
	return o
}

// assumptions come from the harness files: lines starting with "// ASSUME".
func assumptions() []string {
	out := []string{
		"bounds per harness are listed under coverage.harnesses[].bounds; inputs outside them are not covered",
		"Keccak-256 is an uninterpreted collision-free function with its real value on constants; counterexamples are re-solved with real hashes before native replay",
		"goroutines are not interleaved; logging, formatting and network stubs have no effect on state",
	}
	base := filepath.Join(*flagVerif, "harness")
	pre := strings.ToLower(*flagProp) + "_"
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasPrefix(fi.Name(), pre) {
			b, _ := os.ReadFile(p)
			for _, l := range strings.Split(string(b), "\n") {
				if s, ok := strings.CutPrefix(strings.TrimSpace(l), "// ASSUME"); ok {
					out = append(out, strings.TrimLeft(s, ": "))
				}
			}
		}
		return nil
	})
	return out
}
