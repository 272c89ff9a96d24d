package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Evidence struct {
	id, tier      string
	cfg           *CheckCfg
	Paths, Done   int
	Decisions     int
	Asserts       int
	SymAsserts    int
	Queries       int
	Unknown       int
	SolverS       float64
	SlowestMs     int64
	Steps         int64
	Validated     int
	lastValidated int
	Diverged      int
	Unconfirmed   int
	Samples       []map[string]any
	Funcs         map[string]bool
	Harness       []map[string]any
	Notes         []string
	Known         []string
	Vacuous       []string
	exhaustive    bool
}

func newEvidence(id, tier string, cfg *CheckCfg) *Evidence {
	return &Evidence{id: id, tier: tier, cfg: cfg, Funcs: map[string]bool{}, exhaustive: true}
}

func (e *Evidence) note(s string) {
	if len(e.Notes) < 30 {
		e.Notes = append(e.Notes, s)
	}
}

func (e *Evidence) add(h HarnessCfg, tc TierCfg, r *Result) {
	e.Paths += r.Paths
	e.Done += r.Done
	e.Decisions += r.Branches
	e.Asserts += r.Asserts
	e.SymAsserts += r.SymAsserts
	e.Queries += r.Queries
	e.Unknown += r.Unknown
	e.SolverS += r.SolverS
	e.Steps += r.Steps
	if r.SlowestMs > e.SlowestMs {
		e.SlowestMs = r.SlowestMs
	}
	for f := range r.Funcs {
		e.Funcs[f] = true
	}
	if !r.Complete {
		e.exhaustive = false
	}
	b, _ := json.Marshal(r)
	m := map[string]any{}
	json.Unmarshal(b, &m)
	m["bounds"] = h.Bounds
	m["time_limit_s"] = tc.Seconds
	m["reached"] = sortedKeys(r.Reached)
	e.Harness = append(e.Harness, m)
}

func (e *Evidence) write(nviol int, wall time.Duration, p *Program) {
	var fl []string
	for f := range e.Funcs {
		fl = append(fl, strings.ReplaceAll(f, repoMod+"/", ""))
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if e.Samples == nil {
		e.Samples = []map[string]any{}
	}
	bounds := []string{}
	for _, h := range e.cfg.Harnesses {
		bounds = append(bounds, h.Fn+": "+h.Bounds)
	}
	cov := map[string]any{
		"method":                        "symbolic execution of the Go SSA of /repo's current source; every branch, bound and assertion over symbolic inputs is decided by z3; counterexamples are replayed on the natively compiled code",
		"states":                        e.Paths,
		"transitions":                   e.Decisions,
		"states_meaning":                "symbolic paths (each one stands for every input satisfying its path condition)",
		"transitions_meaning":           "symbolic decisions taken along those paths",
		"traces_validated_against_impl": e.Validated,
		"paths_completed":               e.Done,
		"assertions_evaluated":          e.Asserts,
		"assertions_decided_by_solver":  e.SymAsserts,
		"solver_queries":                e.Queries,
		"solver_unknown":                e.Unknown,
		"solver_s":                      e.SolverS,
		"slowest_query_ms":              e.SlowestMs,
		"ssa_instructions":              e.Steps,
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fl),
		"bounds":                        bounds,
		"outside_the_bounds":            e.cfg.Outside,
		"harnesses":                     e.Harness,
		"exhaustive":                    e.exhaustive,
		"model_vs_real_divergences":     e.Diverged,
		"unconfirmed_candidates":        e.Unconfirmed,
		"samples":                       e.Samples,
		"load_s":                        p.loadTime.Seconds(),
		"packages_loaded":               p.npkgs,
	}
	if len(e.Notes) > 0 {
		cov["notes"] = e.Notes
	}
	if len(e.Known) > 0 {
		cov["known_findings_reproduced"] = e.Known
	}
	if len(e.Vacuous) > 0 {
		cov["vacuous"] = e.Vacuous
	}
	out := map[string]any{
		"property": e.id, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": e.cfg.Assumptions, "wall_s": wall.Seconds(), "violations": nviol,
	}
	if e.cfg.Assumptions == nil {
		out["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	p2 := filepath.Join(verifDir, "evidence", e.id+".json")
	os.MkdirAll(filepath.Dir(p2), 0o755)
	if err := os.WriteFile(p2, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
