package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type evid struct {
	prop, tier string
	assume     []string
	hs         []map[string]interface{}
	funcs      map[string]int
	states     int
	trans      int
	validated  int
	samples    []interface{}
	violations int
	loadT      time.Duration
	queries    int
	solverT    float64
	asserts    int
	complete   bool
	bounds     []string
	tsamples   int
}

func newEvidence(prop, tier string) *evid {
	return &evid{prop: prop, tier: tier, funcs: map[string]int{}, complete: true}
}

func (e *evid) add(h *harness, ex *Explorer, complete bool, validated int, mism, unconf, miss []string, wall time.Duration, budget int) {
	e.states += ex.Paths
	e.trans += ex.Instrs
	e.validated += validated
	e.queries += ex.Queries
	e.solverT += ex.SolverT.Seconds()
	e.asserts += ex.Asserts
	e.complete = e.complete && complete
	for k, v := range ex.Funcs {
		e.funcs[k] += v
	}
	e.assume = append(e.assume, h.Assume...)
	for _, b := range h.Bounds {
		e.bounds = append(e.bounds, h.Fn+": "+b)
	}
	for i, s := range ex.Samples {
		if i >= 2 {
			break
		}
		e.samples = append(e.samples, map[string]interface{}{"harness": h.Fn, "inputs_of_one_path_model": s.Vals, "observed": s.Obs})
	}
	if len(ex.Samples) == 0 {
		e.samples = append(e.samples, map[string]interface{}{"harness": h.Fn, "longest_decision_trace": ex.maxTrace})
	}
	e.hs = append(e.hs, map[string]interface{}{
		"harness": h.Pkg + "." + h.Fn, "bounds": h.Bounds, "paths": ex.Paths, "paths_cut_by_assumptions": ex.Infeas,
		"branch_decisions": ex.Forks, "branch_decisions_on_unconstrained_booleans": ex.FreeForks, "assertions_decided": ex.Asserts, "ssa_instructions_executed": ex.Instrs,
		"solver_queries": ex.Queries, "solver_queries_in_integer_encoding": ex.IntN, "sat": ex.SatN, "unsat": ex.UnsatN, "unknown": ex.UnkN,
		"solver_seconds": ex.SolverT.Seconds(), "wall_s": wall.Seconds(), "time_budget_s": budget,
		"explored_completely_within_bounds": complete, "paths_left_unexplored": ex.Pending,
		"unsupported": ex.Unsup, "truncated": ex.Truncated, "notes": ex.Notes,
		"path_models_replayed_on_real_code": validated, "replay_mismatches": mism,
		"counterexamples_not_reproduced": unconf, "reachability_witnesses": ex.Reached, "witnesses_missing": miss,
		"solver_errors": ex.SolvErrs, "schedule_mode": h.Cfg.SchedMode, "schedule_budget": h.Cfg.MaxPre,
	})
}

func (e *evid) write(wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fs []string
	for k := range e.funcs {
		fs = append(fs, k)
	}
	sort.Strings(fs)
	doc := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": e.states, "transitions": e.trans, "traces_validated_against_impl": e.validated,
			"samples":    e.samples,
			"exhaustive": e.complete,
			"explanation": "states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = SSA instructions of the real code executed symbolically; " +
				"traces_validated_against_impl = solver models of completed paths re-run on the natively compiled code with identical observations",
			"functions_encoded":      fs,
			"assertions_decided":     e.asserts,
			"queries_discharged":     e.queries,
			"solver_seconds":         e.solverT,
			"load_seconds":           e.loadT.Seconds(),
			"bounds":                 e.bounds,
			"harnesses":              e.hs,
			"complete_within_bounds": e.complete,
		},
		"assumptions": e.assume,
		"wall_s":      wall.Seconds(),
		"violations":  e.violations,
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fmt.Println("ERROR evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(verifDir, "evidence", e.prop+".json"), b, 0644)
}
