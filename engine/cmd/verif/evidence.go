package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/engine/vm"
)

func (c *config) evidence(start time.Time, loadS float64, reps []harnessRep, funcs map[string]int64, blocks map[string][2]int,
	tot *vm.Result, inconclusive []string, nviol int, samples []any, prog *vm.Program) {
	type fn struct {
		Name    string `json:"function"`
		Calls   int64  `json:"calls"`
		Blocks  int    `json:"blocks_reached"`
		NBlocks int    `json:"blocks"`
	}
	var own []fn
	lib := map[string]int{}
	for f, n := range funcs {
		switch {
		case strings.Contains(f, modPath+"/verif"):
			continue
		case strings.Contains(f, modPath):
			own = append(own, fn{strings.ReplaceAll(f, modPath+"/", ""), n, blocks[f][0], blocks[f][1]})
		default:
			p := strings.TrimLeft(f, "(*")
			if i := strings.LastIndex(p, "/"); i >= 0 {
				if j := strings.Index(p[i:], "."); j >= 0 {
					p = p[:i+j]
				}
			} else if j := strings.Index(p, "."); j >= 0 {
				p = p[:j]
			}
			lib[p]++
		}
	}
	sort.Slice(own, func(i, j int) bool { return own[i].Name < own[j].Name })
	var asserts, folded, bysmt, unknown, steps int64
	replayed, mism := 0, 0
	complete := true
	for _, r := range reps {
		asserts += r.Asserts
		folded += r.Folded
		bysmt += r.SMT
		unknown += r.Unknown
		steps += r.Steps
		replayed += r.Replayed
		mism += r.Mismatch
		complete = complete && r.Complete
	}
	if len(samples) == 0 {
		samples = []any{"no path finished"}
	}
	cov := map[string]any{
		"states":                              tot.Paths,
		"transitions":                         tot.Decisions,
		"traces_validated_against_impl":       replayed,
		"samples":                             samples,
		"exhaustive":                          complete && len(inconclusive) == 0,
		"explanation":                         "states: symbolic paths followed to their end; transitions: branch decisions on symbolic conditions; every assertion on every path was decided for all values of the symbolic inputs, by the SMT solver or, where the term rewriter reduced it to a constant, by rewriting",
		"assertions":                          asserts,
		"assertions_settled_by_solver":        bysmt,
		"assertions_settled_by_rewriting":     folded,
		"assertions_unknown":                  unknown,
		"instructions":                        steps,
		"domain_decisions_repeated_by_solver": tot.Audits,
		"queries":                             tot.Stats.Queries,
		"queries_sat":                         tot.Stats.Sat,
		"queries_unsat":                       tot.Stats.Unsat,
		"queries_unknown":                     tot.Stats.Unknown,
		"solver_s":                            round(tot.Stats.Time.Seconds()),
		"solver_max_s":                        round(tot.Stats.MaxTime.Seconds()),
		"load_s":                              round(loadS),
		"replay_mismatches":                   mism,
		"harnesses":                           reps,
		"functions_encoded":                   own,
		"library_functions_encoded":           lib,
		"inconclusive":                        inconclusive,
	}
	ev := map[string]any{
		"property": c.prop,
		"tier":     c.tier,
		"seed":     c.seed,
		"level":    "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"input sizes, structures and loop counts are bounded as listed per harness",
			"the interpreter in /verif/engine implements Go semantics for the SSA form; sampled paths are replayed against the compiled code",
			"operating system calls, fmt, sort, regexp, MD5, RC4 and AES are replaced by models; MD5, RC4 and AES are uninterpreted functions on symbolic arguments",
		},
		"wall_s":     round(time.Since(start).Seconds()),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644)
}
