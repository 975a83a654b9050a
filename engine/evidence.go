package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ssaFuncSet = map[*ssa.Function]bool

func writeEvidence(root, prop, tier string, seed int64, p *Prop, ex *explorer, hrs []*harnessRun, confirmed []*Violation, spurious []string, validated, nrandom int, loadS float64, wall time.Duration, kf []string, nb *nativeBuild) bool {
	var fns []string
	for f := range ex.funcs {
		fns = append(fns, f.String())
	}
	sort.Strings(fns)
	var states, trans int64
	complete := true
	var hs []map[string]interface{}
	var samples []interface{}
	asserts := 0
	for _, hr := range hrs {
		np := 0
		for _, n := range hr.outcome {
			np += n
		}
		states += int64(np) + hr.forks
		trans += hr.steps
		asserts += hr.asserts
		m := map[string]interface{}{"harness": hr.spec.H, "params": hr.spec.Params, "paths": np, "outcomes": hr.outcome,
			"assertions": hr.asserts, "instructions": hr.steps, "longest_path_instructions": hr.maxStep, "cpu_s": fmt.Sprintf("%.1f", hr.secs)}
		if hr.dropped > 0 {
			m["paths_not_explored"] = hr.dropped
			complete = false
		}
		if len(hr.incon) > 0 {
			m["undecided"] = hr.incon
			complete = false
		}
		if len(hr.notes) > 0 {
			var ns []string
			for n := range hr.notes {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			m["notes"] = ns
		}
		var rs []string
		for r := range hr.reached {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		if len(rs) > 60 {
			rs = append(rs[:60], "…")
		}
		m["reached"] = rs
		for _, want := range hr.spec.Reach {
			if hr.reached[want] == 0 {
				m["vacuous"] = "label not reached: " + want
				complete = false
			}
		}
		if hr.asserts == 0 {
			m["vacuous"] = "no assertion reached"
			complete = false
		}
		hs = append(hs, m)
		for i, v := range hr.valid {
			if i < 1 && len(samples) < 6 {
				a := map[string]string{}
				n := 0
				var ks []string
				for k := range v.Assign {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if n < 12 {
						a[k] = clip(v.Assign[k], 80)
					}
					n++
				}
				samples = append(samples, map[string]interface{}{"harness": v.Harness, "path_model": a, "inputs": n})
			}
		}
	}
	for _, v := range confirmed {
		samples = append(samples, map[string]interface{}{"violation": v.Msg, "harness": v.Harness})
	}
	if len(samples) == 0 {
		for _, hr := range hrs {
			samples = append(samples, map[string]interface{}{"harness": hr.spec.H, "params": hr.spec.Params})
		}
	}
	st := ex.stats
	var hv []string
	for _, s := range spurious {
		hv = append(hv, clip(s, 500))
	}
	cov := map[string]interface{}{
		"states":                               states,
		"transitions":                          trans,
		"traces_validated_against_impl":        validated,
		"samples":                              samples,
		"states_meaning":                       "ends of explored symbolic paths plus branch points with both sides feasible",
		"transitions_meaning":                  "SSA instructions of the code under test executed symbolically",
		"bounds":                               p.Bounds,
		"harnesses":                            hs,
		"functions_encoded":                    fns,
		"assertions":                           asserts,
		"assertions_closed_by_canonical_form":  st.trivial,
		"group_equations":                      st.groupEqs,
		"compensations_rechecked_by_solver":    map[string]int64{"confirmed": st.spanUnsat, "unknown": st.spanUnknown, "not_sent": st.spanSkipped},
		"group_identities_rechecked_by_solver": map[string]int64{"confirmed": st.identUnsat, "unknown": st.identUnknown, "refuted": st.identSat, "not_sent": st.identSkipped},
		"queries_retried_as_bit_vectors":       st.blasted,
		"solver":                               map[string]interface{}{"name": "z3 5.3.2 (z3-new)", "queries": st.queries, "sat": st.sat, "unsat": st.unsat, "unknown": st.unknown, "time_s": float64(st.solverNs) / 1e9, "slowest_s": st.slowest.Seconds()},
		"native_random_runs":                   nrandom,
		"complete_within_bounds":               complete && !ex.timedOut,
		"load_s":                               loadS,
	}
	if len(hv) > 0 {
		cov["candidates_not_reproduced"] = hv
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": wall.Seconds(), "violations": len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d paths/forks, %d instructions, %d assertions, %d solver queries (%d unsat, %d sat, %d unknown, %.1fs), %d native replays, wall %.1fs%s\n",
		prop, tier, states, trans, asserts, st.queries, st.unsat, st.sat, st.unknown, float64(st.solverNs)/1e9, validated+nrandom, wall.Seconds(),
		map[bool]string{true: "", false: " [incomplete: see evidence]"}[complete && !ex.timedOut])
	for _, hr := range hrs {
		for k, n := range hr.incon {
			fmt.Printf("  undecided %s: %s (%d)\n", hr.spec.H, clip(k, 300), n)
		}
	}
	for _, s := range hv {
		fmt.Printf("  note: %s\n", clip(s, 300))
	}
	return complete
}
