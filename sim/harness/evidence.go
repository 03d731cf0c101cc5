package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

func writeEvidence(sc *Scenario, verif, tier string, seed uint64, st *Stats, distinct, planned int, capped bool, viol int, wall float64) {
	var samples []interface{}
	for i := 0; i < 2; i++ {
		p, cfg := planAt(sc, seed, i)
		steps := p.Steps
		if len(steps) > 12 {
			steps = steps[:12]
		}
		fates := p.Fates
		if len(fates) > 8 {
			fates = fates[:8]
		}
		samples = append(samples, map[string]interface{}{"run": i, "variant": p.Variant, "nodes": p.Nodes, "knobs": p.K, "first_steps": steps, "first_fates": fates, "schedule_seed": fmt.Sprint(cfg.Seed), "mean_gap": cfg.MeanGap, "pct": cfg.PCT, "stall_prob": cfg.StallProb})
	}
	if wall <= 0 {
		wall = 0.001
	}
	nf := 0
	for _, v := range st.Faults {
		nf += v
	}
	cov := map[string]interface{}{
		"evaluations":         st.Runs,
		"distinct_nontrivial": distinct,
		"rule": "one evaluation is one simulated run: plan (devices, line data, stick behaviour, client operations, faults) and schedule are drawn from mix(VERIF_SEED, property, run number). " +
			"Two runs are distinct if the hash over their sequence of context switches (task, code position) differs; every run executes the workload and the oracle of the property.",
		"samples":                 samples,
		"planned_runs":            planned,
		"stopped_by_wall_clock":   capped,
		"runs_per_hour":           float64(st.Runs) / wall * 3600,
		"seeds_per_hour":          float64(st.Runs) / wall * 3600,
		"simulated_seconds":       float64(st.SimNs) / 1e9,
		"simulated_per_wall":      float64(st.SimNs) / 1e9 / wall,
		"scheduling_points":       st.Steps,
		"context_switches":        st.Switches,
		"forced_preemptions":      st.Preempts,
		"task_stalls":             st.Stalls,
		"timer_events":            st.Timers,
		"tasks":                   st.Tasks,
		"max_tasks_in_a_run":      st.MaxTasks,
		"host_frames":             st.Frames,
		"faults_injected":         st.Faults,
		"faults_injected_total":   nf,
		"rare_conditions_reached": st.Probes,
		"schedule_modes":          st.Modes,
		"workload_variants":       st.Variants,
		"distinct_interleavings":  distinct,
		"interleaving_measure":    "distinct hashes over the sequence of context switches (task id, site)",
		"real_code":               "all of github.com/stampzilla/gozwave except cmd/, generators/ and zwave-example/, as in the working tree, rewritten only to pass goroutines, channels, locks, timers, maps and files through the simulator; logrus, uuid, encoding/json, encoding/gob and the rest of the standard library unchanged",
		"stubs":                   "serial port and controller stick with its Z-Wave network (own wire format model), file system (volatile and durable state), clock and timers, goroutine scheduler, channels and locks (simulator), OS process (killed and restarted)",
	}
	ev := map[string]interface{}{
		"property": sc.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"goroutines are pre-empted between statements and at channel, lock, map and file operations, not inside expressions (sequentially consistent memory)",
			"the stick model follows the serial API as the library uses it; what it may do is described in DESIGN.md",
			"a clean batch is evidence from the sampled runs, not a proof",
		},
		"wall_s": wall, "violations": viol,
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, sc.ID+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
