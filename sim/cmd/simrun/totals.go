package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif.local/sim/h"
)

type totals struct {
	stats
	sigs, ilvs map[uint64]struct{}
	cov        map[int]struct{}
}

func newTotals() *totals {
	t := &totals{sigs: map[uint64]struct{}{}, ilvs: map[uint64]struct{}{}, cov: map[int]struct{}{}}
	t.Fired, t.Probes, t.Scen = map[string]int64{}, map[string]int64{}, map[string]int64{}
	t.Known, t.KnownWhat = map[string]int64{}, map[string]string{}
	return t
}

func (t *totals) add(s *stats) {
	t.Runs += s.Runs
	t.Cases += s.Cases
	t.Inconc += s.Inconc
	t.Steps += s.Steps
	t.SimNs += s.SimNs
	t.Preempts += s.Preempts
	t.DetRuns += s.DetRuns
	t.DetBad += s.DetBad
	t.FaultRuns += s.FaultRuns
	t.FaultFired += s.FaultFired
	t.CleanRuns += s.CleanRuns
	t.Truncated = t.Truncated || s.Truncated
	for _, m := range [][2]map[string]int64{{t.Fired, s.Fired}, {t.Probes, s.Probes}, {t.Scen, s.Scen}, {t.Known, s.Known}} {
		for k, v := range m[1] {
			m[0][k] += v
		}
	}
	for k, v := range s.KnownWhat {
		t.KnownWhat[k] = v
	}
	for _, x := range s.Sigs {
		t.sigs[x] = struct{}{}
	}
	for _, x := range s.Ilvs {
		t.ilvs[x] = struct{}{}
	}
	for _, x := range s.Cov {
		t.cov[x] = struct{}{}
	}
	t.Samples = append(t.Samples, s.Samples...)
}

func (t *totals) write(pr *h.Prop, start time.Time, code int) {
	if *fOut == "" {
		return
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":                         t.Runs,
		"distinct_nontrivial":                 len(t.sigs),
		"rule":                                pr.Rule,
		"samples":                             t.Samples,
		"generated_cases":                     t.Cases,
		"runs_with_planned_faults":            t.FaultRuns,
		"runs_in_which_a_fault_fired":         t.FaultFired,
		"fault_free_runs":                     t.CleanRuns,
		"faults_fired_by_kind":                t.Fired,
		"runs_by_scenario":                    t.Scen,
		"probes":                              t.Probes,
		"runs_per_hour":                       int64(float64(t.Runs) / wall * 3600),
		"seeds_per_hour":                      int64(float64(t.Cases) / wall * 3600),
		"simulated_seconds":                   float64(t.SimNs) / 1e9,
		"simulated_steps":                     t.Steps,
		"preemptions":                         t.Preempts,
		"distinct_interleaving_signatures":    len(t.ilvs),
		"interleaving_measure":                "hash over every task switch (statement site, task) and every storage event of a run",
		"determinism_reexecutions":            t.DetRuns,
		"determinism_mismatches":              t.DetBad,
		"inconclusive_linearizability_checks": t.Inconc,
		"components_running_real_code":        pr.Real,
		"components_stubbed":                  pr.Stub,
		"race_detector":                       pr.Race,
		"stopped_by_wall_clock_cap":           t.Truncated,
		"workers":                             *fOf,
	}
	if len(t.Samples) == 0 {
		cov["samples"] = []any{"(no short sample in worker 0)"}
	}
	if *fSites != "" {
		if b, err := os.ReadFile(*fSites); err == nil {
			var sites []struct {
				ID   int    `json:"id"`
				File string `json:"file"`
				Line int    `json:"line"`
			}
			json.Unmarshal(b, &sites)
			tot, hit := map[string]int{}, map[string]int{}
			for _, s := range sites {
				k := filepath.Base(filepath.Dir(s.File)) + "/" + filepath.Base(s.File)
				tot[k]++
				if _, ok := t.cov[s.ID]; ok {
					hit[k]++
				}
			}
			c := map[string][2]int{}
			for k, n := range tot {
				if hit[k] > 0 {
					c[k] = [2]int{hit[k], n}
				}
			}
			cov["statement_sites_reached_of_total"] = c
		}
	}
	ev := map[string]any{
		"property": pr.ID, "tier": *fTier, "seed": *fSeed, "level": *fLevel,
		"coverage": cov, "wall_s": wall, "violations": map[int]int{0: 0, 1: 1, 2: 0}[code],
		"assumptions": []string{
			"sampling: a clean batch is evidence, not proof",
			"the simulated storage and source behave as io.ReaderAt, io.Writer, io.WriterAt and fs.FS allow; faults are the listed kinds",
			"the Go standard library below the seams (archive/tar, bytes, io) is trusted as executed",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fOut), 0o755)
	if err := os.WriteFile(*fOut, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if os.Getenv("SIM_VERBOSE") != "" {
		var un []string
		if bb, err := os.ReadFile(*fSites); err == nil {
			var sites []struct {
				ID   int    `json:"id"`
				File string `json:"file"`
				Line int    `json:"line"`
			}
			json.Unmarshal(bb, &sites)
			for _, s := range sites {
				if _, ok := t.cov[s.ID]; !ok {
					un = append(un, s.File+":"+itoa(s.Line))
				}
			}
		}
		os.WriteFile("/tmp/unreached-"+pr.ID+".txt", []byte(strings.Join(un, "\n")+"\n"), 0o644)
	}
}

func itoa(n int) string { b, _ := json.Marshal(n); return string(b) }
