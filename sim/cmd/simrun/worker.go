package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/h"
	"verif.local/sim/simrt"
)

// rec is one line a worker reports.
type rec struct {
	Idx   int        `json:"idx"`
	Viol  *h.Plan    `json:"viol,omitempty"`
	Out   *h.Outcome `json:"out,omitempty"`
	Stats *stats     `json:"stats,omitempty"`
	Hang  string     `json:"hang,omitempty"` // the class if the watchdog ended the execution
	Sub   int        `json:"sub,omitempty"`
}

// stats of a worker.
type stats struct {
	Runs, Cases, Nontrivial, Inconc       int64
	Steps, SimNs, Preempts                int64
	Fired, Probes, Scen                   map[string]int64
	Cov                                   []int
	Sigs                                  []uint64 // signatures of executions
	Ilvs                                  []uint64
	DetRuns, DetBad                       int64
	Samples                               []json.RawMessage
	Truncated                             bool
	Known                                 map[string]int64
	KnownWhat                             map[string]string
	FaultRuns, FaultFired, CleanRuns, Sup int64
}

// The watchdog ends executions that burn processor time in code the simulator
// cannot preempt, and those that fill the memory (single allocations are
// checked where they happen).
var (
	execStart atomic.Int64 // cpu time at the start of the execution, 0 = idle
	hangFn    atomic.Value // func(class string)
)

// maxHeap is far above what an execution needs.
const maxHeap = 2 << 30

var hangMsg = map[string]string{
	"hang":   "a call does not return (it burns processor time without end)",
	"memory": "a call fills the memory (more than 2 GB)",
}

func cpuTime() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func watchdog(limit time.Duration) {
	go func() {
		lastCPU, idle := int64(0), 0
		heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for tick := 0; ; tick++ {
			time.Sleep(20 * time.Millisecond)
			f, ok := hangFn.Load().(func(string))
			s := execStart.Load()
			if s == 0 || !ok {
				idle = 0
				continue
			}
			metrics.Read(heap)
			if heap[0].Value.Uint64() > maxHeap {
				f("memory")
			}
			if tick%25 != 0 {
				continue
			}
			now := cpuTime()
			if now-s > int64(limit) {
				f("hang")
			}
			if now-lastCPU < int64(5*time.Millisecond) {
				if idle++; idle > 60 {
					f("")
				}
			} else {
				idle = 0
			}
			lastCPU = now
		}
	}()
}

func timed(p *h.Plan) *h.Outcome {
	execStart.Store(cpuTime())
	o := h.Execute(p)
	execStart.Store(0)
	return o
}

func worker(pr *h.Prop, tier string, seed uint64, w, n, from, until int, dir string, cap time.Duration, detEvery int) {
	debug.SetMaxStack(48 << 20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	st := &stats{Fired: map[string]int64{}, Probes: map[string]int64{}, Scen: map[string]int64{}, Known: map[string]int64{}, KnownWhat: map[string]string{}}
	start := time.Now()
	thorough := tier == "thorough"
	total := pr.Quick
	if thorough {
		total = pr.Thorough
	}
	if until > 0 && until < total {
		total = until
	}
	cur := filepath.Join(dir, fmt.Sprintf("cur-%d.json", w))
	var curPlan *h.Plan
	var idx, sub int
	hangFn.Store(func(class string) {
		if class == "" {
			fmt.Fprintf(os.Stderr, "simrun: execution blocked outside of the simulator (case %d/%d)\n", idx, sub)
			os.Exit(3)
		}
		b, _ := json.Marshal(rec{Idx: idx, Sub: sub, Hang: class, Viol: curPlan})
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	})
	watchdog(45 * time.Second)
	sigs := map[uint64]struct{}{}
	ilvs := map[uint64]struct{}{}
	known := loadKnown()
	// exec runs one plan; true when it violates the property.
	exec := func(p *h.Plan) (*h.Outcome, bool) {
		curPlan = p
		b, _ := json.Marshal(p)
		os.WriteFile(cur, b, 0o644)
		o := timed(p)
		st.Runs++
		if len(p.Faults) > 0 {
			st.FaultRuns++
			if len(o.Fired) > 0 {
				st.FaultFired++
			}
		} else {
			st.CleanRuns++
		}
		st.Scen[p.Kind]++
		st.Steps += o.Steps
		st.SimNs += o.SimNs
		st.Preempts += o.Preempts
		for k, v := range o.Fired {
			st.Fired[k] += v
		}
		for k, v := range o.Probes {
			st.Probes[k] += v
		}
		if o.Inconc {
			st.Inconc++
		}
		if o.Nontrivial {
			if _, ok := sigs[o.Hash]; !ok {
				sigs[o.Hash] = struct{}{}
				st.Nontrivial++
			}
		}
		ilvs[o.Ilv] = struct{}{}
		if o.Class == "" && len(st.Samples) < 2 && o.Nontrivial && w == 0 && len(b) < 4000 && (st.Runs%7 == 1) {
			st.Samples = append(st.Samples, json.RawMessage(b))
		}
		if o.Class == "" && detEvery > 0 && st.Runs%int64(detEvery) == 0 {
			o2 := timed(p)
			st.DetRuns++
			if o2.Hash != o.Hash || o2.Class != o.Class {
				st.DetBad++
				fmt.Fprintf(os.Stderr, "simrun: case %d/%d is not deterministic: %x/%d %x/%d %s\n", idx, sub, o.Hash, o.Steps, o2.Hash, o2.Steps, o2.Msg)
				if os.Getenv("SIM_DUMP_NONDET") != "" {
					os.WriteFile("/tmp/nondet.json", b, 0o644)
				}
			}
		}
		if o.Class == "" {
			return o, false
		}
		if k := matchKnown(known, pr.ID, o); k != nil {
			st.Known[k.ID]++
			st.KnownWhat[k.ID] = k.What
			return o, false
		}
		return o, true
	}
	report := func(p *h.Plan, o *h.Outcome) {
		q := p.Clone()
		q.Sched = o.Sched
		enc.Encode(rec{Idx: idx, Sub: sub, Viol: q, Out: o})
		out.Flush()
	}
	found := false
cases:
	for idx = from + w; idx < total; idx += n {
		if time.Since(start) > cap {
			st.Truncated = true
			break
		}
		sub = 0
		r := h.NewRng(seed, h.HashStr(pr.ID), uint64(idx))
		p := pr.Gen(r, idx, thorough)
		p.Prop = pr.ID
		st.Cases++
		o, bad := exec(p)
		if bad {
			report(p, o)
			found = true
			break
		}
		if pr.Derive == nil || o.Class != "" {
			continue
		}
		for _, q := range pr.Derive(r, p, o, thorough) {
			sub++
			q.Prop = pr.ID
			if o, bad := exec(q); bad {
				report(q, o)
				found = true
				break cases
			}
		}
	}
	_ = found
	for i, c := range simrt.Cov {
		if c != 0 {
			st.Cov = append(st.Cov, i)
		}
	}
	const maxSigs = 200000
	for k := range sigs {
		if len(st.Sigs) >= maxSigs {
			break
		}
		st.Sigs = append(st.Sigs, k)
	}
	for k := range ilvs {
		if len(st.Ilvs) >= maxSigs {
			break
		}
		st.Ilvs = append(st.Ilvs, k)
	}
	enc.Encode(rec{Stats: st})
	out.Flush()
	os.Remove(cur)
}

// execMode executes one plan file and prints the outcome.
func execMode(file string) {
	debug.SetMaxStack(48 << 20)
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	p := &h.Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fatal("%v", err)
	}
	hangFn.Store(func(class string) {
		if class == "" {
			os.Exit(3)
		}
		b, _ := json.Marshal(execResult{Out: &h.Outcome{Class: class, Msg: hangMsg[class]}})
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	})
	watchdog(45 * time.Second)
	o := timed(p)
	b, _ = json.Marshal(execResult{Out: o, Sched: o.Sched})
	os.Stdout.Write(append(b, '\n'))
}

type execResult struct {
	Out   *h.Outcome
	Sched [][]simrt.SchedEv
}
