package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif.local/sim/h"
	"verif.local/sim/simrt"
)

// replayFile is what a reported violation comes with.
type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Hash     string   `json:"execution_hash,omitempty"`
	Seed     int64    `json:"batch_seed"`
	Tier     string   `json:"tier"`
	Case     string   `json:"case"`
	Plan     *h.Plan  `json:"plan,omitempty"`
	History  *history `json:"history,omitempty"` // the failure needs earlier runs in the same process
	Race     string   `json:"race_report,omitempty"`
	HowTo    string   `json:"how_to"`
}

type history struct {
	Worker int `json:"worker"`
	Of     int `json:"of"`
	From   int `json:"from"`
	Until  int `json:"until"`
}

var execs int

// execPlan executes a plan in a fresh process.
func execPlan(p *h.Plan, raceLog string) *execResult {
	execs++
	f := filepath.Join(*fDir, fmt.Sprintf("exec-%d.json", execs))
	b, _ := json.Marshal(p)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f)
	cmd := exec.Command(selfExe(), "-exec", f)
	cmd.Env = env()
	if raceLog != "" {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+raceLog)
	}
	var so bytes.Buffer
	var se tailBuf
	cmd.Stdout, cmd.Stderr = &so, &se
	timer := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	timer.Stop()
	var r execResult
	if e := json.Unmarshal(so.Bytes(), &r); e == nil && r.Out != nil {
		return &r
	}
	if c := crashClass(se.String()); c != "" {
		return &execResult{Out: &h.Outcome{Class: "process-crash", Msg: c}}
	}
	return &execResult{Out: &h.Outcome{Class: "", Msg: fmt.Sprintf("no result: %v", err)}}
}

// reportViolation reproduces, minimises and stores a violation; "" if it cannot
// be reproduced.
func reportViolation(pr *h.Prop, v violation) string {
	fmt.Printf("case %d/%d: %s: %s\n", v.idx, v.sub, v.out.Class, clipStr(v.out.Msg, 600))
	class := v.out.Class
	rf := &replayFile{Property: pr.ID, Class: class, Seed: *fSeed, Tier: *fTier, Case: fmt.Sprintf("%d/%d", v.idx, v.sub),
		HowTo: "in /verif: ./check.sh " + pr.ID + " replay <this file>"}
	plan := v.plan.Clone()
	sched := plan.Sched
	plan.Sched, plan.Replay = nil, false
	res := execPlan(plan, "")
	if res.Out.Class != class {
		// The recorded schedule instead of the seed.
		plan.Sched, plan.Replay = sched, true
		res = execPlan(plan, "")
	}
	if res.Out.Class == class {
		plan, res = minimise(plan, class, 60*time.Second)
		rf.Plan = plan
		rf.Message = res.Out.Msg
		if class == "data-race" {
			log := filepath.Join(*fDir, "race")
			if r := execPlan(plan, log); r.Out.Class == class {
				m, _ := filepath.Glob(log + "*")
				for _, f := range m {
					b, _ := os.ReadFile(f)
					rf.Race += clipStr(string(b), 6000)
				}
			}
		}
		// It must fail the same way every time.
		a := execPlan(plan, "")
		b := execPlan(plan, "")
		if a.Out.Class == class && b.Out.Class == class {
			rf.Hash = fmt.Sprintf("%016x", a.Out.Hash)
			if a.Out.Hash != b.Out.Hash && class != "process-crash" && class != "hang" && class != "memory" {
				fmt.Fprintln(os.Stderr, "simrun: warning: executions of the replay differ")
			}
			return store(rf)
		}
		return ""
	}
	// State left behind by earlier runs of the process may be needed.
	if v.idx < 1<<30 {
		h := &history{Worker: v.w, Of: *fOf, From: *fFrom, Until: v.idx + 1}
		if c, msg := runHistory(pr.ID, h); c == class {
			for step := (v.idx - h.From) / *fOf; step > 0; step /= 2 {
				for {
					n := *h
					n.From += step * *fOf
					if n.From+n.Worker > v.idx {
						break
					}
					if c, _ := runHistory(pr.ID, &n); c != class {
						break
					}
					*h = n
				}
			}
			rf.History = h
			rf.Message = msg
			return store(rf)
		}
	}
	return ""
}

func runHistory(prop string, hs *history) (string, string) {
	det := *fDet
	e := runWorker(workerArgs(prop, hs.Worker, hs.Of, hs.From, hs.Until), hs.Worker, nil, nil)
	*fDet = det
	for _, r := range e.recs {
		if r.Viol != nil && r.Out != nil {
			return r.Out.Class, r.Out.Msg
		}
	}
	return "", ""
}

func store(rf *replayFile) string {
	b, _ := json.MarshalIndent(rf, "", " ")
	sum := sha256.Sum256(b)
	dir := *fReplays
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", rf.Property, sum[:6]))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("minimised: %s\n%s\n", clipStr(rf.Message, 1500), planSummary(rf.Plan))
	return f
}

func planSummary(p *h.Plan) string {
	if p == nil {
		return "(history replay)"
	}
	n := 0
	for _, s := range p.Sched {
		n += len(s)
	}
	return fmt.Sprintf("scenario %s: %d nodes, %d operations, %d faults, %d recorded scheduling decisions (%d executions to minimise)", p.Kind, len(p.Nodes), len(p.Ops), len(p.Faults), n, execs)
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// deadline of the minimisation.
var deadline time.Time

// minimise removes what the violation does not need.
func minimise(p *h.Plan, class string, budget time.Duration) (*h.Plan, *execResult) {
	deadline = time.Now().Add(budget)
	best := p
	var bestRes *execResult
	try := func(q *h.Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		r := execPlan(q, "")
		if r.Out.Class == class {
			best, bestRes = q, r
			return true
		}
		return false
	}
	try(p)
	if class == "hang" || class == "memory" {
		deadline = time.Now().Add(20 * time.Second)
	}
	reduceAll := func() {
		reduce(len(best.Faults), func(keep []int) bool {
			q := best.Clone()
			q.Faults = nil
			for _, i := range keep {
				if i < len(best.Faults) {
					q.Faults = append(q.Faults, best.Faults[i])
				}
			}
			return try(q)
		})
		reduce(len(best.Ops), func(keep []int) bool {
			q := best.Clone()
			q.Ops = nil
			for _, i := range keep {
				if i < len(best.Ops) {
					q.Ops = append(q.Ops, best.Ops[i])
				}
			}
			return try(q)
		})
		reduce(len(best.Nodes), func(keep []int) bool {
			q := best.Clone()
			q.Nodes = nil
			for _, i := range keep {
				if i < len(best.Nodes) {
					q.Nodes = append(q.Nodes, best.Nodes[i])
				}
			}
			if !h.Props[q.Prop].Log {
				q.Nodes = h.Normalize(q.Nodes)
			}
			return try(q)
		})
	}
	reduceAll()
	if best.IO != 0 {
		q := best.Clone()
		q.IO = 0
		try(q)
	}
	if best.Mean != 0 && !best.Replay {
		q := best.Clone()
		q.Mean = 0
		try(q)
	}
	simplify(&best, try)
	// Fix the schedule and reduce it.
	if bestRes != nil && !best.Replay {
		q := best.Clone()
		q.Replay, q.Sched = true, bestRes.Sched
		try(q)
	}
	if best.Replay {
		for k := range best.Sched {
			reduce(len(best.Sched[k]), func(keep []int) bool {
				q := best.Clone()
				q.Sched[k] = nil
				for _, i := range keep {
					q.Sched[k] = append(q.Sched[k], best.Sched[k][i])
				}
				return try(q)
			})
		}
		reduceAll()
	}
	if bestRes == nil {
		bestRes = execPlan(best, "")
	}
	return best, bestRes
}

// simplify the values of nodes.
func simplify(best **h.Plan, try func(*h.Plan) bool) {
	for i := range (*best).Nodes {
		if i > 24 {
			break
		}
		for _, f := range []func(n *h.Node){
			func(n *h.Node) { n.U, n.G = 0, 0 },
			func(n *h.Node) { n.TN = 0 },
			func(n *h.Node) { n.TZ, n.T, n.TN = true, 0, 0 },
			func(n *h.Node) {
				if n.K == "d" {
					n.M = 0o755
				} else if n.K == "f" {
					n.M = 0o644
				}
			},
			func(n *h.Node) { n.S = 0 },
			func(n *h.Node) { n.S = n.S / 2 },
			func(n *h.Node) { n.S-- },
		} {
			if i >= len((*best).Nodes) {
				return
			}
			q := (*best).Clone()
			f(&q.Nodes[i])
			if q.Nodes[i].S < 0 || q.Nodes[i] == (*best).Nodes[i] {
				continue
			}
			try(q)
		}
	}
}

// reduce is delta debugging over a list of n elements.
func reduce(n int, test func(keep []int) bool) {
	if n == 0 {
		return
	}
	cur := make([]int, n)
	for i := range cur {
		cur[i] = i
	}
	// test works on the best plan so far, so indexes are renumbered after each success.
	if test(nil) {
		return
	}
	chunk := (len(cur) + 1) / 2
	for chunk >= 1 && len(cur) > 0 {
		removed := false
		for at := 0; at < len(cur); {
			if time.Now().After(deadline) {
				return
			}
			hi := min(at+chunk, len(cur))
			var keep []int
			for i := range cur {
				if i < at || i >= hi {
					keep = append(keep, i)
				}
			}
			if len(keep) < len(cur) && test(keep) {
				cur = cur[:len(keep)]
				removed = true
			} else {
				at = hi
			}
		}
		if !removed || chunk > 1 {
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
			if chunk == 0 {
				break
			}
		}
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	var class, msg string
	if rf.History != nil {
		*fSeed, *fTier = rf.Seed, rf.Tier
		class, msg = runHistory(rf.Property, rf.History)
	} else {
		r := execPlan(rf.Plan, "")
		class, msg = r.Out.Class, r.Out.Msg
		fmt.Printf("execution hash %016x (recorded %s)\n", r.Out.Hash, rf.Hash)
	}
	if class == "" {
		fmt.Printf("replay of %s: no violation %s\n", strings.TrimSpace(file), msg)
		return 0
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", class, msg, rf.Property, file)
	return 1
}

var _ = simrt.SchedEv{}
