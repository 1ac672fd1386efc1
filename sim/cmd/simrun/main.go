// Command simrun searches for violations of one property by simulated runs.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/h"
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", args...)
	os.Exit(2)
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "seed of the batch")
	fWorker  = flag.Int("worker", -1, "")
	fOf      = flag.Int("of", 8, "number of workers")
	fFrom    = flag.Int("from", 0, "")
	fUntil   = flag.Int("until", 0, "")
	fExec    = flag.String("exec", "", "execute one plan file")
	fReplay  = flag.String("replay", "", "replay file")
	fDir     = flag.String("dir", "", "scratch directory")
	fOut     = flag.String("evidence", "", "evidence file")
	fReplays = flag.String("replays", "", "directory of replay files")
	fSites   = flag.String("sites", "", "sites.json of the instrumenter")
	fLevel   = flag.String("level", "exploration", "")
	fDet     = flag.Int("det", 9, "re-execute every n-th run")
	fCap     = flag.Duration("cap", 0, "wall time cap")
	fList    = flag.Bool("list", false, "list properties")
)

func main() {
	flag.Parse()
	if *fList {
		for id, p := range h.Props {
			fmt.Println(id, p.Race, p.Quick, p.Thorough)
		}
		return
	}
	if *fExec != "" {
		execMode(*fExec)
		return
	}
	if *fDir == "" {
		d, err := os.MkdirTemp("", "simrun")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(d)
		*fDir = d
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	pr := h.Props[*fProp]
	if pr == nil {
		fatal("unknown property %q", *fProp)
	}
	cap := *fCap
	if cap == 0 {
		cap = 240 * time.Second
		if *fTier == "thorough" {
			cap = 40 * time.Minute
		}
	}
	if *fWorker >= 0 {
		worker(pr, *fTier, uint64(*fSeed), *fWorker, *fOf, *fFrom, *fUntil, *fDir, cap, *fDet)
		return
	}
	os.Exit(master(pr, cap))
}

type workerEnd struct {
	w      int
	recs   []rec
	code   int
	stderr string
	killed bool
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return e
}

func env() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2")
}

// runWorker starts one worker process and collects what it reports.
func runWorker(args []string, w int, onViol func(), stop <-chan struct{}) workerEnd {
	end := workerEnd{w: w}
	cmd := exec.Command(selfExe(), args...)
	cmd.Env = env()
	var eb tailBuf
	cmd.Stderr = &eb
	so, err := cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-stop:
			end.killed = true
			cmd.Process.Kill()
		case <-done:
		}
	}()
	sc := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 0 && line[0] == '{' {
			var r rec
			if e := json.Unmarshal(line, &r); e == nil {
				end.recs = append(end.recs, r)
				if r.Viol != nil && onViol != nil {
					onViol()
				}
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	close(done)
	if err != nil {
		end.code = 1
		if ee, ok := err.(*exec.ExitError); ok {
			end.code = ee.ExitCode()
		}
	}
	end.stderr = eb.String()
	return end
}

type tailBuf struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.head.Len() < 1<<16 {
		t.head.Write(p)
	} else {
		t.tail = append(t.tail, p...)
		if len(t.tail) > 1<<16 {
			t.tail = append([]byte(nil), t.tail[len(t.tail)-1<<15:]...)
		}
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.head.String() + string(t.tail)
}

func workerArgs(pr string, w, of, from, until int) []string {
	return []string{"-prop", pr, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-worker", fmt.Sprint(w), "-of", fmt.Sprint(of),
		"-from", fmt.Sprint(from), "-until", fmt.Sprint(until), "-dir", *fDir, "-det", fmt.Sprint(*fDet), "-cap", fCap.String()}
}

type violation struct {
	idx, sub int
	plan     *h.Plan
	out      *h.Outcome
	w        int
}

func master(pr *h.Prop, cap time.Duration) int {
	start := time.Now()
	*fCap = cap
	fmt.Printf("property %s tier %s seed %d\n", pr.ID, *fTier, *fSeed)
	stop := make(chan struct{})
	var once sync.Once
	onViol := func() {
		once.Do(func() {
			go func() { time.Sleep(4 * time.Second); close(stop) }()
		})
	}
	ends := make([]workerEnd, *fOf)
	var wg sync.WaitGroup
	for w := 0; w < *fOf; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ends[w] = runWorker(workerArgs(pr.ID, w, *fOf, *fFrom, *fUntil), w, onViol, stop)
		}()
	}
	wg.Wait()
	var viols []violation
	tot := newTotals()
	trouble := ""
	for _, e := range ends {
		got := false
		for _, r := range e.recs {
			switch {
			case r.Hang != "":
				viols = append(viols, violation{r.Idx, r.Sub, r.Viol, &h.Outcome{Class: r.Hang, Msg: hangMsg[r.Hang]}, e.w})
				got = true
			case r.Viol != nil:
				viols = append(viols, violation{r.Idx, r.Sub, r.Viol, r.Out, e.w})
			case r.Stats != nil:
				got = true
				tot.add(r.Stats)
			}
		}
		if got || e.killed {
			continue
		}
		// The worker died.  Only a fatal error of the runtime inside the code
		// under test counts; everything else is trouble of the harness.
		b, err := os.ReadFile(filepath.Join(*fDir, fmt.Sprintf("cur-%d.json", e.w)))
		p := &h.Plan{}
		if err == nil {
			err = json.Unmarshal(b, p)
		}
		if c := crashClass(e.stderr); c != "" && err == nil {
			viols = append(viols, violation{1 << 30, 0, p, &h.Outcome{Class: "process-crash", Msg: c}, e.w})
			continue
		}
		trouble = fmt.Sprintf("worker %d ended with code %d: %s", e.w, e.code, lastLines(e.stderr, 60))
	}
	for _, e := range ends {
		if strings.Contains(e.stderr, "not deterministic") {
			fmt.Fprint(os.Stderr, lastLines(e.stderr, 5)+"\n")
		}
	}
	sort.Slice(viols, func(i, j int) bool {
		if viols[i].idx != viols[j].idx {
			return viols[i].idx < viols[j].idx
		}
		return viols[i].sub < viols[j].sub
	})
	code := 0
	if len(viols) > 0 {
		code = 2
		for _, v := range viols {
			if path := reportViolation(pr, v); path != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
				code = 1
				break
			}
		}
		if code == 2 {
			fmt.Fprintf(os.Stderr, "simrun: a violation was found but could not be reproduced: %s: %s\n", viols[0].out.Class, viols[0].out.Msg)
		}
	} else if trouble != "" {
		fmt.Fprintln(os.Stderr, "simrun: "+trouble)
		return 2
	}
	tot.write(pr, start, code)
	for _, id := range sortedKeys(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s, %d runs)\n", pr.ID, tot.KnownWhat[id], id, tot.Known[id])
	}
	fmt.Printf("%d runs (%d cases), %d distinct non-trivial, %d steps, %.1f s\n", tot.Runs, tot.Cases, len(tot.sigs), tot.Steps, time.Since(start).Seconds())
	return code
}

func crashClass(stderr string) string {
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 {
		return ""
	}
	line := stderr[i:]
	if j := strings.IndexByte(line, '\n'); j > 0 {
		line = line[:j]
	}
	if !strings.Contains(stderr, "dpeckett/archivefs") {
		return ""
	}
	var frames []string
	for _, l := range strings.Split(stderr[i:], "\n") {
		if strings.Contains(l, "dpeckett/archivefs") && !strings.HasPrefix(l, "\t") {
			frames = append(frames, l)
			if len(frames) == 6 {
				break
			}
		}
	}
	return line + " in " + strings.Join(frames, " <- ")
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
