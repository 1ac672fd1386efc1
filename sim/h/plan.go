package h

import (
	"encoding/json"
	"fmt"
	"sort"

	"verif.local/sim/simrt"
)

// Node of a generated tree.
type Node struct {
	P   string `json:"p"`            // path relative to the root
	K   string `json:"k"`            // f file, d directory, l symlink, c/b/p/s/i special
	M   uint32 `json:"m"`            // fs.FileMode permission, setuid, setgid and sticky bits
	U   int64  `json:"u,omitempty"`  // owner
	G   int64  `json:"g,omitempty"`  // group
	T   int64  `json:"t,omitempty"`  // modification time, seconds
	TN  int64  `json:"tn,omitempty"` // nanoseconds
	TZ  bool   `json:"tz,omitempty"` // unset modification time
	S   int64  `json:"s,omitempty"`  // size
	C   uint64 `json:"c,omitempty"`  // content seed
	L   string `json:"l,omitempty"`  // symlink or hard link target
	raw string // content of a node that was read, not generated
	F   string `json:"f,omitempty"` // how it is stored (images built by the harness)
}

// Op of a workload.
type Op struct {
	T int    `json:"task,omitempty"`
	K string `json:"op"`
	P string `json:"p,omitempty"`
	S string `json:"s,omitempty"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	D int64  `json:"d,omitempty"`
}

// Fault to inject: the N-th to N+C-th calls of task T at a seam fail.
type Fault struct {
	Seam string `json:"seam"`
	T    int    `json:"task,omitempty"`
	N    int64  `json:"n"`
	C    int64  `json:"count,omitempty"` // further calls affected
	Kind string `json:"kind"`
	A    int64  `json:"a,omitempty"`
}

// Plan is everything that decides a run: executing it is a pure function of the
// plan and of the code under test.
type Plan struct {
	Prop   string            `json:"prop"`
	Kind   string            `json:"scenario"`
	Seed   uint64            `json:"seed"` // schedule, map order (unless Sched is given)
	IO     uint64            `json:"io"`   // seeds legal I/O behaviour; 0 = plain
	Kn     map[string]int64  `json:"knobs,omitempty"`
	Nodes  []Node            `json:"nodes,omitempty"`
	Ops    []Op              `json:"ops,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Mean   int64             `json:"mean,omitempty"` // mean steps between preemptions
	Replay bool              `json:"replay,omitempty"`
	Sched  [][]simrt.SchedEv `json:"sched,omitempty"` // per simulation run of the execution
}

func (p *Plan) Kv(k string, def int64) int64 {
	if v, ok := p.Kn[k]; ok {
		return v
	}
	return def
}

func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Outcome of a run.
type Outcome struct {
	Class      string            `json:"class,omitempty"` // violation class, "" = held
	Msg        string            `json:"msg,omitempty"`
	Hash       uint64            `json:"hash"` // signature of the whole execution
	Steps      int64             `json:"steps"`
	SimNs      int64             `json:"sim_ns"`
	Preempts   int64             `json:"preempts"`
	Fired      map[string]int64  `json:"fired,omitempty"`
	Probes     map[string]int64  `json:"probes,omitempty"`
	Seams      map[string]int64  `json:"seams,omitempty"` // calls seen per "seam/task"
	Nontrivial bool              `json:"nontrivial"`
	Sched      [][]simrt.SchedEv `json:"-"`
	Ilv        uint64            `json:"ilv"` // interleaving signature
	Artifacts  map[string][]byte `json:"-"`   // for derived plans
	Inconc     bool              `json:"inconclusive,omitempty"`
}

func (o *Outcome) fail(class, format string, args ...any) {
	if o.Class == "" {
		o.Class = class
		o.Msg = fmt.Sprintf(format, args...)
	}
}

func (o *Outcome) probe(name string) { o.Probes[name]++ }
func (o *Outcome) note(parts ...uint64) {
	for _, p := range parts {
		o.Hash = Mix(o.Hash, p)
	}
}
func (o *Outcome) noteStr(s string) { o.note(HashStr(s)) }

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
