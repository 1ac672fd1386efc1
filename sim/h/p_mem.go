package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/dpeckett/archivefs/memfs"
	"verif.local/sim/simrt"
)

// ---- a sequential model of memfs, for histories -----------------------------------

// mrec is one (part of a) call with its interval and what it returned.
type mrec struct {
	task      int
	k         string // mkdir1 isfile isdir write read stat readdir
	p         string
	perm      fs.FileMode
	val       uint64
	size      int64
	out       string // "" success, else error class
	kind      byte   // observed: f or d
	list      []lent
	call, ret int64
}

type lent struct {
	name string
	kind byte
	perm fs.FileMode
	size int64
}

type ment struct {
	kind byte
	perm fs.FileMode
	val  uint64
	size int64
}

type mstate map[string]ment

func (s mstate) with(p string, e ment) mstate {
	n := make(mstate, len(s)+1)
	for k, v := range s {
		n[k] = v
	}
	n[p] = e
	return n
}

func (s mstate) dir(p string) bool { return p == "." || s[p].kind == 'd' }

// children lists a directory the way the model sees it.
func (s mstate) children(p string) []lent {
	var l []lent
	for k, e := range s {
		if path.Dir(k) == p {
			x := lent{name: path.Base(k), kind: e.kind, perm: e.perm}
			if e.kind == 'f' {
				x.size = e.size
			}
			l = append(l, x)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func sameList(a, b []lent) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// step is the sequential specification.
func (s mstate) step(r *mrec) (bool, mstate) {
	e, have := s[r.p]
	if r.p == "." {
		e, have = ment{kind: 'd'}, true
	}
	switch r.k {
	case "mkdir1":
		switch {
		case !s.dir(path.Dir(r.p)):
			return false, s
		case !have:
			return true, s.with(r.p, ment{kind: 'd', perm: r.perm})
		}
		return e.kind == 'd', s
	case "isfile":
		return have && e.kind == 'f', s
	case "isdir":
		return have && e.kind == 'd', s
	case "notdir":
		return !have || e.kind != 'd', s
	case "write":
		switch r.out {
		case "":
			if !s.dir(path.Dir(r.p)) || have && e.kind == 'd' {
				return false, s
			}
			perm := r.perm
			if have {
				perm = e.perm
			}
			return true, s.with(r.p, ment{kind: 'f', perm: perm, val: r.val, size: r.size})
		case "notexist":
			return !s.dir(path.Dir(r.p)), s
		case "exist":
			return have && e.kind == 'd', s
		}
		return false, s
	case "read", "stat":
		switch r.out {
		case "":
			if !have || e.kind != r.kind {
				return false, s
			}
			if r.p == "." {
				return true, s
			}
			if e.perm != r.perm {
				return false, s
			}
			return r.kind == 'd' || e.size == r.size && (r.k == "stat" || e.val == r.val), s
		case "notexist":
			return !have, s
		}
		return false, s
	case "readdir":
		switch r.out {
		case "":
			return have && e.kind == 'd' && sameList(s.children(r.p), r.list), s
		case "notexist":
			return !have, s
		case "notdir":
			return have && e.kind == 'f', s
		}
		return false, s
	}
	return false, s
}

func (r *mrec) String() string {
	res := r.out
	if res == "" {
		switch r.k {
		case "read":
			res = fmt.Sprintf("%c %v %d bytes #%04x", r.kind, r.perm, r.size, r.val&0xffff)
		case "stat":
			res = fmt.Sprintf("%c %v %d bytes", r.kind, r.perm, r.size)
		case "readdir":
			for _, l := range r.list {
				res += fmt.Sprintf("%s(%c %v %d) ", l.name, l.kind, l.perm, l.size)
			}
		case "write":
			res = fmt.Sprintf("%v %d bytes #%04x", r.perm, r.size, r.val&0xffff)
		case "mkdir1":
			res = r.perm.String()
		}
	}
	return fmt.Sprintf("[%d..%d] task %d %s(%q) -> %s", r.call, r.ret, r.task, r.k, r.p, res)
}

func linearizable(init mstate, recs []mrec) (porcupine.CheckResult, string) {
	model := porcupine.Model{
		Init: func() any { return init },
		Step: func(st, in, out any) (bool, any) {
			ok, n := st.(mstate).step(in.(*mrec))
			return ok, n
		},
		Equal: func(a, b any) bool {
			x, y := a.(mstate), b.(mstate)
			if len(x) != len(y) {
				return false
			}
			for k, v := range x {
				if w, ok := y[k]; !ok || v != w {
					return false
				}
			}
			return true
		},
	}
	var ops []porcupine.Operation
	for i := range recs {
		ops = append(ops, porcupine.Operation{ClientId: recs[i].task, Input: &recs[i], Call: recs[i].call, Return: recs[i].ret})
	}
	res := porcupine.CheckOperationsTimeout(model, ops, 20*time.Second)
	if res != porcupine.Illegal {
		return res, ""
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].call < recs[j].call })
	var b strings.Builder
	for i := range recs {
		fmt.Fprintf(&b, "\n  %s", recs[i].String())
	}
	return res, b.String()
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return "other"
}

// memTask performs calls and keeps their history.
type memTask struct {
	taskLog
	id   int
	fsys *memfs.FS
	recs []mrec
	errs int
	held []fs.File // opened and not closed
}

func (t *memTask) add(r mrec) {
	r.task = t.id
	r.ret = simrt.Seq()
	t.recs = append(t.recs, r)
	if r.out != "" {
		t.errs++
	}
}

// relay goes through Sub for a prefix of the path when asked to.
func (t *memTask) relay(op *Op) (fs.FS, string, bool) {
	if op.D&1 == 0 || !fs.ValidPath(op.P) || op.P == "." {
		return t.fsys, op.P, true
	}
	cut := strings.IndexByte(op.P, '/')
	if cut < 0 {
		return t.fsys, op.P, true
	}
	if op.D&2 != 0 {
		if c := strings.IndexByte(op.P[cut+1:], '/'); c >= 0 {
			cut += 1 + c
		}
	}
	pre, rest := op.P[:cut], op.P[cut+1:]
	call := simrt.Seq()
	sub, err := t.fsys.Sub(pre)
	if err == nil {
		t.add(mrec{k: "isdir", p: pre, call: call})
		return sub, rest, true
	}
	if c := errClass(err); c != "notexist" {
		t.fail("wrong-error", "Sub(%q) of what is no directory reports %q, not fs.ErrNotExist", pre, err)
	}
	t.add(mrec{k: "notdir", p: pre, call: call, out: ""})
	return nil, "", false
}

func (t *memTask) do(op *Op) {
	t.calls++
	valid := fs.ValidPath(op.P)
	must := func(err error) bool { // calls with invalid paths
		if valid {
			return false
		}
		t.errs++
		if errClass(err) != "invalid" {
			t.fail("wrong-error", "%s(%q) of an invalid path reports %v, not fs.ErrInvalid", op.K, op.P, err)
		}
		if op.D&1 == 1 {
			if _, err := t.fsys.Sub(op.P); errClass(err) != "invalid" {
				t.fail("wrong-error", "Sub(%q) of an invalid path reports %v, not fs.ErrInvalid", op.P, err)
			}
		}
		return true
	}
	perm := fs.FileMode(op.A)
	switch op.K {
	case "mkdirall":
		call := simrt.Seq()
		err := t.fsys.MkdirAll(op.P, perm)
		if must(err) || op.P == "." {
			if op.P == "." && err != nil {
				t.fail("wrong-error", "MkdirAll(.) fails: %v", err)
			}
			return
		}
		r := mrec{k: "mkdirall", p: op.P, perm: perm, call: call, out: errClass(err)}
		if r.out == "other" || r.out == "closed" {
			t.fail("wrong-error", "MkdirAll(%q) reports %v", op.P, err)
		}
		t.add(r)
	case "write":
		data := Content(uint64(op.C), op.B)
		val := HashStr(string(data))
		call := simrt.Seq()
		err := t.fsys.WriteFile(op.P, data, perm)
		for i := range data { // the caller's slice is the caller's
			data[i] = 0xEE
		}
		if must(err) {
			return
		}
		r := mrec{k: "write", p: op.P, perm: perm, val: val, size: op.B, call: call, out: errClass(err)}
		if op.P == "." {
			if r.out != "invalid" && r.out != "exist" {
				t.fail("wrong-error", "WriteFile(.) reports %v", err)
			}
			return
		}
		if r.out == "invalid" || r.out == "other" || r.out == "closed" {
			t.fail("wrong-error", "WriteFile(%q) reports %v", op.P, err)
		}
		t.add(r)
	case "read":
		f, name, ok := t.relay(op)
		if !ok {
			return
		}
		r := mrec{k: "read", p: op.P, call: simrt.Seq()}
		h, err := f.Open(name)
		if must(err) {
			return
		}
		r.out = errClass(err)
		if err != nil {
			if r.out != "notexist" {
				t.fail("wrong-error", "Open(%q) reports %v", op.P, err)
			}
			t.add(r)
			return
		}
		ret := simrt.Seq() // the handle is a snapshot: reading it takes no part
		fi, err := h.Stat()
		if err != nil {
			t.fail("wrong-result", "Stat of the open %q: %v", op.P, err)
			return
		}
		r.kind, r.perm, r.size = 'f', fi.Mode()&permBits, fi.Size()
		if fi.IsDir() {
			r.kind, r.size = 'd', 0
		} else {
			data, err, bad := readAll(h, uint64(op.C), 1<<22)
			if bad != "" || err != nil {
				t.fail("wrong-result", "reading %q: %s %v", op.P, bad, err)
				return
			}
			r.val = HashStr(string(data))
			if int64(len(data)) != r.size {
				t.fail("torn", "%q has size %d and %d bytes", op.P, r.size, len(data))
			}
		}
		if op.P != "." && fi.Name() != path.Base(op.P) {
			t.fail("wrong-result", "Stat of the open %q: name is %q", op.P, fi.Name())
		}
		h.Close()
		r.task, r.ret = t.id, ret
		t.recs = append(t.recs, r)
	case "stat":
		f, name, ok := t.relay(op)
		if !ok {
			return
		}
		r := mrec{k: "stat", p: op.P, call: simrt.Seq()}
		fi, err := fs.Stat(f, name)
		if must(err) {
			return
		}
		r.out = errClass(err)
		if err != nil {
			if r.out != "notexist" {
				t.fail("wrong-error", "Stat(%q) reports %v", op.P, err)
			}
		} else {
			r.kind, r.perm, r.size = 'f', fi.Mode()&permBits, fi.Size()
			if fi.IsDir() {
				r.kind, r.size = 'd', 0
			}
			if op.P != "." && fi.Name() != path.Base(op.P) {
				t.fail("wrong-result", "Stat(%q): name is %q", op.P, fi.Name())
			}
		}
		t.add(r)
	case "readdir":
		f, name, ok := t.relay(op)
		if !ok {
			return
		}
		r := mrec{k: "readdir", p: op.P, call: simrt.Seq()}
		l, err := fs.ReadDir(f, name)
		if must(err) {
			return
		}
		r.out = errClass(err)
		if err != nil {
			if r.out != "notexist" {
				r.out = "notdir"
			}
		} else {
			for i, e := range l {
				fi, err := e.Info()
				if err != nil {
					t.fail("wrong-result", "Info of entry %q: %v", e.Name(), err)
					return
				}
				x := lent{name: e.Name(), kind: 'f', perm: fi.Mode() & permBits, size: fi.Size()}
				if fi.IsDir() {
					x.kind, x.size = 'd', 0
				}
				if e.IsDir() != fi.IsDir() || fi.Name() != e.Name() || e.Type().IsDir() != e.IsDir() {
					t.fail("wrong-result", "entry %q contradicts itself", e.Name())
				}
				if i > 0 && l[i-1].Name() >= e.Name() {
					t.fail("wrong-result", "ReadDir(%q) is not sorted: %q", op.P, entryNames(l))
				}
				r.list = append(r.list, x)
			}
		}
		t.add(r)
	case "pages":
		call := simrt.Seq()
		h, err := t.fsys.Open(op.P)
		if must(err) {
			return
		}
		if err != nil {
			if c := errClass(err); c != "notexist" {
				t.fail("wrong-error", "Open(%q) reports %v", op.P, err)
			}
			t.add(mrec{k: "stat", p: op.P, call: call, out: errClass(err)})
			return
		}
		d, ok := h.(fs.ReadDirFile)
		if !ok {
			if fi, err := h.Stat(); err == nil && fi.IsDir() {
				t.fail("wrong-result", "the open directory %q cannot be listed", op.P)
			}
			return
		}
		if op.A&2 == 2 {
			if n, err := h.Read(make([]byte, 3)); n != 0 || err == nil {
				t.fail("wrong-result", "Read of the open directory %q returns %d bytes and error %v", op.P, n, err)
			}
		}
		for i := 0; ; i++ {
			l, err := d.ReadDir(int(op.A))
			if err != nil {
				break
			}
			for _, e := range l { // each is what was there at some time since Open
				fi, err := e.Info()
				if err != nil {
					t.fail("wrong-result", "Info of entry %q: %v", e.Name(), err)
					break
				}
				x := mrec{k: "stat", p: path.Join(op.P, e.Name()), call: call, kind: 'f', perm: fi.Mode() & permBits, size: fi.Size()}
				if fi.IsDir() {
					x.kind, x.size = 'd', 0
				}
				t.add(x)
			}
			if len(l) == 0 { // the end for a non-positive count
				if op.A > 0 {
					t.fail("hang", "paging %q by %d returns no entries and no error", op.P, op.A)
				}
				break
			}
			if i > 300 {
				t.fail("hang", "paging %q by %d does not end", op.P, op.A)
				break
			}
		}
		d.Close()
	case "hold": // many handles open at the same time
		for i := int64(0); i < op.A; i++ {
			h, err := t.fsys.Open(op.P)
			if err != nil {
				t.errs++
				return
			}
			t.held = append(t.held, h)
			if d, ok := h.(fs.ReadDirFile); ok {
				d.ReadDir(1)
			} else {
				h.Read(make([]byte, 1))
			}
		}
	default:
		panic("op " + op.K)
	}
}

var memPaths = []string{"a", "b", "a/b", "a/c", "a/b/c", "a/b/d", "d", "d/e", "d/e/f", "b/x", "a/b/c/d"}
var badPaths = []string{"", "/", "/a", "a/", "../a", "a/../b", "a//b", "a/./b", "./a", "a/.."}

func memOps(r *Rng, p *Plan, tasks, each int, badBias int) {
	pool := memPaths
	if r.P(1, 2) { // a hot spot
		pool = []string{Pick(r, memPaths...), Pick(r, memPaths...), Pick(r, memPaths...), Pick(r, memPaths...)}
	}
	for t := 0; t < tasks; t++ {
		n := 1 + r.Intn(each)
		for i := 0; i < n; i++ {
			op := Op{T: t, K: Pick(r, "mkdirall", "write", "write", "write", "read", "read", "read", "stat", "readdir", "readdir"), P: Pick(r, pool...), C: int64(r.U64() >> 2), D: int64(r.Intn(8))}
			if op.K == "readdir" && r.P(1, 4) {
				op.K, op.P = "pages", Pick(r, ".", path.Dir(op.P), op.P)
			}
			if r.P(1, 12) {
				op.P = "."
			}
			if r.P(badBias, 30) {
				op.P = Pick(r, badPaths...)
			}
			if op.K == "mkdirall" && r.P(1, 2) && op.P != "." && fs.ValidPath(op.P) {
				op.P = path.Dir(op.P)
			}
			op.A = int64(Pick[fs.FileMode](r, 0o644, 0o755, 0o600, 0o777, 0, fs.FileMode(r.Intn(0o1000))))
			if r.P(1, 8) {
				op.A |= int64(Pick(r, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky))
			}
			if op.K == "pages" {
				op.A = Pick[int64](r, 1, 1, 2, 3, -1)
			}
			op.B = Pick[int64](r, 0, 16, 17, 100, 600, 5000, 16+r.Int63n(3000))
			if r.P(1, 100) {
				op.B = Pick[int64](r, 32768, 40000, 65537, 131072, 300000, 1<<20)
			}
			if op.D > 3 {
				op.D = 0
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

func genMemBase(r *Rng, p *Plan) {
	p.Nodes = nil
	for _, q := range memPaths {
		if r.P(1, 3) {
			k := "d"
			if r.P(1, 2) {
				k = "f"
			}
			p.Nodes = append(p.Nodes, Node{P: q, K: k, M: uint32(Pick(r, 0o644, 0o700, 0o555)), S: Pick[int64](r, 0, 20, 2000), C: r.U64()})
		}
	}
	p.Nodes = Normalize(p.Nodes)
}

func meanOf(r *Rng) int64 { return Pick[int64](r, 1, 2, 3, 5, 8, 15, 40, 150) }

// ---- C11 ------------------------------------------------------------------------

func genC11(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{Kind: "memfs", Seed: r.U64(), Kn: map[string]int64{}, Mean: meanOf(r)}
	genMemBase(r, p)
	tasks := 2 + r.Intn(3)
	p.Kn["tasks"] = int64(tasks)
	memOps(r, p, tasks, Pick(r, 2, 4, 6), 1)
	return p
}

// memRun executes the operations of a plan, each task its own.
func memRun(p *Plan, o *Outcome, f *memfs.FS) []memTask {
	tasks := int(p.Kv("tasks", 2))
	ts := make([]memTask, tasks)
	var fns []func()
	for t := 0; t < tasks; t++ {
		ts[t].id, ts[t].fsys = t, f
		var ops []Op
		for _, op := range p.Ops {
			if op.T == t {
				ops = append(ops, op)
			}
		}
		fns = append(fns, func() {
			for i := range ops {
				ts[t].do(&ops[i])
			}
		})
	}
	runTasks(p, o, 0, fns...)
	return ts
}

func execC11(p *Plan, o *Outcome) {
	f, err := fillMem(p.Nodes)
	if err != nil {
		o.fail("wrong-result", "filling an empty memfs: %v", err)
		return
	}
	init := mstate{}
	known := map[uint64]bool{}
	for i := range p.Nodes {
		n := &p.Nodes[i]
		e := ment{kind: n.K[0], perm: fs.FileMode(n.M)}
		if n.K == "f" {
			e.val, e.size = HashStr(string(n.Data())), n.S
			known[e.val] = true
		}
		init[n.P] = e
	}
	ts := memRun(p, o, f)
	if o.Class != "" {
		return
	}
	// The final state, observed after everything else.
	last := memTask{id: len(ts), fsys: f}
	end := int64(1) << 50
	var walk func(q string)
	walk = func(q string) {
		last.do(&Op{K: "readdir", P: q})
		if len(last.recs) == 0 {
			return
		}
		l := last.recs[len(last.recs)-1].list
		for _, e := range l {
			full := path.Join(q, e.name)
			last.do(&Op{K: "read", P: full, C: 1})
			if e.kind == 'd' {
				walk(full)
			}
		}
	}
	aside(func() { walk(".") })
	final := map[string]byte{}
	for i := range last.recs {
		last.recs[i].call, last.recs[i].ret = end, end+1
		end += 2
		if r := &last.recs[i]; r.k == "read" && r.out == "" {
			final[r.p] = r.kind
		}
	}
	busy := 0
	var recs []mrec
	for i := range ts {
		t := &ts[i]
		o.note(t.hash, uint64(t.calls), uint64(len(t.recs)))
		if t.class != "" {
			o.fail(t.class, "%s", t.msg)
		}
		if t.calls > 0 {
			busy++
		}
		for _, r := range t.recs {
			if r.k == "write" {
				known[r.val] = true
			}
			if r.k != "mkdirall" {
				recs = append(recs, r)
				continue
			}
			// One mkdir per component, up to the one that is a file in the end
			// (what exists never changes its kind) when the call failed.
			comps := strings.Split(r.p, "/")
			failed := false
			for j := range comps {
				x := r
				x.k, x.p, x.out = "mkdir1", strings.Join(comps[:j+1], "/"), ""
				if r.out != "" && final[x.p] == 'f' {
					x.k = "isfile"
					recs = append(recs, x)
					failed = true
					break
				}
				recs = append(recs, x)
			}
			if r.out != "" && !failed {
				o.fail("spurious-error", "MkdirAll(%q) failed (%s) although no component is a file", r.p, r.out)
			}
		}
	}
	if last.class != "" {
		o.fail(last.class, "%s", last.msg)
	}
	recs = append(recs, last.recs...)
	for i := range recs {
		r := &recs[i]
		o.note(HashStr(r.String()))
		if r.k == "read" && r.out == "" && r.kind == 'f' && !known[r.val] {
			o.fail("torn", "%q shows %d bytes that nobody wrote", r.p, r.size)
		}
		if r.k == "write" && r.out != "" {
			o.probe("write refused")
		}
		if r.k == "isfile" {
			o.probe("MkdirAll through a file")
		}
	}
	o.Nontrivial = busy > 1 && o.Preempts > 0
	if o.Class != "" {
		return
	}
	res, hist := linearizable(init, recs)
	switch res {
	case porcupine.Illegal:
		o.fail("not-linearizable", "no sequential order of the calls explains their results:%s", hist)
	case porcupine.Unknown:
		o.Inconc = true
	}
}

// ---- C12 ------------------------------------------------------------------------

func genC12(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{Kind: "memfs", Seed: r.U64(), Kn: map[string]int64{}, Mean: meanOf(r)}
	genMemBase(r, p)
	tasks := 1 + r.Intn(6)
	p.Kn["tasks"] = int64(tasks)
	p.Kn["maxsteps"] = 2_000_000
	memOps(r, p, tasks, 8, 4)
	for i := range p.Ops {
		switch r.Intn(10) {
		case 0, 1:
			p.Ops[i].K, p.Ops[i].A = "pages", Pick[int64](r, 1, 2, 3, 100, 0, -1)
		case 2: // writing over a directory, listing a file
			p.Ops[i].P = path.Dir(p.Ops[i].P)
		case 4:
			if r.P(1, 6) {
				p.Ops[i].K, p.Ops[i].A = "hold", Pick[int64](r, 1, 3, 20, 70, 140, 300)
				if fs.ValidPath(p.Ops[i].P) {
					p.Ops[i].P = Pick(r, ".", path.Dir(p.Ops[i].P), p.Ops[i].P)
				}
			}
		case 3: // through a file
			if len(p.Nodes) > 0 && fs.ValidPath(p.Ops[i].P) {
				n := p.Nodes[r.Intn(len(p.Nodes))]
				if n.K == "f" {
					p.Ops[i].P = n.P + "/" + Pick(r, "x", "x/y")
				}
			}
		}
	}
	return p
}

func execC12(p *Plan, o *Outcome) {
	f, err := fillMem(p.Nodes)
	if err != nil {
		o.fail("wrong-result", "filling an empty memfs: %v", err)
		return
	}
	ts := memRun(p, o, f)
	errs, calls := 0, 0
	for i := range ts {
		errs += ts[i].errs
		calls += ts[i].calls
		o.note(uint64(ts[i].errs), uint64(ts[i].calls))
		if ts[i].class == "hang" {
			o.fail(ts[i].class, "%s", ts[i].msg)
		}
	}
	o.Nontrivial = errs > 0
	if o.Class != "" {
		return
	}
	// Everything must still work, from other goroutines.
	logs := make([]taskLog, 2)
	var fns []func()
	for t := range logs {
		fns = append(fns, func() {
			l := &logs[t]
			var dirs []string
			var walk func(q string)
			walk = func(q string) {
				dirs = append(dirs, q)
				es, err := fs.ReadDir(f, q)
				if err != nil {
					l.fail("disabled", "ReadDir(%q) afterwards: %v", q, err)
				}
				for _, e := range es {
					full := path.Join(q, e.Name())
					if _, err := fs.Stat(f, full); err != nil {
						l.fail("disabled", "Stat(%q) afterwards: %v", full, err)
					}
					if e.IsDir() {
						if !strings.Contains(e.Name(), "probe") {
							walk(full)
						}
					} else if _, err := fs.ReadFile(f, full); err != nil {
						l.fail("disabled", "reading %q afterwards: %v", full, err)
					}
				}
			}
			walk(".")
			for _, d := range dirs {
				if err := f.MkdirAll(path.Join(d, fmt.Sprintf("probe%d", t), "x"), 0o755); err != nil {
					l.fail("disabled", "MkdirAll below %q afterwards: %v", d, err)
				}
				q := path.Join(d, fmt.Sprintf("probef%d", t))
				if err := f.WriteFile(q, []byte("probe"), 0o644); err != nil {
					l.fail("disabled", "WriteFile(%q) afterwards: %v", q, err)
				}
				if b, err := fs.ReadFile(f, q); err != nil || string(b) != "probe" {
					l.fail("disabled", "%q afterwards: %q %v", q, b, err)
				}
				if _, err := f.Sub(d); err != nil {
					l.fail("disabled", "Sub(%q) afterwards: %v", d, err)
				}
			}
		})
	}
	runTasks(p, o, 0, fns...)
	o.take(logs)
}

// ---- C13 ------------------------------------------------------------------------

func genC13(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{Kind: "memfs", Seed: r.U64(), Kn: map[string]int64{}, Mean: meanOf(r)}
	tasks := 1 + r.Intn(4)
	p.Kn["tasks"] = int64(tasks)
	files := []string{"a", "b", "d/x"}
	for _, q := range files[:1+r.Intn(3)] {
		p.Nodes = append(p.Nodes, Node{P: q, K: "f", M: 0o640, S: Pick[int64](r, 0, 30, 700, 5000), C: r.U64()})
	}
	p.Nodes = append([]Node{{P: "d", K: "d", M: 0o755}}, p.Nodes...)
	p.Nodes = Normalize(p.Nodes)
	for t := 0; t < tasks; t++ {
		n := 3 + r.Intn(10)
		for i := 0; i < n; i++ {
			op := Op{T: t, K: Pick(r, "write", "write", "rewrite", "open", "open", "hread", "hread", "hread", "hread", "hstat", "hclose", "wstat"), P: Pick(r, files...), A: int64(Pick(r, 0o644, 0o600, 0o755)), C: int64(r.U64() >> 2)}
			op.B = Pick[int64](r, 0, 16, 17, 100, 600, 5000, 16+r.Int63n(3000))
			if r.P(1, 100) {
				op.B = Pick[int64](r, 32768, 40000, 65537, 131072, 300000, 1<<20)
			}
			op.D = int64(r.Intn(6))
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

type hrec struct {
	p         string
	h         fs.File
	call, ret int64
	data      []byte
	eof       bool
	closed    bool
	stats     []fs.FileInfo
	bufs      [][]byte
}

type wrec struct {
	p         string
	c         uint64
	size      int64
	perm      fs.FileMode
	call, ret int64
}

func execC13(p *Plan, o *Outcome) {
	f, err := fillMem(p.Nodes)
	if err != nil {
		o.fail("wrong-result", "filling an empty memfs: %v", err)
		return
	}
	tasks := int(p.Kv("tasks", 1))
	type state struct {
		taskLog
		hs []*hrec
		ws []wrec
	}
	sts := make([]state, tasks)
	var fns []func()
	for t := 0; t < tasks; t++ {
		var ops []Op
		for _, op := range p.Ops {
			if op.T == t {
				ops = append(ops, op)
			}
		}
		fns = append(fns, func() {
			s := &sts[t]
			slice := make([]byte, 0, 8192)
			handle := func(op *Op) *hrec {
				if len(s.hs) == 0 {
					return nil
				}
				return s.hs[int(op.D)%len(s.hs)]
			}
			for i := range ops {
				op := &ops[i]
				s.calls++
				switch op.K {
				case "write", "rewrite":
					data := Content(uint64(op.C), op.B)
					if op.K == "rewrite" { // one slice used again and again
						slice = append(slice[:0], data...)
						data = slice
					}
					w := wrec{p: op.P, c: uint64(op.C), size: op.B, perm: fs.FileMode(op.A), call: simrt.Seq()}
					if err := f.WriteFile(op.P, data, w.perm); err != nil {
						s.fail("wrong-result", "WriteFile(%q): %v", op.P, err)
					}
					w.ret = simrt.Seq()
					s.ws = append(s.ws, w)
					if op.K == "write" {
						for j := range data {
							data[j] ^= 0xff
						}
					} else {
						simrt.Point()
						for j := range slice[:cap(slice)] {
							slice[:cap(slice)][j] = 0
						}
					}
				case "open":
					h := &hrec{p: op.P, call: simrt.Seq()}
					fh, err := f.Open(op.P)
					if err != nil {
						if errClass(err) != "notexist" {
							s.fail("wrong-result", "Open(%q): %v", op.P, err)
						}
						continue
					}
					h.ret = simrt.Seq()
					h.h = fh
					s.hs = append(s.hs, h)
				case "hread":
					h := handle(op)
					if h == nil {
						continue
					}
					n := Pick[int64](NewRng(uint64(op.C)), 0, 1, 7, 100, 1000, 8192)
					buf := make([]byte, n)
					k, err := h.h.Read(buf)
					switch {
					case h.closed:
						if !errors.Is(err, fs.ErrClosed) || k != 0 {
							s.fail("use-after-close", "Read of a closed handle of %q returns %d and %v", h.p, k, err)
						}
						continue
					case k < 0 || k > len(buf):
						s.fail("wrong-result", "Read of %q returns %d for %d bytes", h.p, k, n)
						continue
					case err != nil && err != io.EOF:
						s.fail("wrong-result", "Read of %q: %v", h.p, err)
					case h.eof && k > 0:
						s.fail("wrong-result", "Read of %q delivers bytes after the end", h.p)
					case err == nil && k == 0 && n > 0:
						s.fail("wrong-result", "Read of %q delivers nothing", h.p)
					}
					h.data = append(h.data, buf[:k]...)
					if err == io.EOF {
						h.eof = true
					}
					for j := range buf { // the reader's buffer is the reader's
						buf[j] = 0xAB
					}
				case "hstat":
					h := handle(op)
					if h == nil {
						continue
					}
					fi, err := h.h.Stat()
					if h.closed {
						if !errors.Is(err, fs.ErrClosed) {
							s.fail("use-after-close", "Stat of a closed handle of %q returns %v", h.p, err)
						}
						continue
					}
					if err != nil {
						s.fail("wrong-result", "Stat of an open handle of %q: %v", h.p, err)
						continue
					}
					h.stats = append(h.stats, fi)
				case "hclose":
					h := handle(op)
					if h == nil {
						continue
					}
					err := h.h.Close()
					if h.closed {
						if !errors.Is(err, fs.ErrClosed) {
							s.fail("use-after-close", "second Close of a handle of %q returns %v", h.p, err)
						}
					} else if err != nil {
						s.fail("wrong-result", "Close of a handle of %q: %v", h.p, err)
					}
					h.closed = true
				case "wstat": // somebody looking at the path disturbs nobody
					fs.Stat(f, op.P)
					b, _ := fs.ReadFile(f, op.P)
					clobber(b)
				}
			}
			// drain what is still open
			for _, h := range s.hs {
				if h.closed {
					continue
				}
				rest, err, bad := readAll(h.h, uint64(len(h.data)), 1<<22)
				if err != nil || bad != "" {
					s.fail("wrong-result", "reading the rest of %q: %s %v", h.p, bad, err)
				}
				h.data = append(h.data, rest...)
				h.eof = true
				if fi, err := h.h.Stat(); err != nil {
					s.fail("wrong-result", "Stat of %q after reading: %v", h.p, err)
				} else {
					h.stats = append(h.stats, fi)
				}
			}
		})
	}
	runTasks(p, o, 0, fns...)
	if o.Class != "" {
		return
	}
	var ws []wrec
	for _, n := range p.Nodes {
		if n.K == "f" {
			ws = append(ws, wrec{p: n.P, c: n.C, size: n.S, perm: fs.FileMode(n.M), call: -2, ret: -1})
		}
	}
	handles := 0
	for i := range sts {
		ws = append(ws, sts[i].ws...)
		handles += len(sts[i].hs)
		if sts[i].class != "" {
			o.fail(sts[i].class, "%s", sts[i].msg)
		}
	}
	current := func(path string, from, to int64) []wrec { // versions current at some time of [from, to]
		var out []wrec
		for _, v := range ws {
			if v.p != path || v.call > to {
				continue
			}
			dead := false
			for _, w := range ws {
				if w.p == path && w.call > v.ret && w.ret < from {
					dead = true
				}
			}
			if !dead {
				out = append(out, v)
			}
		}
		return out
	}
	perms := map[string]map[fs.FileMode]bool{}
	for _, w := range ws {
		if perms[w.p] == nil {
			perms[w.p] = map[fs.FileMode]bool{}
		}
		perms[w.p][w.perm] = true
	}
	rewritten := false
	for i := range sts {
		for _, h := range sts[i].hs {
			o.note(HashStr(string(h.data)), uint64(len(h.stats)), uint64(h.call))
			cand := current(h.p, h.call, h.ret)
			ok := false
			for _, c := range cand {
				want := Content(c.c, c.size)
				if !bytes.HasPrefix(want, h.data) || h.eof && len(h.data) != len(want) {
					continue
				}
				good := true
				for _, fi := range h.stats {
					good = good && fi.Size() == c.size
				}
				ok = ok || good
			}
			if !ok {
				sizes := []int64{}
				for _, fi := range h.stats {
					sizes = append(sizes, fi.Size())
				}
				o.fail("not-a-snapshot", "a handle of %q opened at %d..%d delivered %d bytes (end: %v) and reported sizes %v; none of the %d contents the file had then explains that", h.p, h.call, h.ret, len(h.data), h.eof, sizes, len(cand))
			}
			for _, fi := range h.stats {
				if fi.Mode() != h.stats[0].Mode() || fi.Name() != path.Base(h.p) || !perms[h.p][fi.Mode()] {
					o.fail("not-a-snapshot", "a handle of %q reports mode %v and name %q, first mode %v", h.p, fi.Mode(), fi.Name(), h.stats[0].Mode())
				}
			}
			for _, w := range ws {
				rewritten = rewritten || w.p == h.p && w.call > h.call
			}
		}
	}
	o.Nontrivial = handles > 0 && rewritten
	if rewritten {
		o.probe("file rewritten while a handle was open")
	}
	// Nothing else changed afterwards: each file shows its last write.
	for _, w := range ws {
		lastw := true
		for _, x := range ws {
			if x.p == w.p && x.call > w.ret {
				lastw = false
			}
		}
		overlap := false
		for _, x := range ws {
			if x.p == w.p && x != w && x.call < w.ret && w.call < x.ret {
				overlap = true
			}
		}
		if !lastw || overlap || o.Class != "" {
			continue
		}
		b, err := fs.ReadFile(f, w.p)
		if err != nil {
			o.fail("wrong-result", "reading %q at the end: %v", w.p, err)
		} else if s := diffBytes(b, Content(w.c, w.size)); s != "" {
			o.fail("not-what-was-written", "%q at the end: %s", w.p, s)
		}
	}
}

func init() {
	real := []string{"memfs (all of it)", "io/fs helpers (Stat, ReadDir, ReadFile)"}
	stub := []string{"sync.Mutex and goroutine scheduling (simulated, every statement a possible preemption)", "map iteration order"}
	register(&Prop{ID: "C11", Race: true, Quick: 24000, Thorough: 500000, Real: real, Stub: stub,
		Rule: "two to four goroutines, up to six calls each on a shared pool of eleven paths, mean preemption interval 1 to 150 statements; history with the final state appended checked for linearizability against a sequential model, data races by the race detector; non-trivial: at least two goroutines made calls and at least one was preempted",
		Gen:  genC11, Exec: execC11})
	register(&Prop{ID: "C12", Race: true, Quick: 20000, Thorough: 500000, Real: real, Stub: stub, Faults: []string{"failing calls"},
		Rule: "one to six goroutines, workload biased to failing calls and paging; deadlock and step-budget detection during the run, afterwards two goroutines use every directory and file; non-trivial: at least one call failed",
		Gen:  genC12, Exec: execC12})
	register(&Prop{ID: "C13", Race: true, Quick: 16000, Thorough: 500000, Real: real, Stub: stub,
		Rule: "one to four goroutines write (scribbling over their slices afterwards), open, read in random sizes, stat, close and use closed handles; each handle's trace must be explained by one content the file had while it was opened; non-trivial: a file was rewritten while a handle of it was open",
		Gen:  genC13, Exec: execC13})
}
