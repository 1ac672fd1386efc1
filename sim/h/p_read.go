package h

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"verif.local/sim/simrt"
)

// buildArchive writes the tree of a plan without faults or odd I/O; nil if Create
// refuses it.
func buildArchive(p *Plan, o *Outcome, m *Model) []byte {
	q := p.Clone()
	q.Faults, q.IO, q.Sched, q.Replay, q.Mean = nil, 0, nil, false, 0
	st := &Store{env: NewEnv(q, 1)}
	var err error
	runOne(q, o, 0, func() {
		err = createFmt(p.Kind, st, false, NewSource(st.env, m, int(p.Kv("sys", 1))).FS(0))
	})
	if o.Class != "" {
		return nil
	}
	if err != nil {
		if must, _ := creatable(p.Kind, p.Nodes, 0, int(p.Kv("sys", 1))); must {
			o.fail("create-failed", "Create fails although nothing failed: %v", err)
		}
		return nil
	}
	return st.data
}

// subject is the storage a reading property is about, with the tree it holds; nil
// if there is none.  It is what Create writes, or what another tool writes.
func subject(p *Plan, o *Outcome) (disk func(env *Env) *Disk, m *Model, x Exp) {
	if p.Kv("foreign", 0) == 0 {
		m = modelOf(p)
		data := buildArchive(p, o, m)
		if data == nil {
			return nil, nil, x
		}
		return func(env *Env) *Disk { return &Disk{env: env, data: data} }, m, Exp{Format: p.Kind, Owner: p.Kv("sys", 1) != 0, Root: p.Kind == "erofs"}
	}
	var bl *Blob
	var refuse string
	switch p.Kind {
	case "erofs":
		bl, m, refuse = buildErofs(p)
	case "ar":
		var nodes []Node
		bl, nodes, refuse = buildAr(p)
		m = NewModel(nodes)
	default:
		var err error
		if bl, err = buildTar(p.Nodes, p.Kv("end", 0)); err != nil {
			return nil, nil, x
		}
		var nodes []Node
		nodes, refuse = replayTar(p.Nodes)
		m = NewModel(nodes)
	}
	if bl == nil || refuse != "" || bl.size > 64<<20 {
		return nil, nil, x
	}
	x = Exp{Format: p.Kind, Owner: true}
	for i := range m.N {
		x.Odd = x.Odd || m.N[i].odd()
	}
	o.probe("archive of another tool")
	return bl.disk, m, x
}

// foreignRead is readPlan for what other tools write.
func foreignRead(r *Rng, format string, thorough bool) *Plan {
	var p *Plan
	switch format {
	case "tar":
		p = genC17(r, 0, thorough)
	case "ar":
		p = genC19(r, 0, thorough)
	default:
		p = plainC18(r, thorough)
	}
	p.Faults, p.Kn["foreign"] = nil, 1
	delete(p.Kn, "tasks")
	p.Mean = 0
	return p
}

func readPlan(r *Rng, format string, max int) *Plan {
	p := &Plan{Kind: format, Seed: r.U64(), Kn: map[string]int64{"sys": int64(r.Intn(3)), "root": r.Int63n(1 << 40)}}
	to := TreeOpts{Max: 1 + r.Intn(max), Links: format != "ar", Flat: format == "ar", SmallIDs: true, LongName: r.P(1, 4) && format != "ar"}
	if format == "ar" {
		to.Names = func(r *Rng) string { return fmt.Sprintf("%s%d", Pick(r, "f", "data", "a"), r.Intn(100)) }
	}
	if format == "erofs" && r.P(1, 20) {
		to.BigDir, to.Max = true, 30+r.Intn(300)
		if r.P(1, 6) {
			to.LongName, to.Names, to.Max = false, shortName, 310+r.Intn(30)
			p.Kn["maxsteps"] = 1_000_000_000
		}
	}
	p.Nodes = fixNames(GenTree(r, to))
	if r.P(1, 50) {
		p.Nodes = nil
	}
	return p
}

// somePath is a path of the tree, often one through links, sometimes a wrong one.
func somePath(r *Rng, nodes []Node) string {
	if len(nodes) == 0 || r.P(1, 20) {
		return "."
	}
	n := nodes[r.Intn(len(nodes))]
	pick := func(k string) (Node, bool) {
		s := r.Intn(len(nodes))
		for i := range nodes {
			if x := nodes[(s+i)%len(nodes)]; x.K == k {
				return x, true
			}
		}
		return Node{}, false
	}
	switch r.Intn(12) {
	case 0:
		return path.Join(path.Dir(n.P), Pick(r, "missing", "zzz", "!", path.Base(n.P)+"x", "0"))
	case 1: // through a link
		if l, ok := pick("l"); ok {
			return l.P + "/" + path.Base(n.P)
		}
	case 2:
		if l, ok := pick("l"); ok {
			return l.P
		}
	case 3:
		if f, ok := pick("f"); ok {
			return f.P + "/" + Pick(r, "x", "..", ".")
		}
	case 4:
		if d, ok := pick("d"); ok {
			return d.P
		}
	}
	return n.P
}

func readerOps(r *Rng, p *Plan, tasks, each int) {
	for t := 0; t < tasks; t++ {
		n := 1 + r.Intn(each)
		for i := 0; i < n; i++ {
			op := Op{T: t, K: Pick(r, "stat", "lstat", "readlink", "readdir", "read", "read", "read", "entry", "readdir"), P: somePath(r, p.Nodes), A: r.Int63n(1 << 30)}
			if p.Kind == "ar" && (op.K == "lstat" || op.K == "readlink") {
				op.K = "read"
			}
			if p.Kind == "ar" { // flat: the root can be listed but not opened
				op.P = strings.TrimSuffix(strings.TrimSuffix(op.P, "/."), "/..")
			}
			if op.K == "readdir" {
				op.A = int64(r.Intn(4))
				if r.P(2, 3) {
					op.P = "."
					for j := 0; j < 5; j++ {
						if q := somePath(r, p.Nodes); kindOf(p.Nodes, q) == "d" {
							op.P = q
						}
					}
				}
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

func kindOf(nodes []Node, q string) string {
	for i := range nodes {
		if nodes[i].P == q {
			return nodes[i].K
		}
	}
	return ""
}

// taskLog is what one task found; only that task writes it.
type taskLog struct {
	class, msg string
	calls      int
	errs       int
	hash       uint64
}

func (t *taskLog) fail(class, format string, args ...any) {
	if t.class == "" {
		t.class, t.msg = class, fmt.Sprintf(format, args...)
	}
}

// judge performs an operation and decides whether its result is right: an error
// is only right if the model has one or storage failed during the call.
func (t *taskLog) judge(env *Env, f fs.FS, m *Model, x Exp, op *Op, entries []fs.DirEntry) {
	t.judgeCall(env, op, func(fired func() bool) (error, string, bool) { return doOp(f, m, x, op, entries, fired) })
}

// judgeCall is judge for any call: it returns the error, a complaint about the
// result, and whether the error is the right one.
func (t *taskLog) judgeCall(env *Env, op *Op, call func(fired func() bool) (error, string, bool)) {
	me := self()
	from := simrt.Seq()
	fired := func() bool { return env.firedIn(me, from, 1<<62) }
	err, bad, expected := call(fired)
	t.calls++
	simrt.Seq()
	t.hash = Mix(t.hash, uint64(len(bad)))
	if err != nil {
		t.errs++
		t.hash = Mix(t.hash, 1)
	}
	switch {
	case bad != "":
		t.fail("wrong-result", "%s", bad)
	case err != nil && !expected && !fired():
		t.fail("spurious-error", "%s(%q) fails although storage did not fail during it: %v", op.K, op.P, err)
	case err != nil && !expected && errors.Is(err, fs.ErrNotExist) && !env.firedMissing(me, from, 1<<62):
		t.fail("false-missing", "%s(%q) reports a failure of storage as a missing file: %v", op.K, op.P, err)
	}
}

func (o *Outcome) take(logs []taskLog) {
	for i := range logs {
		o.note(logs[i].hash, uint64(logs[i].calls))
		if logs[i].class != "" {
			o.fail(logs[i].class, "%s", logs[i].msg)
		}
	}
}

// ---- C06 ------------------------------------------------------------------------

func genC06(r *Rng, idx int, thorough bool) *Plan {
	format := formats[idx/8%3]
	p := readPlan(r, format, 9)
	if r.P(1, 2) {
		p.IO = r.U64() | 1
	}
	if r.P(1, 3) {
		p = foreignRead(r, format, thorough)
	}
	readerOps(r, p, 1, 8)
	return p
}

var diskFaults = map[string][]string{"disk.readat": {"eio", "eio", "eio-partial", "eio-scribble"}}

func deriveDisk(per int) func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	return func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
		var out []*Plan
		for i := 0; i < per; i++ {
			q := p.Clone()
			for j := 0; j < 1+r.Intn(3); j++ {
				f, ok := pickFault(r, o.Seams, diskFaults)
				if !ok {
					return out
				}
				if r.P(1, 3) {
					f.C = Pick[int64](r, 1, 2, 5, 30)
				}
				q.Faults = append(q.Faults, f)
			}
			out = append(out, q)
		}
		return out
	}
}

func execC06(p *Plan, o *Outcome) {
	disk, m, x := subject(p, o)
	if disk == nil {
		return
	}
	env := NewEnv(p, 1)
	logs := make([]taskLog, 1)
	var final string
	runOne(p, o, 0, func() {
		l := &logs[0]
		var f fs.FS
		var err error
		for try := 0; ; try++ {
			from := simrt.Seq()
			f, err = openFmt(p.Kind, disk(env))
			if err == nil {
				break
			}
			if !env.firedIn(self(), from, 1<<62) {
				l.fail("spurious-error", "Open fails although storage did not fail during it: %v", err)
				return
			}
			if try > 200 {
				return // the storage never recovers
			}
		}
		var entries []fs.DirEntry
		if l, err := collectEntries(f, m); err == nil {
			entries = l
		}
		for i := range p.Ops {
			l.judge(env, f, m, x, &p.Ops[i], entries)
			if l.class != "" {
				return
			}
		}
		// Storage works again.
		env.off = true
		for i := range p.Ops {
			l.judge(env, f, m, x, &p.Ops[i], entries)
		}
		final = checkTree(f, m, x, p.Seed)
	})
	env.countFired(o)
	o.take(logs)
	o.Nontrivial = env.anyFired()
	if final != "" {
		o.fail("no-recovery", "after storage has recovered: %s", final)
	}
}

// ---- C10 ------------------------------------------------------------------------

func genC10(r *Rng, idx int, thorough bool) *Plan {
	format := Pick(r, "tar", "ar", "erofs", "erofs", "tar")
	p := readPlan(r, format, 7)
	if r.P(2, 3) {
		p.IO = r.U64() | 1
	}
	if r.P(1, 3) {
		p = foreignRead(r, format, thorough)
	}
	tasks := 2 + r.Intn(3)
	p.Kn["tasks"] = int64(tasks)
	readerOps(r, p, tasks, 5)
	if r.P(1, 2) { // the same calls from everywhere
		for i := range p.Ops {
			p.Ops[i].P = p.Ops[r.Intn(len(p.Ops))].P
		}
	}
	p.Mean = Pick[int64](r, 2, 5, 10, 30, 100, 300)
	return p
}

func execC10(p *Plan, o *Outcome) {
	disk, m, x := subject(p, o)
	if disk == nil {
		return
	}
	tasks := int(p.Kv("tasks", 2))
	env := NewEnv(p, tasks)
	// Opened and listed outside of the simulation, without faults.
	env.off = true
	f, err := openFmt(p.Kind, disk(env))
	if err != nil {
		o.fail("not-openable", "Open fails on a well-formed archive: %v", err)
		return
	}
	entries, err := collectEntries(f, m)
	if err != nil {
		o.fail("wrong-result", "%v", err)
		return
	}
	env.off = false
	env.cnt = [numSeams][maxClients]int64{}
	logs := make([]taskLog, tasks)
	var fns []func()
	for t := 0; t < tasks; t++ {
		var ops []Op
		for _, op := range p.Ops {
			if op.T == t {
				ops = append(ops, op)
			}
		}
		fns = append(fns, func() {
			for i := range ops {
				logs[t].judge(env, f, m, x, &ops[i], entries)
			}
		})
	}
	runTasks(p, o, 0, fns...)
	env.countFired(o)
	o.take(logs)
	busy := 0
	for i := range logs {
		if logs[i].calls > 0 {
			busy++
		}
	}
	o.Nontrivial = busy > 1
	if env.anyFired() {
		o.probe("storage error during concurrent use")
	}
	if o.Class == "" {
		env.off = true
		if s := checkTree(f, m, x, p.Seed); s != "" {
			o.fail("no-recovery", "after the concurrent calls: %s", s)
		}
	}
}

// ---- C09 ------------------------------------------------------------------------

func genC09(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{Kind: Pick(r, "tar", "erofs"), Seed: r.U64(), Kn: map[string]int64{"sys": 0}}
	if r.P(1, 2) {
		p.IO = r.U64() | 1
	}
	var nodes []Node
	dirs := []string{"."}
	names := []string{"a", "b", "c", "d"}
	if r.P(1, 4) {
		names = append(names, "!", "..a", ".x", "-")
	} else if r.P(1, 4) { // like the numbers of inodes
		names = []string{"0", "1", "2", "10", "12", "20", "21", "02", "a"}
	} else if r.P(1, 3) { // what only looks like something special, or like another name
		all := []string{"a", "A", "ab", "Ab", "AB", "a\\b", "\\", "..\\a", "a:", "~", "*", "%2e", "%2F", "a b", " a", "a ", "a.", "\u00e9", "e\u0301", "$a", "...", ".a."}
		names = nil
		for i := 0; i < 5; i++ {
			names = append(names, all[r.Intn(len(all))])
		}
	}
	if r.P(1, 6) { // as long as names get, and longer
		l := strings.Repeat(Pick(r, "a", "x", "0"), 254)
		names = []string{l + "a", l + "b", l, l + "aa", l + "ab", "a"}
	}
	taken := map[string]bool{}
	n := 3 + r.Intn(16)
	for i := 0; i < n; i++ {
		d := dirs[r.Intn(len(dirs))]
		q := path.Join(d, names[r.Intn(len(names))])
		if taken[q] || len(path.Base(q)) > 255 {
			continue
		}
		taken[q] = true
		nd := Node{P: q, M: 0o644, T: 1600000000 + int64(i), S: int64(i), C: r.U64()}
		switch k := r.Intn(10); {
		case k < 4:
			nd.K, nd.M, nd.S = "d", 0o755, 0
			dirs = append(dirs, q)
		case k < 8:
			nd.K, nd.M, nd.S = "l", 0o777, 0
			nd.L = linkTarget(r, names)
		default:
			nd.K = "f"
		}
		nodes = append(nodes, nd)
	}
	switch r.Intn(8) {
	case 0: // a chain
		k := Pick(r, 2, 10, 31, 32, 33, 39, 40, 41, 60, 150)
		for i := 0; i < k; i++ {
			nodes = append(nodes, Node{P: fmt.Sprintf("k%d", i), K: "l", M: 0o777, T: 1, L: fmt.Sprintf("k%d", i+1)})
		}
		if r.P(3, 4) {
			nodes = append(nodes, Node{P: fmt.Sprintf("k%d", k), K: Pick(r, "f", "d"), M: 0o755, T: 7, C: 1})
		} else if r.P(1, 2) { // a long cycle
			nodes[len(nodes)-1].L = "k0"
		}
	case 1: // every link doubles the work
		k := 3 + r.Intn(30)
		nodes = append(nodes, Node{P: "w0", K: "d", M: 0o755, T: 1})
		for i := 1; i <= k; i++ {
			nodes = append(nodes, Node{P: fmt.Sprintf("w%d", i), K: "l", M: 0o777, T: 1, L: fmt.Sprintf("w%d/../w%d", i-1, i-1)})
		}
	case 2: // growing target
		nodes = append(nodes, Node{P: "g", K: "l", M: 0o777, T: 1, L: "g/x"}, Node{P: "h", K: "l", M: 0o777, T: 1, L: "./h"})
	}
	if len(nodes) == 0 {
		nodes = []Node{{P: "a", K: "f", M: 0o644, T: 1, C: 1}}
	}
	p.Nodes = Normalize(nodes)
	for i := 0; i < 14; i++ {
		op := Op{K: Pick(r, "stat", "stat", "lstat", "readlink", "readdir", "read"), A: r.Int63n(1 << 30)}
		switch r.Intn(5) {
		case 0, 1:
			op.P = p.Nodes[r.Intn(len(p.Nodes))].P
		case 2:
			op.P = p.Nodes[r.Intn(len(p.Nodes))].P + "/" + linkTarget(r, names)
			op.P = strings.TrimSuffix(op.P, "/")
		default:
			l := 1 + r.Intn(5)
			var c []string
			for j := 0; j < l; j++ {
				c = append(c, names[r.Intn(len(names))])
			}
			if r.P(1, 8) {
				c[r.Intn(len(c))] = Pick(r, "..", ".")
			}
			op.P = strings.Join(c, "/")
		}
		if op.K == "readdir" {
			op.A = 0
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func linkTarget(r *Rng, names []string) string {
	if r.P(1, 20) {
		return Pick(r, "/", ".", "..", "../../../../../..")
	}
	var c []string
	for i := 0; i < 1+r.Intn(4); i++ {
		c = append(c, Pick(r, "..", ".", "..", names[r.Intn(len(names))], names[r.Intn(len(names))], names[r.Intn(len(names))], names[r.Intn(len(names))]))
	}
	t := strings.Join(c, Pick(r, "/", "/", "/", "//"))
	if r.P(1, 4) {
		t = "/" + t
	}
	return t
}

func execC09(p *Plan, o *Outcome) {
	p2 := *p
	m := modelOf(p)
	data := buildArchive(&p2, o, m)
	if data == nil {
		return
	}
	x := Exp{Format: p.Kind, Root: p.Kind == "erofs"}
	env := NewEnv(p, 1)
	logs := make([]taskLog, 1)
	runOne(p, o, 0, func() {
		l := &logs[0]
		env.off = true
		f, err := openFmt(p.Kind, &Disk{env: env, data: data})
		env.off = false
		if err != nil {
			l.fail("not-openable", "Open fails on what Create wrote: %v", err)
			return
		}
		for i := range p.Ops {
			from := simrt.Steps()
			l.judge(env, f, m, x, &p.Ops[i], nil)
			if d := simrt.Steps() - from; d > 3_000_000 {
				l.fail("hang", "%s(%q) takes %d steps", p.Ops[i].K, p.Ops[i].P, d)
			}
			if r := m.Resolve(p.Ops[i].P, true); r.Links > 0 && r.Node != nil {
				o.Nontrivial = true
				o.probe("resolved through links")
			} else if r.Links > 400 {
				o.probe("link cycle or bomb")
			}
		}
	})
	env.countFired(o)
	o.take(logs)
}

// ---- C07 ------------------------------------------------------------------------

func genC07(r *Rng, idx int, thorough bool) *Plan {
	p := readPlan(r, formats[idx/8%3], 6)
	if r.P(1, 3) {
		p.IO = r.U64() | 1
	}
	p.Kn["cuts"] = 1
	return p
}

func deriveC07(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	size := int64(o.Seams["size"])
	if size == 0 {
		return nil
	}
	q := p.Clone()
	for i := 0; i < 40; i++ {
		at := r.Int63n(size)
		switch r.Intn(5) {
		case 0:
			at = at &^ 511
		case 1:
			at = at&^4095 + r.Int63n(3) - 1
		case 2:
			at = size - 1 - r.Int63n(min(size, 3000))
		}
		if at < 0 || at >= size {
			at = r.Int63n(size)
		}
		q.Faults = append(q.Faults, Fault{Seam: "cut", Kind: "truncate", N: at})
	}
	return []*Plan{q}
}

// walkOrder is the order in which Create meets the entries.
func walkOrder(m *Model) (out []string) {
	var walk func(p string)
	walk = func(p string) {
		for _, nm := range m.kids[p] {
			full := path.Join(p, nm)
			out = append(out, full)
			walk(full)
		}
	}
	walk(".")
	return out
}

// headerRegions of an archive: cuts strictly inside must be refused; and where each
// entry ends.
func headerRegions(format string, data []byte, m *Model) (out [][2]int64, ends []int64) {
	switch format {
	case "ar":
		off := int64(8)
		for _, nm := range m.kids["."] {
			out = append(out, [2]int64{off, off + 60})
			s := m.N[nm].S
			off += 60 + s + s%2
			ends = append(ends, off)
		}
	case "tar":
		for off := int64(0); off+512 <= int64(len(data)); {
			b := data[off : off+512]
			if bytes.Equal(b, make([]byte, 512)) {
				break
			}
			out = append(out, [2]int64{off, off + 512})
			size, err := strconv.ParseInt(strings.Trim(string(b[124:136]), " \x00"), 8, 64)
			if err != nil {
				break
			}
			off += 512 + (size+511)&^511
			if !strings.ContainsRune("xgLK", rune(b[156])) {
				ends = append(ends, off)
			}
		}
	}
	return out, ends
}

// checkPart checks that everything a filesystem presents belongs to the model;
// errors are accepted, wrong data is not.  The entries in whole are stored entirely.
func checkPart(f fs.FS, m *Model, x Exp, seed uint64, whole []string) string {
	var walk func(p string) string
	walk = func(p string) string {
		l, err := fs.ReadDir(f, p)
		if err != nil {
			return ""
		}
		seen := map[string]bool{}
		for i, e := range l {
			full := path.Join(p, e.Name())
			n := m.N[full]
			if n == nil {
				return fmt.Sprintf("%q is no entry of the archive", full)
			}
			if seen[full] {
				return fmt.Sprintf("%q is listed twice", full)
			}
			seen[full] = true
			if k := modeKind(e.Type()); k != n.K {
				return fmt.Sprintf("%q: entry kind is %s, want %s", full, k, n.K)
			}
			if fi, err := e.Info(); err == nil {
				if s := x.cmpInfo(n, fi, false); s != "" {
					return fmt.Sprintf("%q: %s", full, s)
				}
			}
			if lf := linkFS(f); lf != nil && n.K == "l" {
				if t, err := lf.ReadLink(full); err == nil && t != n.L {
					return fmt.Sprintf("%q: link target is %q, want %q", full, clipS(t, 60), clipS(n.L, 60))
				}
			}
			if n.K == "d" {
				if s := walk(full); s != "" {
					return s
				}
			}
			if n.K != "l" {
				if fi, err := fs.Stat(f, full); err == nil {
					if s := x.cmpInfo(n, fi, false); s != "" {
						return fmt.Sprintf("Stat of %q: %s", full, s)
					}
				} else if errors.Is(err, fs.ErrNotExist) {
					return fmt.Sprintf("%q is listed but Stat reports %v", full, err)
				}
			}
			if n.K != "f" {
				continue
			}
			h, err := f.Open(full)
			if err != nil {
				continue
			}
			data, err, bad := readAll(h, Mix(seed, uint64(i)), n.S+1<<20)
			h.Close()
			exp := n.Data()
			switch {
			case bad != "":
				return fmt.Sprintf("%q: %s", full, bad)
			case err != nil:
				if len(data) > len(exp) || !bytes.Equal(data, exp[:len(data)]) {
					return fmt.Sprintf("%q: wrong bytes before error %v: %s", full, err, diffBytes(data, exp))
				}
			default:
				if s := diffBytes(data, exp); s != "" {
					return fmt.Sprintf("%q: clean end of file but %s", full, s)
				}
			}
		}
		if x.Format == "erofs" && len(seen) != len(m.kids[p]) {
			return fmt.Sprintf("ReadDir(%q) lists %d of %d entries without an error", p, len(seen), len(m.kids[p]))
		}
		return ""
	}
	if s := walk("."); s != "" {
		return s
	}
	for i, p := range whole {
		if i > 40 && i < len(whole)-5 {
			continue
		}
		if _, err := f.Open(p); errors.Is(err, fs.ErrNotExist) && m.N[p].K != "l" {
			return fmt.Sprintf("%q lies before the cut but Open reports %v", p, err)
		}
	}
	if x.Format == "erofs" {
		r := NewRng(seed, 0x777)
		paths := sortedKeys(m.N)
		for i := 0; i < 8; i++ {
			p := paths[r.Intn(len(paths))]
			if m.N[p].K == "l" {
				continue
			}
			if _, err := fs.Stat(f, p); errors.Is(err, fs.ErrNotExist) {
				return fmt.Sprintf("Stat(%q) of the truncated image reports %v", p, err)
			}
		}
	}
	return ""
}

func execC07(p *Plan, o *Outcome) {
	m := modelOf(p)
	data := buildArchive(p, o, m)
	if data == nil {
		return
	}
	o.Seams = map[string]int64{"size": int64(len(data))}
	x := Exp{Format: p.Kind, Owner: p.Kv("sys", 1) != 0, Root: p.Kind == "erofs"}
	regions, ends := headerRegions(p.Kind, data, m)
	order := walkOrder(m)
	if len(ends) != len(order) && p.Kind != "erofs" {
		panic(fmt.Sprintf("sim: %d entries in an archive of %d", len(ends), len(order)))
	}
	for _, c := range p.Faults {
		if c.Seam != "cut" || c.N >= int64(len(data)) {
			continue
		}
		o.Fired["truncate"]++
		o.Nontrivial = true
		var diff string
		var oerr error
		var whole []string
		for i, e := range ends {
			if e <= c.N {
				whole = append(whole, order[i])
			}
		}
		runOne(p, o, 0, func() {
			f, err := openFmt(p.Kind, &Disk{env: NewEnv(p, 1), data: data[:c.N:c.N]})
			if oerr = err; err == nil {
				diff = checkPart(f, m, x, p.Seed, whole)
			}
		})
		if o.Class != "" {
			return
		}
		if diff != "" {
			o.fail("silently-wrong", "archive of %d bytes cut after %d: %s", len(data), c.N, diff)
			return
		}
		if oerr == nil {
			o.probe("cut archive opened")
			for _, g := range regions {
				if c.N > g[0] && c.N < g[1] {
					o.fail("truncation-unnoticed", "archive of %d bytes cut after %d, inside the header at %d: Open reports no error", len(data), c.N, g[0])
					return
				}
			}
		}
	}
}

// ---- C08 ------------------------------------------------------------------------

func genC08(r *Rng, idx int, thorough bool) *Plan {
	p := readPlan(r, formats[idx/8%3], 8)
	p.Kn["sys"] = 1
	return p
}

func deriveC08(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	size := int64(o.Seams["size"])
	if size == 0 {
		return nil
	}
	var out []*Plan
	for i := 0; i < 24; i++ {
		q := p.Clone()
		n := 1
		if r.P(1, 3) {
			n = 1 + r.Intn(6)
		}
		for j := 0; j < n; j++ {
			at := r.Int63n(size)
			switch {
			case p.Kind == "erofs" && r.P(1, 4): // superblock
				at = 1024 + r.Int63n(128)
			case p.Kind == "erofs" && r.P(1, 12):
				at = 1024 + r.Int63n(3072)
			case p.Kind == "erofs" && r.P(1, 2) && size > 4096: // inodes
				at = 4096 + r.Int63n(min(size-4096, 4096))
			case p.Kind == "tar" && r.P(2, 3): // headers
				at = at&^511 + r.Int63n(512)
			}
			f := Fault{Seam: "mut", N: at, A: r.Int63n(1 << 40), Kind: Pick(r, "flip", "flip", "byte", "zero", "ff", "copy", "word", "lost-block", "misdirected", "garbage", "field", "field", "field")}
			q.Faults = append(q.Faults, f)
		}
		if r.P(1, 2) {
			q.Faults = append(q.Faults, Fault{Seam: "mut", Kind: "fixsum"})
		}
		if r.P(1, 40) {
			q.Faults = []Fault{{Seam: "mut", Kind: "all-garbage", N: r.Int63n(20000), A: r.Int63n(1 << 40)}}
			if r.P(1, 2) {
				q.Faults = append(q.Faults, Fault{Seam: "mut", Kind: "fixsum"})
			}
		}
		out = append(out, q)
	}
	return out
}

func mutate(format string, orig []byte, faults []Fault) []byte {
	d := append([]byte(nil), orig...)
	for i := range faults {
		f := &faults[i]
		if f.Seam != "mut" {
			continue
		}
		at := f.N
		if len(d) > 0 {
			at %= int64(len(d))
		}
		span := func(n int64) []byte { return d[at:min(at+n, int64(len(d)))] }
		switch f.Kind {
		case "flip":
			d[at] ^= 1 << (f.A % 8)
		case "byte":
			d[at] = byte(f.A)
		case "zero":
			for i, b := 0, span(1+f.A%64); i < len(b); i++ {
				b[i] = 0
			}
		case "ff":
			for i, b := 0, span(1+f.A%16); i < len(b); i++ {
				b[i] = 0xff
			}
		case "copy":
			from := f.A % int64(len(d))
			copy(span(1+f.A>>20%200), d[from:])
		case "word":
			var w [8]byte
			v := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 4096}[f.A%18]
			binary.LittleEndian.PutUint64(w[:], v)
			copy(span([]int64{2, 4, 8}[f.A>>8%3]), w[:])
		case "field":
			off, n, text := fieldAt(format, d, at, uint64(f.A))
			if off >= 0 && off+n <= int64(len(d)) {
				copy(d[off:off+n], fieldValue(d[off:off+n], text, uint64(f.A)>>20))
			}
		case "lost-block":
			at = at &^ 511
			for i, b := 0, span([]int64{512, 4096}[f.A%2]); i < len(b); i++ {
				b[i] = 0
			}
		case "misdirected":
			at = at &^ 511
			from := (f.A % int64(len(d))) &^ 511
			copy(span(512), d[from:])
		case "garbage":
			copy(span(1+f.A%600), Content(uint64(f.A), 600))
		case "all-garbage":
			d = Content(uint64(f.A), 8+f.N)
			switch format {
			case "ar":
				copy(d, "!<arch>\n")
			case "erofs":
				if len(d) > 1152 {
					copy(d[1024:], orig[1024:1152])
				}
			}
		case "fixsum":
			fixsum(format, d)
		}
	}
	return d
}

// fieldAt picks a field of the structure at or before the given place.
func fieldAt(format string, d []byte, at int64, x uint64) (off, n int64, text bool) {
	one := func(l [][2]int64) (int64, int64) { f := l[x%uint64(len(l))]; return f[0], f[1] }
	switch format {
	case "erofs":
		switch {
		case at < 4096:
			off, n = one([][2]int64{{0, 4}, {4, 4}, {4, 4}, {8, 4}, {12, 1}, {13, 1}, {14, 2}, {16, 8}, {24, 8}, {32, 4}, {36, 4}, {40, 4}, {44, 4}, {48, 16}, {64, 16}, {80, 4}, {84, 2}, {86, 2}, {88, 2}, {90, 38}})
			return 1024 + off, n, false
		case x>>8&1 == 0:
			off, n = one([][2]int64{{0, 2}, {2, 2}, {4, 2}, {6, 2}, {8, 4}, {8, 8}, {16, 4}, {20, 4}, {24, 2}, {26, 2}, {24, 4}, {28, 4}, {32, 8}, {40, 4}, {44, 4}, {48, 16}})
			return at&^31 + off, n, false
		}
		off, n = one([][2]int64{{0, 8}, {0, 4}, {8, 2}, {8, 2}, {10, 1}, {11, 1}})
		return at&^3 + off, n, false
	case "tar":
		off, n = one([][2]int64{{0, 100}, {100, 8}, {108, 8}, {116, 8}, {124, 12}, {124, 12}, {136, 12}, {148, 8}, {156, 1}, {156, 1}, {157, 100}, {257, 6}, {263, 2}, {265, 32}, {329, 8}, {345, 155}})
		return at&^511 + off, n, true
	}
	// The header of the member that is there.
	hdr := int64(8)
	for hdr+60 <= int64(len(d)) {
		size, err := strconv.ParseInt(strings.TrimSpace(string(d[hdr+48:hdr+58])), 10, 64)
		if err != nil || size < 0 || size > int64(len(d)) || hdr+60+size+size%2 > at {
			break
		}
		hdr += 60 + size + size%2
	}
	off, n = one([][2]int64{{0, 16}, {16, 12}, {28, 6}, {34, 6}, {40, 8}, {48, 10}, {48, 10}, {48, 10}, {58, 2}})
	return hdr + off, n, true
}

// fieldValue is an extreme value for a field.
func fieldValue(old []byte, text bool, x uint64) []byte {
	v := make([]byte, len(old))
	fill := func(s string) {
		for i := range v {
			v[i] = ' '
		}
		copy(v, s)
	}
	c := x >> 8
	switch k := x % 12; {
	case k == 0: // zeros
	case k == 1:
		for i := range v {
			v[i] = 0xff
		}
	case k == 2:
		for i, b := range old {
			v[i] = ^b
		}
	case k == 3:
		copy(v, old)
		v[int(c)%len(v)]++
	case k == 4:
		copy(v, old)
		v[int(c)%len(v)]--
	case !text:
		copy(v, binary.LittleEndian.AppendUint64(nil, []uint64{1, 2, 12, 13, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 52, 1<<63 - 1, 1 << 63, c}[c%20]))
	case k == 5:
		fill(strings.Repeat("7", len(v)))
	case k == 6:
		fill(strings.Repeat("9", len(v)))
	case k == 7:
		fill([]string{"-1", "-0", "-60", "-61", "+1", "0x10", "1e3", "-9223372036854775808", "1_0", "8", "60", "63"}[c%12])
	case k == 8: // base-256 numbers of tar
		for i := range v {
			v[i] = byte(mix64(c + uint64(i)))
		}
		v[0] = []byte{0x80, 0xff, 0xc0, 0x80}[c%4]
		if len(v) > 8 && c>>2&1 == 0 {
			clear(v[1 : len(v)-6])
		}
	case k == 9:
		fill([]string{"/", "//", "..", ".", "../../x", "a/../..", "/a", "a//b", "#1/20", "S", "x", "g", "L", "K", "1", "2", "5", "7", "V", "6", "3"}[c%21])
	case k == 10:
		fill("")
	default:
		for i := range v {
			v[i] = "0123456789 -/.abc\x00\xff"[mix64(c+uint64(i))%19]
		}
	}
	return v
}

// fixsum makes checksums right again so that damage reaches the code behind them.
func fixsum(format string, d []byte) {
	switch format {
	case "erofs":
		if len(d) < 4096 {
			return
		}
		bits := d[1024+12]
		if bits < 9 || bits > 16 {
			return
		}
		end := int64(1) << bits
		if end <= 1024 {
			end += 1024
		}
		if end > int64(len(d)) {
			return
		}
		b := append([]byte(nil), d[1024:end]...)
		copy(b[4:8], []byte{0, 0, 0, 0})
		binary.LittleEndian.PutUint32(d[1028:], ^crc32.Update(0, crc32.MakeTable(crc32.Castagnoli), b))
	case "tar":
		for off := 0; off+512 <= len(d); off += 512 {
			b := d[off : off+512]
			if string(b[257:262]) != "ustar" {
				continue
			}
			var sum int64
			for i, c := range b {
				if i >= 148 && i < 156 {
					c = ' '
				}
				sum += int64(c)
			}
			copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
		}
	}
}

// sparse tar entries may declare holes of any size.
func maybeSparse(d []byte) bool {
	if bytes.Contains(d, []byte("GNU.sparse")) {
		return true
	}
	for off := 156; off < len(d); off += 512 {
		if d[off] == 'S' {
			return true
		}
	}
	return false
}

// prowl uses a filesystem that may be nonsense; the client itself is bounded.
func prowl(f fs.FS, budget int) (nodes int, negative string) {
	lf := linkFS(f)
	sized := func(fi fs.FileInfo, err error, what, name string) {
		if err == nil && fi != nil && fi.Size() < 0 && negative == "" {
			negative = fmt.Sprintf("%s of %q reports a size of %d", what, name, fi.Size())
		}
	}
	var walk func(p string, depth int)
	walk = func(p string, depth int) {
		l, err := fs.ReadDir(f, p)
		if err != nil {
			return
		}
		for _, e := range l {
			if nodes++; nodes > budget {
				return
			}
			full := p + "/" + e.Name()
			if p == "." {
				full = e.Name()
			}
			e.Type()
			e.IsDir()
			fi, err := e.Info()
			sized(fi, err, "Info", full)
			fi, err = fs.Stat(f, full)
			sized(fi, err, "Stat", full)
			if lf != nil {
				fi, err = lf.StatLink(full)
				sized(fi, err, "StatLink", full)
				lf.ReadLink(full)
			}
			if h, err := f.Open(full); err == nil {
				fi, err := h.Stat()
				sized(fi, err, "Stat of the handle", full)
				buf := make([]byte, 8192)
				zero := 0
				for i := 0; i < 64; i++ {
					n, err := h.Read(buf)
					if n == 0 {
						zero++
					}
					if err != nil || zero > 8 {
						break
					}
				}
				h.Close()
			}
			if e.IsDir() && depth < 12 {
				walk(full, depth+1)
			}
		}
	}
	fs.Stat(f, ".")
	walk(".", 0)
	for _, p := range []string{"a", "a/b", "../x", "n1/../n2", ""} {
		fs.Stat(f, p)
		f.Open(p)
	}
	return nodes, negative
}

func execC08(p *Plan, o *Outcome) {
	m := modelOf(p)
	data := buildArchive(p, o, m)
	if data == nil {
		return
	}
	o.Seams = map[string]int64{"size": int64(len(data))}
	if len(p.Faults) == 0 {
		return
	}
	bad := mutate(p.Kind, data, p.Faults)
	if p.Kind == "tar" && maybeSparse(bad) {
		return
	}
	for _, f := range p.Faults {
		o.Fired[f.Kind]++
	}
	o.Nontrivial = !bytes.Equal(bad, data)
	o.note(HashStr(string(bad)))
	var oerr error
	nodes, negative := 0, ""
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	// The budget of one allocation is out of proportion by two orders.
	maxAlloc := int64(64<<20) + 16*int64(len(bad))
	runOne(p, o, maxAlloc, func() {
		f, err := openFmt(p.Kind, &Disk{env: NewEnv(p, 1), data: bad})
		if oerr = err; err == nil {
			nodes, negative = prowl(f, 600)
		}
	})
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > 3<<30 {
		o.fail("memory", "opening and walking an archive of %d bytes (%d entries visited) allocated %d MB", len(bad), nodes, used>>20)
	}
	if negative != "" {
		o.fail("negative-size", "%s", negative)
	}
	if oerr == nil {
		o.probe("damaged archive opened")
	} else {
		o.probe("damaged archive refused")
	}
	if nodes >= 600 {
		o.probe("damage made an endless tree")
	}
	if p.Kind == "erofs" && o.Class == "" && oerr == nil && len(bad) >= 4096 {
		sumOn := bad[1032]&1 != 0
		fixed := false
		for _, f := range p.Faults {
			fixed = fixed || f.Kind == "fixsum" || f.Kind == "all-garbage"
		}
		if sumOn && !fixed && !bytes.Equal(bad[1024:4096], data[1024:4096]) {
			o.fail("damage-unnoticed", "the superblock block was altered and Open reports no error")
		}
	}
}

func init() {
	read := []string{"archive storage (io.ReaderAt)", "scheduler, clock, map iteration order"}
	register(&Prop{ID: "C06", Quick: 2600, Thorough: 80000, Real: realAll, Stub: read, Faults: []string{"read errors"},
		Rule: "a random archive, up to eight calls, then the same with one to three read errors (single or for a period, with no, partial or scribbled data) placed at reads the fault-free execution made; afterwards storage works and everything is checked again; non-trivial: an error was delivered",
		Gen:  genC06, Derive: deriveDisk(9), Exec: execC06})
	register(&Prop{ID: "C07", Quick: 2600, Thorough: 60000, Real: realAll, Stub: read, Faults: []string{"truncation"},
		Rule: "a random archive cut at 40 positions each (biased to block boundaries and the end); non-trivial: at least one cut was opened",
		Gen:  genC07, Derive: deriveC07, Exec: execC07})
	register(&Prop{ID: "C08", Quick: 1800, Thorough: 60000, Real: realAll, Stub: read, Faults: []string{"bit flips", "lost blocks", "misdirected writes", "garbage"},
		Rule: "a random archive damaged in up to six places (bit flips, extreme field values, lost, misdirected and garbage blocks; checksums repaired in half of the cases so that the damage is reached), opened and prowled within step and allocation budgets; non-trivial: the bytes differ from the original",
		Gen:  genC08, Derive: deriveC08, Exec: execC08})
	register(&Prop{ID: "C09", Quick: 12000, Thorough: 400000, Real: realAll, Stub: read, Faults: []string{"read errors"},
		Rule: "a random tree of few names with many links (chains, cycles, bombs), 14 lookups compared with a reference POSIX resolver, half of the executions with delays and re-chunked storage, derived ones with read errors; non-trivial: a lookup succeeded through a link",
		Gen:  genC09, Derive: func(r *Rng, p *Plan, o *Outcome, th bool) []*Plan {
			if p.Kind != "erofs" || !r.P(1, 3) {
				return nil
			}
			return deriveDisk(1)(r, p, o, th)
		}, Exec: execC09})
	register(&Prop{ID: "C10", Race: true, Quick: 2600, Thorough: 100000, Real: realAll, Stub: read, Faults: []string{"read errors"},
		Rule: "two to four goroutines share a filesystem and directory entries and use their own handles; preemption at every statement with a mean interval of 2 to 300; derived executions with read errors in one of them; non-trivial: at least two goroutines made calls",
		Gen:  genC10, Derive: deriveDisk(1), Exec: execC10})
	_ = tar.TypeReg
	_ = io.EOF
	_ = sort.Strings
}
