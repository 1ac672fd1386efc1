package h

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/signal"
	"path"
	"strings"
	"syscall"

	"github.com/dpeckett/archivefs/erofs"
	"verif.local/sim/simrt"
)

var (
	realAll   = []string{"github.com/dpeckett/archivefs/tarfs", "arfs", "erofs", "memfs (current sources of /repo, instrumented)", "archive/tar", "bytes", "io", "io/fs"}
	stubStore = []string{"archive storage (io.ReaderAt, io.Writer, io.WriterAt)", "source filesystem (fs.FS, fs.File, FileInfo)", "scheduler, clock, map iteration order, mutexes"}
)

// creatable says whether Create must succeed (nothing fails) and whether it must
// refuse the tree.
func creatable(format string, nodes []Node, variant int64, sys int) (must, refuse bool) {
	must = true
	for i := range nodes {
		n := &nodes[i]
		if n.K == "l" && (variant == 2 || variant == 3) {
			return false, true
		}
		if strings.Contains(n.P, "\x00") {
			must = false
		}
		switch format {
		case "tar":
			if strings.Contains("cbps", n.K) && n.K != "" {
				must = false
			}
		case "ar":
			if n.K != "f" {
				return false, true
			}
			nm := n.P
			if len(nm) > 16 || n.S > 9999999999 {
				return false, true
			}
			plain := true
			for _, c := range nm {
				if c <= ' ' || c > '~' || c == '/' || c == '\\' {
					plain = false
				}
			}
			if !plain {
				must = false
			}
			if sys != 0 {
				if n.U > 999999 || n.G > 999999 {
					return false, true
				}
			}
			if !n.TZ && (n.T > 99999999999 || n.T < -9999999999) {
				must = false
			}
		case "erofs":
			if n.K == "l" && len(n.L) >= 4096 {
				must = false
			}
			if n.K != "l" && n.K != "d" && n.K != "f" {
				must = false
			}
		}
		if len(path.Base(n.P)) > 255 {
			must = false
		}
	}
	return must, false
}

// creation is one execution of Create.
type creation struct {
	format   string
	variant  int64
	sys      int
	seq      bool
	prefill  int64
	osfile   bool
	fsize    int64 // size limit of the real file + 1, 0 for none
	unsorted bool
	keep     bool
}

func creationOf(p *Plan) creation {
	return creation{format: p.Kind, variant: p.Kv("variant", 0), sys: int(p.Kv("sys", 1)), seq: p.Kv("seq", 0) != 0,
		prefill: p.Kv("prefill", 0), osfile: p.Kv("osfile", 0) != 0, unsorted: p.Kv("unsorted", 0) != 0}
}

func (c creation) exp() Exp {
	return Exp{Format: c.format, Owner: c.sys != 0, Root: c.format == "erofs"}
}

// run executes Create as the only task of a simulation.
func (c creation) run(p *Plan, o *Outcome, env *Env, m *Model) (st *Store, src *Source, err error, ok bool) {
	st = &Store{env: env, keep: c.keep, rich: p.Seed>>9&3 == 0}
	if c.prefill > 0 {
		st.data = Content(p.Seed^0x9f111, c.prefill)
	}
	src = NewSource(env, m, c.sys)
	src.unsorted = c.unsorted
	runOne(p, o, 0, func() {
		if c.osfile {
			err = createOSFile(st, src.FS(c.variant), c.fsize-1)
			return
		}
		err = createFmt(c.format, st, c.seq, src.FS(c.variant))
	})
	return st, src, err, o.Class == ""
}

// createOSFile writes the image to a real temporary file.  With a limit, the
// kernel refuses to let the file grow beyond that size.
func createOSFile(st *Store, src fs.FS, limit int64) error {
	f, err := os.CreateTemp("", "simimg")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	if _, err := f.Write(st.data); err != nil {
		panic(err)
	}
	create := func() error {
		if limit < 0 {
			return erofs.Create(f, src)
		}
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}); err != nil {
			panic(err)
		}
		defer func() {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
				panic(err)
			}
		}()
		return erofs.Create(f, src)
	}
	if err := create(); err != nil {
		return err
	}
	// (What is longer than this fails for its length.)
	if _, err = f.Seek(0, io.SeekStart); err == nil {
		st.data, err = io.ReadAll(io.LimitReader(f, 128<<20))
	}
	if err != nil {
		panic(err)
	}
	return nil
}

// present opens archive bytes and compares everything with the model.
func present(p *Plan, o *Outcome, env *Env, format string, data []byte, m *Model, x Exp) (openErr error, diff string) {
	return presentDisk(p, o, &Disk{env: env, data: data}, format, m, x)
}

func presentDisk(p *Plan, o *Outcome, d *Disk, format string, m *Model, x Exp) (openErr error, diff string) {
	runOne(p, o, 0, func() {
		f, err := openFmt(format, d)
		if err != nil {
			openErr = err
			return
		}
		diff = checkTree(f, m, x, p.Seed)
	})
	return
}

func treeOptsFor(format string, r *Rng, sys int, thorough bool) TreeOpts {
	o := TreeOpts{Max: 1 + r.Intn(12), Links: format != "ar", Flat: format == "ar", LongName: true}
	if format == "ar" {
		o.SmallIDs = sys != 0 && r.P(4, 5)
		if r.P(4, 5) {
			o.Names = arName
		}
	}
	if r.P(1, 3) {
		o.MaxSize = 1100
	}
	if format == "erofs" && r.P(1, 12) || r.P(1, 60) && format != "ar" {
		o.BigDir = true
		o.Max = 40 + r.Intn(400)
		if r.P(1, 2) {
			o.LongName = false
			if r.P(1, 2) {
				o.Names, o.Max = shortName, 300+r.Intn(400)
			}
		}
	}
	return o
}

func arName(r *Rng) string {
	switch r.Intn(12) {
	case 0:
		return strings.Repeat("n", 14) + fmt.Sprint(r.Intn(10))
	case 1:
		return strings.Repeat("n", 15) + fmt.Sprint(r.Intn(10))
	case 2:
		return strings.Repeat("n", 16) + fmt.Sprint(r.Intn(10))
	case 3:
		return Pick(r, "a b", " a", "a ", "ä", "日本語日", "日本語日本", "日本語日本é", "a\\b", ".a", "#1/5", "//", "`", "éééééééé", "ééééééééé")
	}
	return fmt.Sprintf("%s%d", Pick(r, "debian-binary", "control", "data", "f", "x"), r.Intn(100))
}

func fixNames(nodes []Node) []Node {
	out := nodes[:0]
	for _, n := range nodes {
		if fs.ValidPath(n.P) {
			out = append(out, n)
		}
	}
	return out
}

func genCreate(format string) func(r *Rng, idx int, thorough bool) *Plan {
	return func(r *Rng, idx int, thorough bool) *Plan {
		p := &Plan{Kind: format, Seed: r.U64(), Kn: map[string]int64{}}
		if r.P(4, 5) {
			p.IO = r.U64() | 1
		}
		sys := r.Intn(3)
		p.Kn["sys"] = int64(sys)
		p.Kn["variant"] = Pick[int64](r, 0, 0, 0, 1, 1, 2, 3)
		p.Kn["root"] = r.Int63n(1 << 40)
		p.Kn["seq"] = int64(r.Intn(2))
		to := treeOptsFor(format, r, sys, thorough)
		if p.Kn["variant"] >= 2 && r.P(9, 10) {
			to.Links = false
		}
		if format == "erofs" {
			if r.P(1, 4) {
				p.Kn["prefill"] = 1 + r.Int63n(40000)
			}
			if r.P(1, 40) {
				p.Kn["osfile"] = 1
			}
		}
		p.Nodes = fixNames(GenTree(r, to))
		if format == "erofs" && r.P(1, 16) {
			p.Nodes = Normalize(append(p.Nodes, fitNodes(r, 4096)...))
		}
		if r.P(1, 50) { // nothing at all
			p.Nodes = nil
		}
		return p
	}
}

// hugeEvery: how often a tree holds a file that does not fit in 31 or 32 bits.
const hugeEvery = 1 << 11

func genRoundtrip(format string) func(r *Rng, idx int, thorough bool) *Plan {
	return func(r *Rng, idx int, thorough bool) *Plan {
		p := genCreate(format)(r, idx, thorough)
		every := hugeEvery
		if format == "erofs" { // images have holes, so that these cost little
			every /= 4
		}
		if idx%every == every-1 {
			genHuge(r, p, thorough)
		} else if format != "ar" && r.P(1, 30) { // more than a name may have
			n := Node{P: strings.Repeat("L", Pick(r, 256, 257, 300, 1000)), K: "f", M: 0o600, T: 5, S: r.Int63n(100), C: r.U64()}
			p.Nodes = append(p.Nodes, n)
		}
		if format != "ar" && p.Kn["variant"] < 2 && r.P(1, 30) {
			p.Nodes = append(p.Nodes, Node{P: "long.ln", K: "l", M: 0o777, T: 5, L: strings.Repeat("T", Pick(r, 4095, 4096, 4097, 5000, 8192, 70000))})
		}
		if format != "tar" && r.P(1, 30) { // (tarfs writes special files but does not open them)
			n := Node{P: "special", K: Pick(r, "c", "c", "b", "p", "s", "i"), M: 0o600, T: 5}
			p.Nodes = append(p.Nodes, n)
		}
		return p
	}
}

func genHuge(r *Rng, p *Plan, thorough bool) {
	p.Kn["osfile"], p.Kn["prefill"] = 0, 0
	for i := range p.Nodes {
		n := &p.Nodes[i]
		if n.K != "f" {
			continue
		}
		n.S = Pick[int64](r, 1<<31-1, 1<<31, 1<<32-4097, 1<<32-1, 1<<32, 1<<32+1, 1<<32+4096, 5000000000, 1<<33-1, 1<<33)
		if thorough && r.P(1, 2) {
			n.S = Pick[int64](r, 9999999999, 10000000000, 1<<34, 1<<34+5, r.Int63n(1<<35)+hugeSize)
		}
		if p.Kind == "erofs" && r.P(1, 2) { // the smallest inode there is
			n.TZ, n.U, n.G = true, 0, 0
		}
		return
	}
}

// execRoundtrip: C01, C02, C03.
func execRoundtrip(p *Plan, o *Outcome) {
	c := creationOf(p)
	env := NewEnv(p, 1)
	m := modelOf(p)
	st, src, err, ok := c.run(p, o, env, m)
	if !ok {
		return
	}
	must, refuse := creatable(c.format, p.Nodes, c.variant, c.sys)
	env.countFired(o)
	o.noteStr(fmt.Sprint(err != nil))
	if err != nil {
		if must {
			o.fail("create-failed", "Create fails although nothing failed: %v", err)
		}
		o.probe("create refused")
		return
	}
	if refuse {
		o.fail("not-refused", "Create reports success for a tree the format or the source cannot represent")
		return
	}
	o.note(HashStr(string(st.data)))
	o.Nontrivial = len(p.Nodes) > 0
	if len(m.kids) > 0 {
		for _, k := range m.kids {
			if len(k) > 100 {
				o.probe("directory of more than 100 entries")
			}
		}
	}
	if src.MaxOpen > 0 {
		o.probe("file content copied")
	}
	if st.big != nil {
		o.probe("archive of more than 2 GiB")
	}
	oerr, diff := presentDisk(p, o, st.disk(env), c.format, m, c.exp())
	env.countFired(o)
	if oerr != nil {
		o.fail("not-openable", "Open fails on what Create wrote: %v", oerr)
	}
	if diff != "" {
		o.fail("tree-differs", "%s", diff)
	}
	if p.Kv("prefill", 0) > 0 {
		o.probe("destination held other data before")
	}
}

func init() {
	rule := "a random source tree (names, sizes at block boundaries, modes, owners, times, links), legal but adversarial chunking, EOF flags, zero reads and latencies on source and storage; non-trivial: Create succeeded for at least one entry and the archive was opened and compared with the model"
	register(&Prop{ID: "C01", Quick: 9000, Thorough: 400000, Rule: rule, Real: realAll, Stub: stubStore, Gen: genRoundtrip("tar"), Exec: execRoundtrip})
	register(&Prop{ID: "C02", Quick: 16000, Thorough: 600000, Rule: rule, Real: realAll, Stub: stubStore, Gen: genRoundtrip("ar"), Exec: execRoundtrip})
	register(&Prop{ID: "C03", Quick: 7000, Thorough: 300000, Rule: rule, Real: realAll, Stub: stubStore, Gen: genRoundtrip("erofs"), Exec: execRoundtrip})
}

// ---- C04 ------------------------------------------------------------------------

var formats = []string{"tar", "ar", "erofs"}

func genAnyCreate(r *Rng, idx int, thorough bool) *Plan {
	format := formats[idx/8%3]
	p := &Plan{Kind: format, Seed: r.U64(), Kn: map[string]int64{"sys": int64(r.Intn(3)), "seq": int64(r.Intn(2))}}
	if r.P(1, 2) {
		p.IO = r.U64() | 1
	}
	p.Kn["variant"] = Pick[int64](r, 0, 0, 1, 2, 3)
	p.Kn["root"] = r.Int63n(1 << 40)
	to := TreeOpts{Max: 1 + r.Intn(7), Links: format != "ar" && p.Kn["variant"] < 2, Flat: format == "ar", SmallIDs: true, NoNsec: r.P(1, 2)}
	if format == "ar" {
		to.Names = func(r *Rng) string { return fmt.Sprintf("f%d", r.Intn(1000)) }
	}
	if r.P(1, 25) && format != "ar" {
		to.BigDir, to.Max = true, 60
	}
	p.Nodes = GenTree(r, to)
	if r.P(1, 25) { // a name most formats cannot hold
		n := &p.Nodes[r.Intn(len(p.Nodes))]
		if b := path.Base(n.P); n.K != "d" && len(b) < 200 {
			k := r.Intn(len(b) + 1)
			n.P = path.Join(path.Dir(n.P), b[:k]+"\x00"+b[k:])
		}
	}
	if r.P(1, 50) {
		p.Nodes = nil
	}
	return p
}

var createFaults = map[string][]string{
	"store.write":  {"err", "short", "enospc", "late"},
	"src.readdir":  {"eio", "eio-partial"},
	"src.info":     {"eio"},
	"src.open":     {"eio", "shrink", "grow"},
	"src.stat":     {"eio"},
	"src.read":     {"eio", "eio-partial"},
	"src.readlink": {"eio"},
}

func deriveCreate(per int, kinds map[string][]string) func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	return func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
		var out []*Plan
		for i := 0; i < per; i++ {
			q := p.Clone()
			n := 1
			if r.P(1, 6) {
				n = 2
			}
			for j := 0; j < n; j++ {
				f, ok := pickFault(r, o.Seams, kinds)
				if !ok {
					return out
				}
				if r.P(1, 4) {
					f.C = Pick[int64](r, 1, 2, 1<<40)
				}
				q.Faults = append(q.Faults, f)
			}
			out = append(out, q)
		}
		return out
	}
}

func genC04(r *Rng, idx int, thorough bool) *Plan {
	p := genAnyCreate(r, idx, thorough)
	if p.Kind == "erofs" && r.P(1, 6) {
		p.Kn["osfile"], p.Kn["limit"] = 1, 1+r.Int63n(1<<40)
	}
	return p
}

// limitedFile: the destination is a real file that cannot grow to the size the
// image needs.
func limitedFile(p *Plan, o *Outcome, c creation, m *Model) {
	st, _, err, ok := c.run(p, o, NewEnv(p, 1), m)
	if !ok || err != nil {
		return // judged without a limit
	}
	ref := st.data
	if len(ref) == 0 {
		return
	}
	k := p.Kv("limit", 0)
	c.fsize = 1 + k%int64(len(ref))
	if k%4 != 0 { // only the end is missing
		c.fsize = 1 + int64(len(ref)) - 1 - k/4%min(4096, int64(len(ref)))
	}
	st, _, err, ok = c.run(p, o, NewEnv(p, 1), m)
	if !ok {
		return
	}
	if o.Fired == nil {
		o.Fired = map[string]int64{}
	}
	o.Fired["os.file:size-limit"]++
	o.Nontrivial = true
	o.noteStr(fmt.Sprint("limited", err != nil))
	if err == nil && !bytes.Equal(st.data, ref) {
		o.fail("error-lost", "Create returned nil although the destination file could not grow beyond %d bytes (it has %d, the complete image %d): %s", c.fsize-1, len(st.data), len(ref), diffBytes(st.data, ref))
	}
}

func execC04(p *Plan, o *Outcome) {
	c := creationOf(p)
	m := modelOf(p)
	if p.Kv("limit", 0) != 0 {
		q := p.Clone()
		q.Faults = nil
		if limitedFile(q, o, c, m); o.Class != "" {
			return
		}
		c.osfile = false
	}
	clean := p.Clone()
	clean.Faults = nil
	var ref []byte
	if len(p.Faults) > 0 {
		st, _, err, ok := c.run(clean, o, NewEnv(clean, 1), m)
		if !ok || err != nil {
			return // the fault-free case is judged on its own
		}
		ref = st.data
	}
	env := NewEnv(p, 1)
	st, src, err, ok := c.run(p, o, env, m)
	env.countFired(o)
	if !ok {
		return
	}
	o.noteStr(fmt.Sprint(err != nil))
	must, refuse := creatable(c.format, p.Nodes, c.variant, c.sys)
	if len(p.Faults) == 0 {
		switch {
		case err != nil && must:
			o.fail("create-failed", "Create fails although nothing failed: %v", err)
		case err == nil && refuse:
			o.fail("not-refused", "Create reports success for a tree that cannot be represented")
		}
		if err == nil && o.Class == "" {
			oerr, diff := present(p, o, NewEnv(clean, 1), c.format, st.data, m, c.exp())
			if oerr != nil || diff != "" {
				o.fail("incomplete", "Create returned nil without any fault: %v %s", oerr, diff)
			}
		}
		return
	}
	fired := env.anyFired()
	o.Nontrivial = fired
	if err != nil {
		if !fired && must {
			o.fail("create-failed", "Create fails although nothing failed: %v", err)
		}
		return
	}
	if src.Shrunk || src.Grew {
		o.fail("size-change-unnoticed", "Create returned nil although a source file delivered another number of bytes than its size")
		return
	}
	if len(src.lostOpen) > 0 {
		o.fail("error-lost", "Create returned nil although the source file %q could not be opened", sortedKeys(src.lostOpen)[0])
		return
	}
	if fired && !bytes.Equal(st.data, ref) {
		o.fail("error-lost", "Create returned nil although %s failed and the destination differs from the complete archive (%d bytes, %d expected): %s", strings.Join(sortedKeys(o.Fired), ", "), len(st.data), len(ref), diffBytes(st.data, ref))
		return
	}
	if refuse {
		return
	}
	oerr, diff := present(clean, o, NewEnv(clean, 1), c.format, st.data, m, c.exp())
	if oerr != nil || diff != "" {
		o.fail("incomplete", "Create returned nil after a fault but the archive is not complete: open error %v; %s", oerr, diff)
	}
}

// ---- C05 ------------------------------------------------------------------------

func genC05(r *Rng, idx int, thorough bool) *Plan {
	p := genCreate("erofs")(r, idx, thorough)
	delete(p.Kn, "prefill")
	delete(p.Kn, "osfile")
	if p.Kn["variant"] >= 2 {
		p.Kn["variant"] = 0
	}
	return p
}

func deriveC05(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	n := int(o.Seams["store.write/0"])
	if n == 0 {
		return nil
	}
	q := p.Clone()
	add := func(at int, torn int64) {
		k := "after-write"
		if torn > 0 {
			k = "torn-write"
		}
		q.Faults = append(q.Faults, Fault{Seam: "crash", Kind: k, N: int64(at), A: torn})
	}
	if n <= 14 {
		for i := 0; i < n; i++ {
			add(i, 0)
			add(i, 1+r.Int63n(1<<20))
		}
	} else {
		for i := 0; i < 20; i++ {
			at := r.Intn(n)
			if r.P(1, 3) {
				at = n - 1 - r.Intn(4)
			}
			add(at, Pick[int64](r, 0, 1+r.Int63n(1<<20)))
		}
	}
	// The last write is the one that makes the image valid.
	for i := 0; i < 4; i++ {
		add(n-1, Pick[int64](r, 1, 1024, 1025, 1028, 1032, 1152, 1153, 4095, 1+r.Int63n(4095)))
	}
	return []*Plan{q}
}

func execC05(p *Plan, o *Outcome) {
	c := creationOf(p)
	c.keep = true
	m := modelOf(p)
	env := NewEnv(p, 1)
	st, _, err, ok := c.run(p, o, env, m)
	env.countFired(o)
	if !ok {
		return
	}
	if err != nil {
		if must, _ := creatable(c.format, p.Nodes, c.variant, c.sys); must {
			o.fail("create-failed", "Create fails although nothing failed: %v", err)
		}
		return
	}
	for i := range p.Faults {
		f := &p.Faults[i]
		if f.Seam != "crash" || f.N >= int64(len(st.log)) {
			continue
		}
		torn := 0
		if f.A > 0 && len(st.log[f.N].b) > 0 {
			torn = int(f.A % int64(len(st.log[f.N].b)))
		}
		img := imageAfter(st.log, int(f.N), torn)
		o.Fired["crash:"+f.Kind]++
		o.Nontrivial = true
		oerr, diff := present(p, o, NewEnv(p, 1), "erofs", img, m, c.exp())
		if o.Class != "" {
			return
		}
		if oerr == nil {
			o.probe("image opened after a crash")
		}
		if oerr == nil && diff != "" {
			o.fail("partial-image-accepted", "crash after %d of %d writes and %d bytes of the next: the image opens but %s", f.N, len(st.log), torn, diff)
			return
		}
	}
}

// ---- C14 ------------------------------------------------------------------------

func genC14(r *Rng, idx int, thorough bool) *Plan {
	format := formats[idx/8%3]
	p := genCreate(format)(r, idx, thorough)
	if format == "erofs" {
		p.Kn["osfile"] = 0
	}
	if p.Kn["variant"] >= 2 && format != "ar" {
		p.Kn["variant"] = 1
	}
	p.Kn["mapseed2"] = int64(r.U64() >> 2)
	p.Kn["io2"] = int64(r.U64() >> 2)
	p.Kn["busy"] = int64(r.Intn(3))
	p.Kn["before"] = int64(r.Intn(2))
	p.Mean = Pick[int64](r, 20, 100, 500)
	return p
}

// execC14 creates the same archive in executions that differ in everything but
// the tree, and opens the same bytes twice.
func execC14(p *Plan, o *Outcome) {
	c := creationOf(p)
	c.prefill = 0
	m := modelOf(p)
	q := p.Clone()
	q.Seed ^= uint64(p.Kv("mapseed2", 1)) // other map order, clock, schedule
	q.IO = uint64(p.Kv("io2", 1))
	st1, _, err1, ok := c.run(p, o, NewEnv(p, 1), m)
	if !ok {
		return
	}
	// Other archives are made in between.
	m2 := m
	if p.Kv("before", 0) != 0 {
		r := NewRng(p.Seed, 0xbef0)
		to := TreeOpts{Max: 1 + r.Intn(12), SmallIDs: true}
		if r.P(1, 2) {
			to.BigDir, to.LongName, to.Max = true, r.P(1, 2), 60+r.Intn(150)
		}
		if c.format == "ar" {
			to.Flat, to.Names = true, arName
		}
		m2 = NewModel(GenTree(r, to))
		e := NewEnv(q, 1)
		runOne(q, o, 0, func() {
			for i := 0; i < 3; i++ {
				createFmt(c.format, &Store{env: e}, false, NewSource(e, m2, 0).FS(1))
			}
		})
		if o.Class != "" {
			return
		}
		o.probe("another archive made in between")
	}
	// The second time other creations and readers are at work in the process.
	env := NewEnv(q, 3)
	st2 := &Store{env: env}
	var err2 error
	tasks := []func(){func() { err2 = createFmt(c.format, st2, !c.seq, NewSource(env, m, c.sys).FS(c.variant)) }}
	for i := int64(0); i < p.Kv("busy", 0); i++ {
		k := i + int64(p.Seed>>11&3)
		tasks = append(tasks, func() {
			st := &Store{env: env}
			if createFmt(formats[k%3], st, false, NewSource(env, m2, 0).FS(1)) == nil {
				if f, err := openFmt(formats[k%3], &Disk{env: env, data: st.data}); err == nil {
					fs.ReadDir(f, ".")
				}
			}
		})
	}
	runTasks(q, o, 0, tasks...)
	if o.Class != "" {
		return
	}
	env.countFired(o)
	if (err1 == nil) != (err2 == nil) {
		o.fail("not-reproducible", "one creation fails and the other does not: %v / %v", err1, err2)
		return
	}
	if err1 != nil {
		return
	}
	o.Nontrivial = len(p.Nodes) > 0
	o.note(HashStr(string(st1.data)))
	if !bytes.Equal(st1.data, st2.data) {
		o.fail("not-reproducible", "two archives of the same tree differ: %s", diffBytes(st1.data, st2.data))
		return
	}
	view := func(p *Plan) (s string) {
		runOne(p, o, 0, func() {
			f, err := openFmt(c.format, &Disk{env: NewEnv(p, 1), data: st1.data})
			if err != nil {
				s = "open: " + err.Error()
				return
			}
			s = dumpTree(f)
		})
		return
	}
	v1, v2 := view(p), view(q)
	if v1 != v2 {
		o.fail("view-differs", "two openings of the same bytes show different trees:\n%s\n---\n%s", clipS(v1, 800), clipS(v2, 800))
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// dumpTree renders everything a filesystem shows.
func dumpTree(f fs.FS) string {
	var b strings.Builder
	lf := linkFS(f)
	var walk func(p string, depth int)
	walk = func(p string, depth int) {
		l, err := fs.ReadDir(f, p)
		if err != nil {
			fmt.Fprintf(&b, "%q: %v\n", p, err)
			return
		}
		for _, e := range l {
			full := path.Join(p, e.Name())
			fi, err := e.Info()
			if err != nil {
				fmt.Fprintf(&b, "%q: %v\n", full, err)
				continue
			}
			u, g, _ := ownerOf(fi)
			fmt.Fprintf(&b, "%q %v %d %d.%d %d:%d", full, fi.Mode(), fi.Size(), fi.ModTime().Unix(), fi.ModTime().Nanosecond(), u, g)
			if lf != nil && modeKind(fi.Mode()) == "l" {
				t, err := lf.ReadLink(full)
				fmt.Fprintf(&b, " -> %q %v", t, err)
			}
			if modeKind(fi.Mode()) == "f" {
				h, err := f.Open(full)
				if err == nil {
					data, err := io.ReadAll(io.LimitReader(h, 1<<22))
					fmt.Fprintf(&b, " %x %v", HashStr(string(data)), err)
					h.Close()
				} else {
					fmt.Fprintf(&b, " %v", err)
				}
			}
			b.WriteByte('\n')
			if fi.IsDir() && depth < 30 {
				walk(full, depth+1)
			}
		}
	}
	walk(".", 0)
	return b.String()
}

// ---- C15 ------------------------------------------------------------------------

var c15Faults = map[string][]string{
	"store.write":  {"err", "short", "enospc", "late"},
	"src.readdir":  {"eio", "eio-partial"},
	"src.info":     {"eio"},
	"src.open":     {"eio", "shrink", "grow"},
	"src.stat":     {"eio"},
	"src.read":     {"eio", "eio-partial"},
	"src.readlink": {"eio"},
	"src.close":    {"eio"},
}

// maxOpenFiles is the "small constant" of C15: one file at a time, and the
// directories fs.WalkDir may hold.
const maxOpenFiles = 8

func genC15(r *Rng, idx int, thorough bool) *Plan {
	p := genAnyCreate(r, idx, thorough)
	if r.P(1, 5) { // many files, so that a leak shows as a growing number
		to := TreeOpts{Max: 30 + r.Intn(60), BigDir: true, Flat: p.Kind == "ar", SmallIDs: true}
		if p.Kind == "ar" {
			to.Names = func(r *Rng) string { return fmt.Sprintf("f%d", r.Intn(10000)) }
		}
		p.Nodes = GenTree(r, to)
	}
	return p
}

func execC15(p *Plan, o *Outcome) {
	c := creationOf(p)
	m := modelOf(p)
	env := NewEnv(p, 1)
	st := &Store{env: env, rich: p.Seed>>9&1 == 0}
	src := NewSource(env, m, c.sys)
	var err error
	var openAtReturn int
	runOne(p, o, 0, func() {
		err = createFmt(c.format, st, c.seq, src.FS(c.variant))
		openAtReturn = src.Open_
		simrt.Point()
	})
	env.countFired(o)
	if o.Class != "" {
		return
	}
	o.Nontrivial = src.Opened > 0
	if src.MaxOpen > 1 {
		o.probe("more than one file open")
	}
	switch {
	case openAtReturn != 0 || src.Open_ != 0:
		o.fail("handle-leak", "%d of %d opened files are still open when Create returns (error %v)", openAtReturn, src.Opened, err)
	case src.DoubleClosed != 0:
		o.fail("double-close", "%d files were closed again (error %v)", src.DoubleClosed, err)
	case src.UsedAfterClose != 0:
		o.fail("use-after-close", "files were used %d times after their close", src.UsedAfterClose)
	case src.MaxOpen > maxOpenFiles:
		o.fail("too-many-open", "%d source files were open at the same time (tree of %d nodes)", src.MaxOpen, len(p.Nodes))
	}
}

func init() {
	register(&Prop{ID: "C04", Quick: 4500, Thorough: 100000, Real: realAll, Stub: stubStore, Faults: []string{"write error", "short write", "disk full", "source errors", "file shrinks", "file grows", "size limit of a real destination file"},
		Rule: "a random tree is archived without faults, then again with one or two faults placed at calls that execution made (write error, short write, disk full; listing, info, open, stat, read, readlink error; file shrinks or grows); non-trivial: a fault took effect",
		Gen:  genC04, Derive: deriveCreate(9, createFaults), Exec: execC04})
	register(&Prop{ID: "C05", Quick: 2500, Thorough: 50000, Real: realAll, Stub: stubStore, Faults: []string{"crash between writes", "crash inside a write"},
		Rule: "erofs.Create is run against a store that logs every write; the image left by a crash after each prefix of the log, also inside a write, is opened and compared; non-trivial: at least one crash point was evaluated",
		Gen:  genC05, Derive: deriveC05, Exec: execC05})
	register(&Prop{ID: "C14", Quick: 10000, Thorough: 200000, Real: realAll, Stub: stubStore,
		Rule: "the same tree is archived twice in executions that differ in map order, clock, chunking, latency and concurrent activity, and the bytes are opened twice; non-trivial: the tree is not empty and both succeeded",
		Gen:  genC14, Exec: execC14})
	register(&Prop{ID: "C15", Quick: 5200, Thorough: 100000, Real: realAll, Stub: stubStore, Faults: []string{"write error", "short write", "disk full", "source errors", "close error"},
		Rule: "Create under zero, one or two faults at calls a fault-free execution made; every handle of the source is accounted for; non-trivial: a file was opened",
		Gen:  genC15, Derive: deriveCreate(9, c15Faults), Exec: execC15})
}
