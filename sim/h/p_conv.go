package h

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"

	"github.com/dpeckett/archivefs/memfs"
	"verif.local/sim/simrt"
)

// minFS hides everything but Open.
type minFS struct{ f fs.FS }

func (x minFS) Open(n string) (fs.File, error) { return x.f.Open(n) }

// ---- C16: Create from a live source ---------------------------------------------------

func genC16(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{Kind: Pick(r, "erofs", "erofs", "erofs", "tar", "tar", "ar"), Seed: r.U64(), Kn: map[string]int64{}, Mean: Pick[int64](r, 2, 5, 10, 20, 50, 100, 300, 1000)}
	if r.P(1, 3) {
		p.IO = r.U64() | 1
	}
	flat := p.Kind == "ar"
	names := []string{"a", "b", "c", "d0", "e.txt", "f-1"}
	dirs := []string{"."}
	add := func(q, k string) {
		nd := Node{P: q, K: k, M: uint32(Pick(r, 0o644, 0o755, 0o600, 0o777)), C: r.U64()}
		if k == "f" {
			nd.S = fileSize(r, 9000)
		}
		p.Nodes = append(p.Nodes, nd)
	}
	if !flat {
		for _, d := range []string{"D", "E", "D/F", "D/F/G"} {
			if r.P(1, 2) && (!strings.HasPrefix(d, "D/") || kindOf(p.Nodes, path.Dir(d)) == "d") {
				add(d, "d")
				dirs = append(dirs, d)
			}
		}
	}
	for i := 0; i < r.Intn(8); i++ {
		q := path.Join(dirs[r.Intn(len(dirs))], names[r.Intn(len(names))])
		if kindOf(p.Nodes, q) == "" {
			add(q, "f")
		}
	}
	tasks := 1 + r.Intn(3)
	p.Kn["writers"] = int64(tasks)
	p.Kn["variant"] = int64(r.Intn(3))
	p.Kn["creates"] = int64(1 + r.Intn(2))
	p.Kn["makers"] = Pick[int64](r, 1, 1, 2, 3)
	for t := 1; t <= tasks; t++ {
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			op := Op{T: t, C: int64(r.U64() >> 2), A: int64(Pick(r, 0o644, 0o600, 0o755))}
			op.B = Pick[int64](r, 0, 16, 17, 700, 1024, 1025, 4031, 4096, 4097, 9000, r.Int63n(5000))
			dir := Pick(r, dirs...)
			switch k := r.Intn(10); {
			case k < 5 && len(p.Nodes) > 0: // replace
				x := p.Nodes[r.Intn(len(p.Nodes))]
				op.K, op.P = "write", x.P
				if x.K == "d" {
					op.P = path.Join(x.P, Pick(r, names...))
				}
				if x.K == "f" && r.P(1, 2) { // the layout of the image may not notice
					op.B = max(0, x.S+Pick[int64](r, -1, 0, 1, 8))
				}
			case k < 8 || flat:
				op.K, op.P = "write", path.Join(dir, Pick(r, append([]string{"new1", "new2", "A"}, names...)...))
			case k < 9:
				op.K, op.P = "mkdirall", path.Join(dir, Pick(r, "N", "N/M", "O"))
			default:
				op.K, op.P = "write", path.Join(dir, Pick(r, "N", "O"), Pick(r, names...))
			}
			if len(op.P) > 15 && flat {
				continue
			}
			if r.P(1, 4) {
				op.D = int64(r.Intn(2000)) // wait
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

type liveWrite struct {
	wrec
	kind byte
	ok   bool
}

type liveCreate struct {
	from, to int64
	err      error
	st       *Store
}

func execC16(p *Plan, o *Outcome) {
	f, err := fillMem(p.Nodes)
	if err != nil {
		o.fail("wrong-result", "filling an empty memfs: %v", err)
		return
	}
	writers := int(p.Kv("writers", 1))
	makers, each := int(p.Kv("makers", 1)), int(p.Kv("creates", 1))
	env := NewEnv(p, writers+makers)
	creates := make([]liveCreate, makers*each)
	wlogs := make([][]liveWrite, writers+1)
	var src fs.FS = f
	if p.Kv("variant", 0) == 1 {
		src = minFS{f}
	}
	var fns []func()
	for k := 0; k < makers; k++ {
		mine := creates[k*each : (k+1)*each]
		fns = append(fns, func() {
			for i := range mine {
				c := &mine[i]
				c.st = &Store{env: env}
				c.from = simrt.Seq()
				c.err = createFmt(p.Kind, c.st, true, src)
				c.to = simrt.Seq()
			}
		})
	}
	for t := 1; t <= writers; t++ {
		var ops []Op
		for _, op := range p.Ops {
			if op.T == t {
				ops = append(ops, op)
			}
		}
		fns = append(fns, func() {
			for i := range ops {
				op := &ops[i]
				for j := int64(0); j < op.D; j++ {
					simrt.Point()
				}
				w := liveWrite{wrec: wrec{p: op.P, c: uint64(op.C), size: op.B, perm: fs.FileMode(op.A), call: simrt.Seq()}, kind: 'f'}
				var err error
				if op.K == "mkdirall" {
					w.kind = 'd'
					err = f.MkdirAll(op.P, w.perm)
				} else {
					data := Content(w.c, w.size)
					err = f.WriteFile(op.P, data, w.perm)
					for j := range data {
						data[j] = 0xEE
					}
				}
				w.ret = simrt.Seq()
				w.ok = err == nil
				wlogs[t] = append(wlogs[t], w)
			}
		})
	}
	runTasks(p, o, 0, fns...)
	env.countFired(o)
	if o.Class != "" {
		return
	}
	var ws []liveWrite
	for _, n := range p.Nodes {
		ws = append(ws, liveWrite{wrec{p: n.P, c: n.C, size: n.S, perm: fs.FileMode(n.M), call: -2, ret: -1}, n.K[0], true})
	}
	for _, l := range wlogs {
		for _, w := range l {
			o.note(uint64(w.call), uint64(w.ret), HashStr(w.p))
			if !w.ok {
				continue
			}
			if w.kind == 'd' {
				for q := w.p; q != "."; q = path.Dir(q) {
					x := w
					x.p = q
					ws = append(ws, x)
				}
				continue
			}
			ws = append(ws, w)
		}
	}
	for i := range creates {
		c := &creates[i]
		overlap := false
		for _, l := range wlogs {
			for _, w := range l {
				overlap = overlap || w.call < c.to && w.ret > c.from
			}
		}
		o.note(uint64(c.from), uint64(c.to), uint64(len(c.st.data)))
		if overlap {
			o.Nontrivial = true
			o.probe(fmt.Sprintf("writers during Create of %s", p.Kind))
		}
		if c.err != nil {
			o.note(1)
			o.probe("Create reports an error")
			if !overlap {
				o.fail("spurious-error", "Create of %s fails although nobody wrote during the call: %v", p.Kind, c.err)
			}
			continue
		}
		o.probe("Create succeeds")
		var s string
		aside(func() { s = checkLive(p.Kind, c, ws, p.Seed) })
		if s != "" {
			o.fail("corrupt", "%s archive made from a live source: %s", p.Kind, s)
			return
		}
		if _, bad := decodeFmt(p.Kind, c.st.disk(nil), true); bad != "" {
			o.fail("ill-formed", "%s archive made from a live source: %s", p.Kind, bad)
			return
		}
	}
}

// checkLive compares an archive with what the source could show during Create.
func checkLive(format string, c *liveCreate, ws []liveWrite, seed uint64) string {
	f, err := openFmt(format, &Disk{env: &Env{off: true}, data: c.st.data})
	if err != nil {
		return fmt.Sprintf("it can not be opened: %v", err)
	}
	byPath := map[string][]liveWrite{}
	for _, w := range ws {
		byPath[w.p] = append(byPath[w.p], w)
	}
	seen := map[string]bool{}
	var walk func(q string) string
	walk = func(q string) string {
		l, err := fs.ReadDir(f, q)
		if err != nil {
			return fmt.Sprintf("ReadDir(%q): %v", q, err)
		}
		for _, e := range l {
			full := path.Join(q, e.Name())
			if seen[full] {
				return fmt.Sprintf("%q is listed twice", full)
			}
			seen[full] = true
			started := false
			perm, kind := false, false
			fi, err := e.Info()
			if err != nil {
				return fmt.Sprintf("Info of %q: %v", full, err)
			}
			for _, w := range byPath[full] {
				if w.call >= c.to {
					continue
				}
				started = true
				kind = kind || (w.kind == 'd') == e.IsDir()
				perm = perm || w.perm == fi.Mode()&permBits
			}
			if !started {
				return fmt.Sprintf("%q was never in the source", full)
			}
			if !kind || fi.IsDir() != e.IsDir() || !e.IsDir() && !fi.Mode().IsRegular() {
				return fmt.Sprintf("%q has mode %v", full, fi.Mode())
			}
			if !perm {
				return fmt.Sprintf("%q never had mode %v", full, fi.Mode())
			}
			if e.IsDir() {
				if s := walk(full); s != "" {
					return s
				}
				continue
			}
			data, err := fs.ReadFile(f, full)
			if err != nil {
				return fmt.Sprintf("reading %q: %v", full, err)
			}
			if int64(len(data)) != fi.Size() {
				return fmt.Sprintf("%q has size %d and %d bytes", full, fi.Size(), len(data))
			}
			ok, versions := false, 0
			for _, v := range byPath[full] {
				if v.kind != 'f' || v.call > c.to {
					continue
				}
				dead := false
				for _, w := range byPath[full] {
					dead = dead || w.call > v.ret && w.ret < c.from
				}
				if dead {
					continue
				}
				versions++
				if v.size == int64(len(data)) && diffBytes(data, Content(v.c, v.size)) == "" {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("%q shows %d bytes that are none of the %d contents it had during the call [%d, %d]", full, len(data), versions, c.from, c.to)
			}
		}
		return ""
	}
	if s := walk("."); s != "" {
		return s
	}
	for _, q := range sortedKeys(byPath) {
		for _, w := range byPath[q] {
			if w.ret < c.from && !seen[q] {
				return fmt.Sprintf("%q, there before the call, is missing", q)
			}
		}
	}
	return ""
}

// ---- C20: listings and lookups ----------------------------------------------------------

func genC20(r *Rng, idx int, thorough bool) *Plan {
	if r.P(1, 2) {
		return genPages(r)
	}
	format := Pick(r, "tar", "tar", "erofs", "erofs", "ar", "mem", "sub", "xtar", "xerofs", "xar")
	var p *Plan
	switch format {
	case "xtar":
		p = genC17(r, 0, thorough)
	case "xerofs":
		p = plainC18(r, thorough)
		p.Faults = nil
	case "xar":
		p = genC19(r, 0, thorough)
		p.Faults = nil
	default:
		f := format
		if f == "mem" || f == "sub" {
			f = "erofs"
		}
		p = readPlan(r, f, 14)
	}
	p.Kind = format
	if p.Kn == nil {
		p.Kn = map[string]int64{}
	}
	if r.P(1, 4) {
		p.Kn["tasks"], p.Mean = 2, meanOf(r)*20
	}
	return p
}

// typeOf is the type of an entry.  EROFS entries also tell permissions there, which
// the tests of the repository insist on.
func typeOf(format string, e fs.DirEntry) fs.FileMode {
	if format == "erofs" {
		return e.Type().Type()
	}
	return e.Type()
}

// coherent compares what a filesystem lists with what can be looked up.
func coherent(format string, f fs.FS, extra []string) string {
	lf := linkFS(f)
	lstat := func(q string) (fs.FileInfo, error) {
		if lf != nil {
			return lf.StatLink(q)
		}
		return fs.Stat(f, q)
	}
	same := func(what string, a, b fs.FileInfo) string {
		switch {
		case a.Mode() != b.Mode():
			return fmt.Sprintf("mode is %v listed and %v %s", a.Mode(), b.Mode(), what)
		case a.Size() != b.Size():
			return fmt.Sprintf("size is %d listed and %d %s", a.Size(), b.Size(), what)
		case !a.ModTime().Equal(b.ModTime()):
			return fmt.Sprintf("time is %v listed and %v %s", a.ModTime(), b.ModTime(), what)
		case a.IsDir() != b.IsDir():
			return fmt.Sprintf("IsDir is %v listed and %v %s", a.IsDir(), b.IsDir(), what)
		}
		return ""
	}
	listed := map[string]bool{}
	listing := map[string]string{}
	isDir := map[string]bool{".": true}
	n := 0
	var walk func(q string) string
	walk = func(q string) string {
		l, err := fs.ReadDir(f, q)
		if err != nil {
			return fmt.Sprintf("ReadDir(%q): %v", q, err)
		}
		names := entryNames(l)
		for i := range names {
			if i > 0 && names[i-1] >= names[i] {
				return fmt.Sprintf("ReadDir(%q): %q stands before %q", q, names[i-1], names[i])
			}
		}
		if again, err := fs.ReadDir(f, q); err != nil || strings.Join(entryNames(again), "/") != strings.Join(names, "/") {
			return fmt.Sprintf("ReadDir(%q) again: %q, first %q (%v)", q, clip(entryNames(again)), clip(names), err)
		}
		listing[q] = strings.Join(names, "/")
		for _, e := range l {
			n++
			full := path.Join(q, e.Name())
			listed[full] = true
			a, err := e.Info()
			if err != nil {
				return fmt.Sprintf("Info of the entry %q: %v", full, err)
			}
			if a.Name() != e.Name() || a.IsDir() != e.IsDir() || a.Mode().Type() != typeOf(format, e) || a.IsDir() != a.Mode().IsDir() {
				return fmt.Sprintf("entry %q (%v) has information %q %v", full, e.Type(), a.Name(), a.Mode())
			}
			b, err := lstat(full)
			if err != nil {
				return fmt.Sprintf("%q is listed but the lookup fails: %v", full, err)
			}
			if s := same("looked up", a, b); s != "" {
				return fmt.Sprintf("%q: %s", full, s)
			}
			if b.Name() != e.Name() {
				return fmt.Sprintf("%q: name is %q looked up", full, b.Name())
			}
			if a.Mode().Type() == fs.ModeSymlink {
				if lf == nil {
					return fmt.Sprintf("%q is a link in a filesystem without links", full)
				}
				if _, err := lf.ReadLink(full); err != nil {
					return fmt.Sprintf("ReadLink(%q): %v", full, err)
				}
				if _, err := fs.Stat(f, full); err == nil {
					if h, err := f.Open(full); err != nil {
						return fmt.Sprintf("the target of %q can be looked up but not opened: %v", full, err)
					} else {
						h.Close()
					}
				}
				continue
			}
			h, err := f.Open(full)
			if err != nil {
				return fmt.Sprintf("%q is listed but can not be opened: %v", full, err)
			}
			b, err = h.Stat()
			h.Close()
			if err != nil {
				return fmt.Sprintf("Stat of the open %q: %v", full, err)
			}
			if s := same("when open", a, b); s != "" {
				return fmt.Sprintf("%q: %s", full, s)
			}
			if a.IsDir() {
				isDir[full] = true
				if n < 3000 {
					if s := walk(full); s != "" {
						return s
					}
				}
			} else if _, err := fs.ReadDir(f, full); err == nil {
				return fmt.Sprintf("%q (%v) can be listed", full, a.Mode())
			}
		}
		return ""
	}
	if s := walk("."); s != "" {
		return s
	}
	// Nothing of this may have changed what is listed.
	for _, q := range sortedKeys(listing) {
		l, err := fs.ReadDir(f, q)
		if err != nil {
			return fmt.Sprintf("ReadDir(%q) afterwards: %v", q, err)
		}
		if names := strings.Join(entryNames(l), "/"); names != listing[q] {
			return fmt.Sprintf("ReadDir(%q) afterwards: %q, first %q", q, names, listing[q])
		}
		for _, e := range l {
			if fi, err := e.Info(); err != nil || fi.Name() != e.Name() {
				return fmt.Sprintf("Info of %q in %q afterwards: %v %v", e.Name(), q, fi, err)
			}
		}
	}
	for _, q := range extra {
		if !fs.ValidPath(q) || q == "." || listed[q] || !isDir[path.Dir(q)] {
			continue
		}
		if _, err := lstat(q); err == nil {
			return fmt.Sprintf("%q can be looked up but is not listed", q)
		}
		if h, err := f.Open(q); err == nil {
			h.Close()
			return fmt.Sprintf("%q can be opened but is not listed", q)
		}
	}
	return ""
}

func execC20(p *Plan, o *Outcome) {
	if p.Kind == "pages" {
		execPages(p, o)
		return
	}
	env := NewEnv(p, 2)
	var f fs.FS
	var disk *Disk
	format := p.Kind
	switch p.Kind {
	case "mem", "sub":
		var nodes []Node
		for _, n := range p.Nodes {
			if n.K == "d" || n.K == "f" {
				nodes = append(nodes, n)
			}
		}
		mf, err := fillMem(Normalize(nodes))
		if err != nil {
			return
		}
		f = mf
		if p.Kind == "sub" {
			for _, n := range p.Nodes {
				if n.K == "d" {
					if aside(func() { f, err = mf.Sub(n.P) }); err != nil {
						o.fail("incoherent", "Sub(%q): %v", n.P, err)
						return
					}
					break
				}
			}
		}
	case "xtar":
		bl, _ := buildTar(p.Nodes, p.Kv("end", 0))
		disk = bl.disk(env)
		format = "tar"
	case "xerofs":
		bl, _, _ := buildErofs(p)
		disk = bl.disk(env)
		format = "erofs"
	case "xar":
		bl, _, _ := buildAr(p)
		disk = bl.disk(env)
		format = "ar"
	default:
		q := p.Clone()
		q.Kind = format
		if data := buildArchive(q, o, NewModel(p.Nodes)); data != nil {
			disk = &Disk{env: env, data: data}
		}
	}
	if f == nil {
		if disk == nil {
			return
		}
		runOne(p, o, 0, func() { f, _ = openFmt(format, disk) })
		if o.Class != "" || f == nil {
			return
		}
		o.note(disk.hash())
	}
	// Candidates: names nearly or formerly there.
	var extra []string
	for _, n := range p.Nodes {
		q := cleanTar(n.P)
		if q == "" {
			continue
		}
		d, b := path.Dir(q), path.Base(q)
		extra = append(extra, q, path.Join(d, b+" "), path.Join(d, b+"/"), path.Join(d, b+"\x00"), path.Join(d, strings.ToUpper(b)), path.Join(d, b[:len(b)-1]), path.Join(d, b+"a"), path.Join(d, "."+b), path.Join(d, "!"), path.Join(d, "~"), path.Join(q, b))
	}
	tasks := int(p.Kv("tasks", 1))
	msgs := make([]string, tasks)
	var fns []func()
	for t := range msgs {
		fns = append(fns, func() { msgs[t] = coherent(format, f, extra) })
	}
	runTasks(p, o, 0, fns...)
	for _, s := range msgs {
		if s != "" {
			o.fail("incoherent", "%s: %s", p.Kind, s)
		}
	}
	o.Nontrivial = len(p.Nodes) > 0
	o.probe("coherence of " + p.Kind)
}

func genPages(r *Rng) *Plan {
	p := &Plan{Kind: "pages", Seed: r.U64(), Kn: map[string]int64{}, Mean: meanOf(r)}
	n := Pick(r, 0, 1, 2, 3, 4, 5, 8, 9, 20)
	for i := 0; i < n; i++ {
		p.Nodes = append(p.Nodes, Node{P: "D/" + Pick(r, "a", "f", "x", "Z", "_", "é") + fmt.Sprint(i), K: Pick(r, "f", "f", "d"), M: 0o644, S: r.Int63n(30), C: r.U64()})
	}
	readers, writers := 1+r.Intn(2), r.Intn(3)
	p.Kn["readers"], p.Kn["writers"] = int64(readers), int64(writers)
	for t := 0; t < readers; t++ {
		for i := 0; i < 1+r.Intn(3); i++ { // handles
			h := int64(i)
			style := r.Intn(3)
			c := Pick[int64](r, 1, 2, 3, 7, 100)
			for j := 0; j < 1+r.Intn(n+3); j++ {
				k := c
				if style == 1 {
					k = Pick[int64](r, 1, 1, 2, 3, 5)
				} else if style == 2 {
					k = Pick[int64](r, 1, 2, 0, -1, 4)
				}
				p.Ops = append(p.Ops, Op{T: t, K: "page", A: k, B: h, D: int64(r.Intn(4))})
			}
		}
	}
	for t := 0; t < writers; t++ {
		for i := 0; i < 1+r.Intn(6); i++ {
			op := Op{T: readers + t, K: "write", C: int64(r.U64() >> 2), B: r.Int63n(40), P: "D/" + Pick(r, "a", "f", "x", "Z", "n", "0") + fmt.Sprint(r.Intn(30))}
			if r.P(1, 4) {
				op.K = "mkdirall"
			}
			if len(p.Nodes) > 0 && r.P(1, 3) {
				op.P = p.Nodes[r.Intn(len(p.Nodes))].P
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

type pageLog struct {
	open      int64 // after Open returned
	openCall  int64
	first     int64 // after the first page
	end       int64 // call that found the end returned
	names     []string
	kinds     []byte
	done      bool
	h         fs.ReadDirFile
	lastNonEx bool
}

func execPages(p *Plan, o *Outcome) {
	f, err := fillMem(append([]Node{{P: "D", K: "d", M: 0o755}}, p.Nodes...))
	if err != nil {
		return
	}
	readers, writers := int(p.Kv("readers", 1)), int(p.Kv("writers", 0))
	logs := make([]taskLog, readers+writers)
	pages := make([]map[int64]*pageLog, readers)
	wlogs := make([][]liveWrite, readers+writers)
	var fns []func()
	for t := 0; t < readers+writers; t++ {
		var ops []Op
		for _, op := range p.Ops {
			if op.T == t {
				ops = append(ops, op)
			}
		}
		if t >= readers {
			fns = append(fns, func() {
				for i := range ops {
					op := &ops[i]
					w := liveWrite{wrec: wrec{p: op.P, size: op.B, call: simrt.Seq()}, kind: 'f'}
					var err error
					if op.K == "mkdirall" {
						w.kind = 'd'
						err = f.MkdirAll(op.P, 0o700)
					} else {
						err = f.WriteFile(op.P, Content(uint64(op.C), op.B), 0o600)
					}
					w.ok, w.ret = err == nil, simrt.Seq()
					wlogs[t] = append(wlogs[t], w)
				}
			})
			continue
		}
		pages[t] = map[int64]*pageLog{}
		fns = append(fns, func() {
			l := &logs[t]
			page := func(g *pageLog, k int) {
				es, err := g.h.ReadDir(k)
				now := simrt.Seq()
				switch {
				case len(es) > k && k > 0:
					l.fail("wrong-page", "ReadDir(%d) returned %d entries", k, len(es))
				case err != nil && err != io.EOF:
					l.fail("wrong-page", "ReadDir(%d): %v", k, err)
				case err == io.EOF && k <= 0:
					l.fail("wrong-page", "ReadDir(%d) reports io.EOF", k)
				case err == io.EOF && len(es) > 0:
					l.fail("wrong-page", "ReadDir(%d) reports io.EOF with %d entries", k, len(es))
				case err == nil && len(es) == 0 && k > 0:
					l.fail("wrong-page", "ReadDir(%d) returns no entries and no error", k)
				}
				if g.done && len(es) > 0 {
					l.fail("wrong-page", "ReadDir(%d) returns %q after the end", k, entryNames(es))
				}
				for _, e := range es {
					kind := byte('f')
					if e.IsDir() {
						kind = 'd'
					}
					fi, err := e.Info()
					if err != nil || fi.Name() != e.Name() || fi.IsDir() != e.IsDir() || fi.Mode().Type() != e.Type() {
						l.fail("wrong-page", "entry %q contradicts itself (%v)", e.Name(), err)
					}
					g.names = append(g.names, e.Name())
					g.kinds = append(g.kinds, kind)
				}
				if (err != nil || k <= 0) && !g.done {
					g.done, g.end = true, now
				}
				if g.first == 0 {
					g.first = now
				}
			}
			var order []*pageLog
			for i := range ops {
				op := &ops[i]
				for j := int64(0); j < op.D*9; j++ {
					simrt.Point()
				}
				g := pages[t][op.B]
				if g == nil {
					g = &pageLog{openCall: simrt.Seq()}
					h, err := f.Open("D")
					g.open = simrt.Seq()
					if err != nil {
						l.fail("wrong-page", "Open: %v", err)
						return
					}
					d, ok := h.(fs.ReadDirFile)
					if !ok {
						l.fail("wrong-page", "an open directory can not be listed")
						return
					}
					g.h = d
					pages[t][op.B] = g
					order = append(order, g)
				}
				page(g, int(op.A))
			}
			for _, g := range order {
				for i := 0; !g.done; i++ {
					if i > 400 {
						l.fail("wrong-page", "paging does not end")
						return
					}
					page(g, 1+i%3)
				}
				page(g, 1) // the end stays the end
				page(g, -1)
				g.h.Close()
			}
		})
	}
	runTasks(p, o, 0, fns...)
	o.take(logs)
	if o.Class != "" {
		return
	}
	var ws []liveWrite
	for _, n := range p.Nodes {
		ws = append(ws, liveWrite{wrec{p: n.P, call: -2, ret: -1}, n.K[0], true})
	}
	for _, l := range wlogs {
		ws = append(ws, l...)
	}
	for t := range pages {
		for _, h := range []int64{0, 1, 2} {
			g := pages[t][h]
			if g == nil {
				continue
			}
			o.note(HashStr(strings.Join(g.names, "/")), uint64(g.open), uint64(g.end))
			count := map[string]int{}
			for i, nm := range g.names {
				if count[nm]++; count[nm] > 1 {
					o.fail("repeated", "paging a directory yields %q twice", nm)
				}
				there := false
				for _, w := range ws {
					there = there || w.ok && w.p == "D/"+nm && w.call < g.end && w.kind == g.kinds[i]
				}
				if !there {
					o.fail("wrong-page", "paging a directory yields %q (%c), which was not there", nm, g.kinds[i])
				}
			}
			for _, w := range ws {
				if w.ok && path.Dir(w.p) == "D" && w.ret < g.openCall && count[path.Base(w.p)] == 0 {
					o.fail("missed", "paging a directory misses %q, there since before it was opened", path.Base(w.p))
				}
			}
			if len(g.names) > 1 {
				o.Nontrivial = true
			}
		}
	}
	o.probe("paging")
}

// ---- C21: conversions --------------------------------------------------------------------

func genC21(r *Rng, idx int, thorough bool) *Plan {
	start := Pick(r, "mem", "xtar", "xtar", "xerofs", "xerofs", "xar")
	var p *Plan
	switch start {
	case "xtar":
		p = genC17(r, 0, thorough)
	case "xerofs":
		p = plainC18(r, thorough)
	case "xar":
		p = genC19(r, 0, thorough)
	default:
		p = foreignPlan(r, "mem")
		to := TreeOpts{Max: 12}
		if r.P(1, 4) {
			to.Flat, to.Names = true, arName
		}
		p.Nodes = GenTree(r, to)
		if r.P(1, 25) {
			p.Nodes = nil
		}
	}
	p.Kind, p.Faults = start, nil
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		fm := Pick(r, "tar", "tar", "erofs", "erofs", "ar")
		if start == "xar" && r.P(1, 3) {
			fm = "ar"
		}
		op := Op{K: fm, A: int64(r.Intn(2))}
		if r.P(1, 6) {
			op.B = 1 // only fs.FS, where that is enough
		}
		p.Ops = append(p.Ops, op)
	}
	delete(p.Kn, "tasks")
	p.Mean = 0
	if r.P(1, 3) {
		p.Kn["readers"], p.Mean = int64(1+r.Intn(2)), meanOf(r)*20
	}
	return p
}

// viewOf reads the tree a filesystem shows.
func viewOf(f fs.FS, budget int) (nodes []Node, err error) {
	aside(func() { nodes, err = view1(f, budget) })
	return
}

func view1(f fs.FS, budget int) (nodes []Node, err error) {
	lf := linkFS(f)
	var walk func(q string) error
	walk = func(q string) error {
		l, err := fs.ReadDir(f, q)
		if err != nil {
			return err
		}
		for _, e := range l {
			full := path.Join(q, e.Name())
			fi, err := e.Info()
			if err != nil {
				return err
			}
			t := fi.ModTime()
			n := Node{P: full, K: modeKind(fi.Mode()), M: uint32(fi.Mode() & permBits), T: t.Unix(), TN: int64(t.Nanosecond()), TZ: t.IsZero(), F: "raw"}
			switch n.K {
			case "l":
				if lf == nil {
					return errors.New("no links")
				}
				if n.L, err = lf.ReadLink(full); err != nil {
					return err
				}
			case "f":
				b, err := fs.ReadFile(f, full)
				if err != nil {
					return err
				}
				n.S, n.raw = int64(len(b)), string(b)
			}
			nodes = append(nodes, n)
			if n.K == "d" {
				if err := walk(full); err != nil {
					return err
				}
			}
		}
		return nil
	}
	err = walk(".")
	return nodes, err
}

func execC21(p *Plan, o *Outcome) {
	readers := int(p.Kv("readers", 0))
	env := NewEnv(p, readers+1)
	var cur fs.FS
	var disk func(env *Env) *Disk // the archive on storage
	var truth *Model
	format := strings.TrimPrefix(p.Kind, "x")
	switch p.Kind {
	case "mem":
		f, err := fillMem(p.Nodes)
		if err != nil {
			return
		}
		cur = f
	case "xtar":
		if bl, _ := buildTar(p.Nodes, p.Kv("end", 0)); bl != nil {
			disk = bl.disk
			if nodes, refuse := replayTar(p.Nodes); refuse == "" {
				truth = NewModel(nodes)
			}
		}
	case "xerofs":
		if bl, m, refuse := buildErofs(p); bl != nil {
			disk = bl.disk
			if refuse == "" {
				truth = m
			}
		}
	case "xar":
		bl, nodes, refuse := buildAr(p)
		disk = bl.disk
		if refuse == "" {
			truth = NewModel(nodes)
		}
	}
	plain := func() (fs.FS, error) { // the same archive on storage that just works
		return openFmt(format, disk(&Env{off: true}))
	}
	if cur == nil {
		if disk == nil {
			return
		}
		var err error
		if cur, err = plain(); err != nil {
			return // refused: C17 to C19 say when
		}
		if truth != nil {
			if s := checkTree(cur, truth, Exp{Format: "sec"}, p.Seed); s != "" {
				o.fail("not-preserved", "%s, the first filesystem: %s", p.Kind, s)
				return
			}
		}
	}
	start, err := viewOf(cur, 0)
	if err != nil {
		o.fail("unreadable", "the first filesystem (%s): %v", p.Kind, err)
		return
	}
	m := NewModel(start)
	special, links := false, false
	for _, n := range start {
		special = special || strings.Contains("cbpsi", n.K)
		links = links || n.K == "l"
	}
	sec := func(n Node) bool { return n.TZ || n.T >= 0 && n.T < 1<<33 }
	easy := true // any format with directories must take this tree
	for _, n := range start {
		easy = easy && (n.K == "f" || n.K == "d" || n.K == "l" && len(n.L) < 4096 && n.L != "") && sec(n) && len(path.Base(n.P)) <= 255
	}
	chain := p.Kind
	for step, op := range p.Ops {
		chain += "->" + op.K
		if disk != nil { // the filesystem on simulated storage
			var f fs.FS
			var err error
			runOne(p, o, 0, func() { f, err = openFmt(format, disk(env)) })
			if o.Class != "" {
				return
			}
			if err != nil {
				if !env.anyFired() {
					o.fail("not-openable", "%s: the result of step %d does not open: %v", chain, step, err)
				}
				return
			}
			cur = f
		}
		src := cur
		if op.B != 0 {
			if _, ok := cur.(*memfs.FS); ok { // directories of the others can not be opened for listing
				src = minFS{cur}
			}
		}
		st := &Store{env: env}
		var cerr error
		logs := make([]string, readers+1)
		fns := []func(){func() { cerr = createFmt(op.K, st, op.A != 0, src) }}
		for t := 1; t <= readers; t++ {
			r := NewRng(p.Seed, uint64(t), uint64(step))
			fns = append(fns, func() {
				x := Exp{Format: "sec"}
				for i := 0; i < 6; i++ {
					q := "."
					if len(start) > 0 {
						q = start[r.Intn(len(start))].P
					}
					_, bad, _ := doOp(cur, m, x, &Op{K: Pick(r, "read", "stat", "lstat", "readdir", "readlink"), P: q, A: int64(r.Intn(100))}, nil, func() bool { return true })
					if bad != "" && logs[t] == "" {
						logs[t] = bad
					}
				}
			})
		}
		runTasks(p, o, 0, fns...)
		if o.Class != "" {
			env.countFired(o)
			return
		}
		for _, s := range logs {
			if s != "" && !(format == "ar" && strings.Contains(s, `"."`)) {
				o.fail("wrong-view", "%s: a reader of the source of step %d: %s", chain, step, s)
				return
			}
		}
		o.note(HashStr(string(st.data)))
		if cerr != nil {
			o.probe("conversion refused: to " + op.K)
			if easy && op.K != "ar" && !env.anyFired() {
				o.fail("create-failed", "%s: nothing in this tree is beyond %s, but: %v", chain, op.K, cerr)
			}
			break
		}
		disk, format = st.disk, op.K
		f, err := plain()
		if err != nil {
			f = nil
		}
		if f == nil && special && op.K == "tar" { // tarfs writes special files but does not open them
			o.probe("archive with special files refused")
			break
		}
		if f == nil {
			o.fail("not-openable", "%s: step %d reports success but its archive does not open: %v", chain, step, err)
			break
		}
		if s := checkTree(f, m, Exp{Format: "sec"}, p.Seed); s != "" {
			o.fail("not-preserved", "%s: %s", chain, s)
			break
		}
		o.probe("converted to " + op.K)
		o.Nontrivial = o.Nontrivial || len(start) > 0
	}
	if special {
		o.probe("special files at the start")
	}
	env.countFired(o)
}

func init() {
	conv := []string{"tarfs, arfs, erofs (readers and writers)", "memfs"}
	stub := []string{"archive storage", "scheduler, mutexes, map iteration order"}
	register(&Prop{ID: "C16", Race: true, Quick: 14000, Thorough: 300000, Real: conv, Stub: stub,
		Rule: "one goroutine runs Create once or twice on a memfs while one to three others replace and add up to eight files and directories each, mean preemption interval 2 to 1000 statements; the archive is compared with the write history; non-trivial: at least one write overlapped a Create",
		Gen:  genC16, Exec: execC16})
	register(&Prop{ID: "C20", Race: true, Quick: 8000, Thorough: 400000, Real: conv, Stub: append([]string{"archive writers of other tools (harness)"}, stub...),
		Rule: "half the cases: a random tree in a random format (written by the library, by the harness as other tools would, or in memfs) on storage that chunks and delays, every listing compared with every lookup by one or two clients; other half: one or two goroutines page through open memfs directories with random page sizes while up to two others add and replace entries; non-trivial: a tree with nodes, or more than one entry paged",
		Gen:  genC20, Exec: execC20})
	register(&Prop{ID: "C21", Log: true, Quick: 8000, Thorough: 250000, Real: conv, Stub: append([]string{"archive writers of other tools (harness)"}, stub...), Faults: []string{"read errors"},
		Rule: "a random first filesystem (memfs, or a tar log, EROFS image or ar archive as other tools write them), one to four conversions on storage that chunks and delays its reads, in a third of the cases with up to two concurrent readers of each source, derived executions with read errors; non-trivial: at least one conversion of a tree with nodes succeeded",
		Gen:  genC21, Derive: deriveOpenFaults(2), Exec: execC21})
}
