package h

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Archives made by the harness itself, the way other tools make them.

// execForeign opens storage and compares what it presents with the model, from
// one or two tasks.
func execForeign(p *Plan, o *Outcome, format string, data *Blob, m *Model, x Exp, refuse string) {
	env := NewEnv(p, 2)
	disk := data.disk(env)
	logs := make([]taskLog, 2)
	var f fs.FS
	var err error
	fired := false
	runOne(p, o, 0, func() {
		from := simrt.Seq()
		f, err = openFmt(format, disk)
		fired = env.firedIn(self(), from, 1<<62)
	})
	env.countFired(o)
	o.Seams["size"] = data.size
	if data.size > 1<<31 {
		o.probe("archive of more than 2 GiB")
	}
	if o.Class != "" {
		return
	}
	switch {
	case refuse != "" && err == nil:
		o.fail("not-refused", "Open reports no error although %s", refuse)
		return
	case refuse != "":
		o.probe("refused: " + strings.SplitN(refuse, ":", 2)[0])
		return
	case err != nil && !fired:
		o.fail("not-openable", "Open of a well-formed archive fails: %v", err)
		return
	case err != nil:
		o.probe("open failed with storage")
		return
	}
	for i := range m.N {
		x.Odd = x.Odd || m.N[i].odd()
	}
	if x.Odd {
		o.probe("nodes stored in unsupported ways")
	}
	// Opened: from here on storage works (use under errors is C06).
	env.faults = [numSeams][]Fault{}
	var fns []func()
	for t := 0; t < int(p.Kv("tasks", 1)); t++ {
		fns = append(fns, func() {
			if s := checkTree(f, m, x, p.Seed+uint64(t)); s != "" {
				logs[t].fail("wrong-view", "%s", s)
			}
		})
	}
	runTasks(p, o, 0, fns...)
	o.take(logs)
}

func foreignPlan(r *Rng, kind string) *Plan {
	p := &Plan{Kind: kind, Seed: r.U64(), Kn: map[string]int64{}}
	if r.P(2, 3) {
		p.IO = r.U64() | 1
	}
	if r.P(1, 5) {
		p.Kn["tasks"], p.Mean = 2, meanOf(r)*20
	}
	return p
}

func deriveOpenFaults(one int) func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	return func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
		if !r.P(1, one) {
			return nil
		}
		return deriveDisk(1)(r, p, o, thorough)
	}
}

// ---- C17: tar logs ----------------------------------------------------------------

func cleanTar(name string) string {
	c := strings.TrimPrefix(path.Clean("/"+name), "/")
	return c
}

func genC17(r *Rng, idx int, thorough bool) *Plan {
	p := foreignPlan(r, "tar")
	dirs := []string{"d", "d/e", "d/e/f", "x", ".h", "d/e/f/g/h/i"}
	leaves := []string{"a", "b", "c", "d/a", "d/b", "d/e/a", "d/e/f/c", "x/a", ".h/.a", "d/e/f/g/h/i/z", ".p", "x/a b", "A", "d/A", "D/a", "a.", "d.a"}
	flips := []string{"q", "d/q", "x/r"}
	if r.P(1, 3) {
		leaves = append(leaves, "a ", " a", "x/b ", "a\\b", "d/a\n", "é", "c:", "-", "~", "...", "d/..a")
	}
	if r.P(1, 3) {
		leaves = append(leaves, "d/"+strings.Repeat("n", Pick(r, 97, 98, 99, 100, 101, 120, 200, 255)), strings.Repeat("m", 100), "x/"+strings.Repeat("k", 60)+"é")
	}
	n := 1 + r.Intn(14)
	if r.P(1, 40) {
		n = 0
	}
	linked := map[string]bool{} // targets of links: may not be replaced any more
	isFile := map[string]bool{} // currently a regular file
	isLink := map[string]string{}
	final := func(q string) string {
		for i := 0; i < 50 && isLink[q] != ""; i++ {
			q = isLink[q]
		}
		return q
	}
	to := TreeOpts{}
	for i := 0; i < n; i++ {
		nd := Node{C: r.U64(), F: Pick(r, "ustar", "pax", "gnu", "v7", "pax", "any")}
		to.meta(r, &nd)
		switch k := r.Intn(14); {
		case k < 3:
			nd.K, nd.P = "d", Pick(r, dirs...)
		case k < 8:
			nd.K, nd.P, nd.S = "f", Pick(r, leaves...), fileSize(r, 20000)
			if r.P(1, 8) {
				nd.F = Pick(r, "sparse", "sparse", "sparse0", "sparse1")
				nd.S = r.Int63n(8000)
			}
		case k < 10:
			nd.K, nd.P, nd.L = "l", Pick(r, leaves...), Pick(r, "a", "../a", "/d/e", "nowhere", ".", "d/../b", "./x", "x//a", strings.Repeat("y", Pick(r, 100, 101, 300)))
		case k < 12:
			nd.K, nd.P = "h", Pick(r, leaves...)
			t := Pick(r, leaves...)
			if t == nd.P || linked[nd.P] {
				continue
			}
			if len(linked) > 0 && r.P(1, 3) { // a chain
				for _, l := range leaves {
					if isLink[l] != "" && l != nd.P && final(l) != nd.P {
						t = l
					}
				}
			}
			if final(t) == nd.P {
				continue
			}
			nd.L = t
		case k < 13:
			nd.K, nd.P = Pick(r, "f", "d", "l"), Pick(r, flips...)
			if nd.K == "f" {
				nd.S = fileSize(r, 3000)
			} else if nd.K == "l" {
				nd.L = "d"
			}
		default:
			nd.K = "g"
		}
		if linked[nd.P] {
			continue
		}
		if nd.K == "h" {
			linked[nd.L] = true
			linked[final(nd.L)] = true
			isLink[nd.P] = nd.L
		} else {
			delete(isLink, nd.P)
		}
		isFile[nd.P] = nd.K == "f"
		p.Nodes = append(p.Nodes, nd)
	}
	// Most links name a file that exists (before or after the link).
	if r.P(9, 10) {
		for _, l := range sortedKeys(isLink) {
			t := final(l)
			if !isFile[t] && isLink[t] == "" && !strings.HasPrefix(t, "q") {
				nd := Node{K: "f", P: t, S: fileSize(r, 3000), C: r.U64(), F: "ustar"}
				to.meta(r, &nd)
				if r.P(1, 6) {
					nd.K, nd.S, nd.L = "l", 0, "nowhere"
				}
				isFile[t] = true
				// An own entry for the target; what stood there before is replaced.
				var rest []Node
				for _, x := range p.Nodes {
					if x.P != t {
						rest = append(rest, x)
					}
				}
				k := r.Intn(len(rest) + 1)
				p.Nodes = append(append(append([]Node{}, rest[:k]...), nd), rest[k:]...)
			}
		}
	} else if r.P(1, 2) {
		switch r.Intn(4) {
		case 0, 1:
			p.Nodes = append(p.Nodes, Node{K: "h", P: "cy1", L: "cy2", F: "ustar"}, Node{K: "h", P: "cy2", L: Pick(r, "cy1", "cy2"), F: "ustar"})
		case 2:
			p.Nodes = append(p.Nodes, Node{K: "h", P: "cy1", L: "cy1", F: "ustar"})
		case 3:
			p.Nodes = append(p.Nodes, Node{K: "h", P: "cy1", L: "cy2", F: "ustar"}, Node{K: "h", P: "cy2", L: "cy3", F: "ustar"}, Node{K: "h", P: "cy3", L: "cy1", F: "ustar"})
		}
	}
	for i := range p.Nodes { // how names are written
		nd := &p.Nodes[i]
		if nd.K == "g" {
			continue
		}
		deco := func(s string) string {
			switch r.Intn(10) {
			case 0, 1:
				return "./" + s
			case 2:
				return "/" + s
			case 3:
				return Pick(r, "../", "../../", ".//", "./../") + s
			case 4:
				return Pick(r, "d/../", "./d/.././") + s
			}
			return s
		}
		nd.P = deco(nd.P)
		if nd.K == "h" {
			nd.L = deco(nd.L)
		}
		if nd.K == "d" && r.P(3, 4) {
			nd.P += "/"
		}
	}
	if r.P(1, 4) { // an entry for the root
		nd := Node{K: "d", P: Pick(r, "./", ".", "/"), F: "ustar", M: 0o700, T: 5}
		k := r.Intn(len(p.Nodes) + 1)
		p.Nodes = append(append(append([]Node{}, p.Nodes[:k]...), nd), p.Nodes[k:]...)
	}
	p.Kn["end"] = int64(r.Intn(4))
	if idx%hugeEvery == hugeEvery-1 {
		for i := range p.Nodes {
			if n := &p.Nodes[i]; n.K == "f" {
				n.S, n.F = Pick[int64](r, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 5000000000, 1<<33-1, 1<<33, 1<<33+1), Pick(r, "any", "gnu", "pax", "v7")
				if n.S>>33 != 0 {
					n.F = Pick(r, "gnu", "pax")
				}
				break
			}
		}
	}
	return p
}

// replayTar is the state a log leads to.
func replayTar(log []Node) (nodes []Node, refuse string) {
	st := map[string]Node{}
	for _, n := range log {
		q := cleanTar(n.P)
		if n.K == "g" || q == "" {
			continue
		}
		n.P = q
		st[q] = n
	}
	for _, q := range sortedKeys(st) {
		n := st[q]
		if n.K != "h" {
			continue
		}
		t, ok := n, true
		for i := 0; ok && t.K == "h"; i++ {
			if i > len(st) {
				return nil, "a hard link is in a cycle: " + q
			}
			t, ok = st[cleanTar(t.L)]
		}
		if !ok {
			return nil, "a hard link has no target: " + q
		}
		t.P = q
		t.L = tOr(t)
		nodes = append(nodes, t)
	}
	for _, q := range sortedKeys(st) {
		if n := st[q]; n.K != "h" {
			nodes = append(nodes, n)
		}
		for d := path.Dir(q); d != "."; d = path.Dir(d) {
			if _, ok := st[d]; !ok {
				st[d] = Node{}
				nodes = append(nodes, Node{P: d, K: "d", M: 0o755, TZ: true})
			}
		}
	}
	return nodes, ""
}

func tOr(n Node) string {
	if n.K == "l" {
		return n.L
	}
	return ""
}

// rawHeader is a tar header block written by hand.
func rawHeader(n *Node, typ byte, size int64, magic string) []byte {
	b := make([]byte, 512)
	copy(b[0:100], n.P)
	perm := int64(fs.FileMode(n.M).Perm())
	for _, x := range []struct {
		m fs.FileMode
		b int64
	}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
		if fs.FileMode(n.M)&x.m != 0 {
			perm |= x.b
		}
	}
	if n.C%7 == 0 { // as old versions of tar have it
		perm |= map[byte]int64{'0': 0o100000, 0: 0o100000, 'S': 0o100000, '2': 0o120000, '5': 0o40000}[typ]
	}
	copy(b[100:], fmt.Sprintf("%07o\x00", perm))
	copy(b[108:], fmt.Sprintf("%07o\x00", n.U))
	copy(b[116:], fmt.Sprintf("%07o\x00", n.G))
	copy(b[124:], fmt.Sprintf("%011o\x00", size))
	copy(b[136:], fmt.Sprintf("%011o\x00", n.T))
	b[156] = typ
	copy(b[157:257], n.L)
	copy(b[257:], magic)
	return b
}

func sumHeader(b []byte) {
	copy(b[148:156], "        ")
	var s int
	for _, c := range b {
		s += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", s))
}

// paxSparse writes a sparse file with PAX headers (formats 0.1 and 1.0 of GNU tar).
func paxSparse(buf *blobW, n *Node) {
	segs := sparseMap(n)
	data := n.Data()
	var body []byte
	m := ""
	for _, s := range segs {
		body = append(body, data[s[0]:s[0]+s[1]]...)
		m += fmt.Sprintf(",%d,%d", s[0], s[1])
	}
	rec := map[string]string{}
	h := *n
	if n.F == "sparse0" {
		rec["GNU.sparse.numblocks"] = fmt.Sprint(len(segs))
		rec["GNU.sparse.map"] = strings.TrimPrefix(m, ",")
		rec["GNU.sparse.size"] = fmt.Sprint(n.S)
	} else {
		rec["GNU.sparse.major"], rec["GNU.sparse.minor"] = "1", "0"
		rec["GNU.sparse.realsize"] = fmt.Sprint(n.S)
		mm := fmt.Sprintf("%d\n", len(segs)) + strings.ReplaceAll(strings.TrimPrefix(m, ","), ",", "\n")
		if len(segs) > 0 {
			mm += "\n"
		}
		body = append(append([]byte(mm), make([]byte, -len(mm)&511)...), body...)
	}
	rec["GNU.sparse.name"] = n.P
	h.P = path.Join(path.Dir(n.P), "GNUSparseFile.0", path.Base(n.P))
	if len(h.P) > 100 {
		h.P = h.P[:100]
	}
	var x []byte
	for _, k := range sortedKeys(rec) {
		l := len(k) + len(rec[k]) + 3
		for d := 1; ; d++ {
			if len(fmt.Sprint(l+d)) == d {
				x = append(x, fmt.Sprintf("%d %s=%s\n", l+d, k, rec[k])...)
				break
			}
		}
	}
	xh := rawHeader(&Node{P: "PaxHeaders/x", M: 0o644, C: 1}, 'x', int64(len(x)), "ustar\x0000")
	sumHeader(xh)
	buf.Write(xh)
	buf.Write(x)
	buf.Write(make([]byte, -len(x)&511))
	b := rawHeader(&h, '0', int64(len(body)), "ustar\x0000")
	sumHeader(b)
	buf.Write(b)
	buf.Write(body)
	buf.Write(make([]byte, -len(body)&511))
}

// blobW writes a blob.
type blobW struct {
	bytes.Buffer // since base
	base         int64
	bl           Blob
}

func (w *blobW) pos() int64 { return w.base + int64(w.Len()) }

// file writes the content of a file.
func (w *blobW) file(n *Node) {
	if !n.huge() {
		w.Write(n.Data())
		return
	}
	w.flush()
	isl := n.islands()
	for _, x := range isl {
		b := make([]byte, x[1]-x[0])
		n.hugeAt(isl, b, x[0])
		w.bl.put(w.base+x[0], b)
	}
	w.base += n.S
}

func (w *blobW) flush() {
	w.bl.put(w.base, append([]byte(nil), w.Bytes()...))
	w.base = w.pos()
	w.Reset()
}

func (w *blobW) done() *Blob {
	w.flush()
	w.bl.sort()
	w.bl.size = w.base
	return &w.bl
}

func buildTar(log []Node, end int64) (*Blob, error) {
	var buf blobW
	for i := range log {
		n := log[i]
		if n.K == "g" {
			tw := tar.NewWriter(&buf)
			if err := tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, PAXRecords: map[string]string{"comment": fmt.Sprint(n.C)}}); err != nil {
				return nil, err
			}
			tw.Flush()
			continue
		}
		small := n.U < 1<<21 && n.G < 1<<21 && n.T >= 0 && n.T < 1<<33 && len(n.P) <= 100 && len(n.L) <= 100
		if n.F == "sparse" && small {
			segs := sparseMap(&n)
			data := n.Data()
			var body []byte
			for _, s := range segs {
				body = append(body, data[s[0]:s[0]+s[1]]...)
			}
			b := rawHeader(&n, 'S', int64(len(body)), "ustar  \x00")
			for j, s := range segs {
				copy(b[386+24*j:], fmt.Sprintf("%011o\x00%011o\x00", s[0], s[1]))
			}
			copy(b[483:], fmt.Sprintf("%011o\x00", n.S))
			sumHeader(b)
			buf.Write(b)
			buf.Write(body)
			buf.Write(make([]byte, -len(body)&511))
			continue
		}
		if (n.F == "sparse0" || n.F == "sparse1") && small && len(sparseMap(&n)) > 0 {
			paxSparse(&buf, &n)
			continue
		}
		if n.F == "v7" && small && n.K != "d" || n.F == "v7" && small && strings.HasSuffix(n.P, "/") {
			typ := byte(0)
			switch n.K {
			case "l":
				typ = '2'
			case "h":
				typ = '1'
			}
			size := int64(0)
			if n.K == "f" {
				size = n.S
			}
			b := rawHeader(&n, typ, size, "")
			sumHeader(b)
			buf.Write(b)
			if n.K == "f" {
				buf.file(&n)
				buf.Write(make([]byte, -n.S&511))
			}
			continue
		}
		h := &tar.Header{Name: n.P, Uid: int(n.U), Gid: int(n.G), Linkname: n.L, Mode: int64(fs.FileMode(n.M).Perm())}
		for _, x := range []struct {
			m fs.FileMode
			b int64
		}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
			if fs.FileMode(n.M)&x.m != 0 {
				h.Mode |= x.b
			}
		}
		if !n.TZ {
			h.ModTime = n.Time()
		}
		switch n.C % 7 {
		case 0:
			h.Mode |= map[string]int64{"f": 0o100000, "d": 0o40000, "l": 0o120000}[n.K]
		case 1:
			h.Uname, h.Gname = "someone", "users"
		case 2, 3:
			if n.F == "pax" || n.F == "gnu" {
				h.AccessTime, h.ChangeTime = time.Unix(n.T+1000, 0), time.Unix(n.T+2000, 0)
			}
		}
		switch n.K {
		case "f":
			h.Typeflag, h.Size = tar.TypeReg, n.S
		case "d":
			h.Typeflag = tar.TypeDir
		case "l":
			h.Typeflag = tar.TypeSymlink
		case "h":
			h.Typeflag = tar.TypeLink
		}
		switch n.F {
		case "ustar":
			h.Format = tar.FormatUSTAR
		case "gnu":
			h.Format = tar.FormatGNU
		case "pax":
			h.Format = tar.FormatPAX
			if n.C%3 == 0 {
				h.PAXRecords = map[string]string{"VENDOR.key": "value", "comment": strings.Repeat("c", int(n.C>>8%700))}
			}
		}
		tw := tar.NewWriter(&buf)
		if err := tw.WriteHeader(h); err != nil {
			h.Format = tar.FormatPAX
			tw = tar.NewWriter(&buf)
			if err := tw.WriteHeader(h); err != nil {
				return nil, err
			}
		}
		if n.K == "f" {
			buf.file(&n)
			buf.Write(make([]byte, -n.S&511))
		}
	}
	switch end {
	case 0:
		buf.Write(make([]byte, 1024))
	case 1: // record padding
		buf.Write(make([]byte, 1024))
		buf.Write(make([]byte, (10240-buf.pos()%10240)%10240))
	case 2: // garbage behind the end
		buf.Write(make([]byte, 1024))
		buf.Write(Content(3, 700))
	}
	return buf.done(), nil
}

func execC17(p *Plan, o *Outcome) {
	data, err := buildTar(p.Nodes, p.Kv("end", 0))
	if err != nil {
		o.probe("harness cannot write this log")
		return
	}
	nodes, refuse := replayTar(p.Nodes)
	seen := map[string]bool{}
	for _, n := range p.Nodes {
		q := cleanTar(n.P)
		if seen[q] {
			o.probe("path repeated")
			o.Nontrivial = true
		}
		seen[q] = true
		if n.K == "h" {
			o.probe("hard link")
			o.Nontrivial = true
		}
	}
	o.Nontrivial = o.Nontrivial || len(nodes) > 1
	o.note(data.hash())
	execForeign(p, o, "tar", data, NewModel(nodes), Exp{Format: "tar", Owner: true}, refuse)
}

// ---- C19: ar archives ---------------------------------------------------------------

func genC19(r *Rng, idx int, thorough bool) *Plan {
	p := foreignPlan(r, "ar")
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		nd := Node{K: "f", C: r.U64(), S: fileSize(r, 30000), T: Pick[int64](r, 0, 1, 999999999999, -1, r.Int63n(2000000000)), U: Pick[int64](r, 0, 1, 1000, 999999, r.Int63n(100000)), G: Pick[int64](r, 0, 5, 65534, 999999)}
		nd.M = uint32(Pick[fs.FileMode](r, 0o644, 0o755, 0, 0o777, fs.FileMode(r.Intn(0o1000))))
		if r.P(1, 6) {
			nd.M |= uint32(Pick(r, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky))
		}
		if r.P(1, 3) {
			nd.S = Pick[int64](r, 0, 1, 3, 59, 60, 61)
		}
		nd.P = Pick(r, "a", "b", "debian-binary", "control.tar.gz", "data.tar.xz", "fifteen-chars-1", ".dot", "a b", " a", "x.y", "é", "-", "!<arch>", "`", "A", "B", "Debian-Binary", "-")
		if r.P(1, 8) {
			nd.P = "sixteen-chars-01"
		}
		for _, f := range []string{"s", "z", "b", "m"} {
			if r.P(1, 3) {
				nd.F += f
			}
		}
		p.Nodes = append(p.Nodes, nd)
	}
	p.Kn["nopad"] = int64(r.Intn(2))
	if r.P(1, 8) {
		p.Kn["stray"] = 1
	}
	if idx%hugeEvery == hugeEvery-1 {
		for i := range p.Nodes {
			if i == 0 || r.P(1, 8) {
				p.Nodes[i].S = Pick[int64](r, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 5000000000, 9999999999)
			}
		}
	}
	if len(p.Nodes) > 0 && r.P(1, 4) {
		p.Faults = []Fault{{Seam: "ar", Kind: Pick(r, "term", "term", "nonnum", "nonnum", "nonnum", "negsize", "slash", "name", "magic", "tail", "tail"), N: r.Int63n(int64(n)), A: r.Int63n(1 << 30)}}
	} else if len(p.Nodes) == 0 && r.P(1, 2) {
		p.Faults = []Fault{{Seam: "ar", Kind: Pick(r, "tail", "cut"), A: r.Int63n(1 << 30)}}
	}
	return p
}

func buildAr(p *Plan) (data *Blob, nodes []Node, refuse string) {
	var buf blobW
	magic := []byte("!<arch>\n")
	last := map[string]Node{}
	var bad *Fault
	for i := range p.Faults {
		if p.Faults[i].Seam == "ar" {
			bad = &p.Faults[i]
		}
	}
	if bad != nil && bad.Kind == "magic" {
		refuse = "the signature is wrong"
		r := NewRng(uint64(bad.A))
		if r.P(1, 2) { // what other tools or other kinds of archive have there
			magic = []byte(Pick(r, "!<thin>\n", "!<bout>\n", "!<ARCH>\n", "!<arch>\r", "!<arch> ", "<bigaf>\n", "<aiaff>\n", "!<arch>\x00", "\n!<arch>", "! <arch>"))
		} else {
			magic[r.Intn(8)] ^= byte(1 + r.Intn(255))
		}
	}
	if bad != nil && bad.Kind == "cut" {
		refuse = "it ends inside the signature"
		magic = magic[:bad.A%8]
	}
	buf.Write(magic)
	for i, n := range p.Nodes {
		name := n.P
		if strings.Contains(n.F, "s") && len(name) < 16 {
			name += "/"
		}
		num := func(v int64, w int) string {
			if strings.Contains(n.F, "z") && v >= 0 {
				return fmt.Sprintf("%0*d", w, v)
			}
			return fmt.Sprintf("%-*d", w, v)
		}
		mode := int64(fs.FileMode(n.M).Perm())
		for _, x := range []struct {
			m fs.FileMode
			b int64
		}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
			if fs.FileMode(n.M)&x.m != 0 {
				mode |= x.b
			}
		}
		if strings.Contains(n.F, "m") {
			mode |= 0o100000
		}
		ts, us, gs := num(n.T, 12), num(n.U, 6), num(n.G, 6)
		if strings.Contains(n.F, "b") {
			ts, us, gs = strings.Repeat(" ", 12), "      ", "      "
			n.T, n.U, n.G = 0, 0, 0
		}
		ms := fmt.Sprintf("%-8o", mode)
		if strings.Contains(n.F, "z") {
			ms = fmt.Sprintf("%08o", mode)
		}
		h := []byte(fmt.Sprintf("%-16s%s%s%s%s%s`\n", name, ts, us, gs, ms, num(n.S, 10)))
		if len(name) != len([]rune(name)) { // Sprintf counts runes
			h = []byte(name + strings.Repeat(" ", 16-len(name)) + string(h[16+len(name)-len([]rune(name)):]))
		}
		if len(h) != 60 {
			panic(fmt.Sprintf("ar header of %d bytes: %q", len(h), h))
		}
		if bad != nil && bad.N == int64(i) {
			r := NewRng(uint64(bad.A))
			switch bad.Kind {
			case "term":
				refuse = "the terminator of a header is wrong"
				if r.P(1, 2) {
					h[58] = Pick[byte](r, ' ', '\n', '\'', 0)
				} else {
					h[59] = Pick[byte](r, ' ', '`', '\r', 0)
				}
			case "nonnum":
				refuse = "a field is not numeric"
				f := [][2]int{{16, 28}, {28, 34}, {34, 40}, {40, 48}, {48, 58}}[r.Intn(5)]
				copy(h[f[0]:f[1]], strings.Repeat(" ", 12))
				copy(h[f[0]:f[1]], Pick(r, "x", "9a", "0x1", "1 2", "1.5", "/", "--1", "\x00", "1_0", "6_4", "b1", "x1f", "o64", "0b1", "0o7", "1e3", "1-", "1,0", "\xb2"))
				if f[0] == 40 && r.P(1, 3) { // no octal digits
					copy(h[40:48], Pick(r, "8", "688", "100899", "0009"))
				}
			case "negsize":
				refuse = "a size is negative"
				copy(h[48:58], fmt.Sprintf("%-10d", Pick(r, -1, -1-r.Int63n(100), -r.Int63n(1000000000)-1)))
			case "name":
				refuse = "a name is empty, . or .."
				copy(h[0:16], fmt.Sprintf("%-16s", Pick(r, "", ".", "..", "./", "../", "/")))
			case "slash":
				refuse = "a name contains a directory separator"
				copy(h[0:16], fmt.Sprintf("%-16s", Pick(r, "a/b", "/a", "a//", "d/e/", "../x")))
			}
		}
		buf.Write(h)
		buf.file(&n)
		if n.S%2 == 1 && !(i == len(p.Nodes)-1 && p.Kv("nopad", 0) == 1) {
			buf.WriteByte('\n')
		}
		last[n.P] = n
	}
	if bad != nil && bad.Kind == "tail" {
		refuse = "it ends inside a header"
		if n := len(p.Nodes); n > 0 && p.Nodes[n-1].S%2 == 1 && p.Kv("nopad", 0) == 1 {
			buf.WriteByte('\n')
		}
		h := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n", "next.x", 1700000000, 0, 0, 0o644, 0)
		switch r := NewRng(uint64(bad.A)); r.Intn(3) {
		case 0:
			h = "\n" + h[:1+r.Intn(58)]
		default:
			h = h[:1+r.Intn(59)]
		}
		buf.Write([]byte(h))
	} else if p.Kv("stray", 0) == 1 && (bad == nil || bad.Kind != "cut") { // some tools end an archive like this
		buf.WriteByte('\n')
	}
	for _, q := range sortedKeys(last) {
		nodes = append(nodes, last[q])
	}
	return buf.done(), nodes, refuse
}

func execC19(p *Plan, o *Outcome) {
	data, nodes, refuse := buildAr(p)
	o.Nontrivial = len(p.Nodes) > 0
	o.note(data.hash())
	if len(nodes) < len(p.Nodes) {
		o.probe("name repeated")
	}
	m := NewModel(nodes)
	execForeign(p, o, "ar", data, m, Exp{Format: "ar", Owner: true}, refuse)
}

// ---- C18: EROFS images ----------------------------------------------------------------

func genC18(r *Rng, idx int, thorough bool) *Plan {
	p := foreignPlan(r, "erofs")
	bits := Pick[int64](r, 9, 9, 10, 10, 11, 12, 12, 12, 13, 14, 16)
	p.Kn["bits"] = bits
	p.Kn["layout"] = r.Int63n(1 << 40)
	p.Kn["sum"] = int64(r.Intn(2))
	p.Kn["bt"] = 1600000000 + r.Int63n(100000000)
	p.Kn["btn"] = Pick[int64](r, 0, r.Int63n(1000000000))
	to := TreeOpts{Max: 1 + r.Intn(12), Links: true, LongName: r.P(1, 3)}
	if r.P(1, 12) {
		to.BigDir, to.Max = true, 20+r.Intn(200)
		if thorough && r.P(1, 4) {
			to.Max = 2000
		}
		if r.P(1, 4) {
			to.LongName, to.Names, to.Max = false, shortName, 350+r.Intn(100)
			p.Kn["maxsteps"] = 1_000_000_000
		}
	}
	p.Nodes = GenTree(r, to)
	if r.P(1, 50) {
		p.Nodes = nil
	}
	if bits <= 13 && r.P(1, 12) {
		p.Nodes = Normalize(append(p.Nodes, fitNodes(r, 1<<bits)...))
	}
	for i := range p.Nodes {
		n := &p.Nodes[i]
		n.F = Pick(r, "xi", "xp", "ci", "cp", "xi", "ci") // extended or compact, inline or plain
		if n.TZ || n.T < 0 {
			n.TZ, n.T = false, 0
		}
		if n.F[0] == 'c' {
			n.U, n.G = n.U&0xffff, n.G&0xffff
		}
		if n.K == "f" {
			b := int64(1) << bits
			switch r.Intn(6) {
			case 0:
				n.S = b*r.Int63n(4) + Pick[int64](r, -1, 0, 1)
			case 1:
				n.S = b - Pick[int64](r, 31, 32, 33, 63, 64, 65)
			case 2:
				n.S = b*r.Int63n(3) + b - Pick[int64](r, 31, 32, 33, 63, 64, 65)
			}
			if n.S < 0 {
				n.S = 0
			}
		}
		if n.K == "f" && r.P(1, 20) {
			n.K, n.S = Pick(r, "c", "b", "p", "s"), 0
		}
		if n.K == "l" && n.L == "" {
			n.L = "x"
		}
	}
	// Nodes with extended attributes, compressed, in chunks.
	if r.P(1, 5) {
		for i := range p.Nodes {
			if n := &p.Nodes[i]; (n.K == "f" || n.K == "l") && r.P(1, 3) {
				n.F += Pick(r, "x", "x", "x", "1", "3", "4", "5", "6", "7")
			}
		}
	}
	// Hard links: a second name for a file.
	if r.P(1, 6) {
		for i := range p.Nodes {
			if p.Nodes[i].K == "f" {
				p.Nodes = append(p.Nodes, Node{P: path.Join(path.Dir(p.Nodes[i].P), "h.ln"), K: "h", L: p.Nodes[i].P})
				break
			}
		}
		p.Nodes = Normalize(p.Nodes)
	}
	if r.P(1, 10) { // addresses that need more than 31, 32 or 40 bits
		p.Kn["far"] = Pick[int64](r, 31, 32, 32, 33, 35, 39, 40, 99)
		p.Kn["farwhat"] = r.Int63n(4)
	}
	if idx%hugeEvery == hugeEvery-1 {
		for i := range p.Nodes {
			if n := &p.Nodes[i]; n.K == "f" {
				n.S = Pick[int64](r, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<32+1<<bits, 5000000000)
				n.F = n.F[:2]
				if n.S>>32 != 0 {
					n.F = "x" + n.F[1:]
				}
				break
			}
		}
	}
	if r.P(1, 8) {
		p.Faults = []Fault{{Seam: "sb", Kind: Pick(r, "magic", "checksum", "no-checksum", "content", "incompat", "bits"), A: r.Int63n(1 << 30)}}
	}
	return p
}

// plainC18 is genC18 without nodes the library does not support.
func plainC18(r *Rng, thorough bool) *Plan {
	p := genC18(r, 0, thorough)
	for i := range p.Nodes {
		if n := &p.Nodes[i]; n.odd() {
			n.F = n.F[:2]
		}
	}
	return p
}

type eInode struct {
	n      *Node
	size   int64
	data   []byte
	off    int64 // in the metadata area
	inline bool
	ext    bool
	blk    int64
	nlink  int
	xattr  int64 // count in the inode
}

// imgInfo is what the builder wrote: the oracle of C25.
type imgInfo struct {
	inodes               map[string]*eInode
	nids                 map[string]uint64
	bits                 int64
	root                 uint64
	meta, blocks, inodeN int64
	bt, btn              int64
	sb                   []byte
}

func buildErofs(p *Plan) (bl *Blob, m *Model, refuse string) {
	bl, m, refuse, _ = buildErofs1(p)
	return
}

// buildErofs1 lays an image out in one of many valid ways.  It follows the on-disk
// format as documented by the Linux kernel.
func buildErofs1(p *Plan) (bl *Blob, m *Model, refuse string, info *imgInfo) {
	bits := p.Kv("bits", 12)
	B := int64(1) << bits
	r := NewRng(uint64(p.Kv("layout", 1)), 0xe40f5)
	bt, btn := p.Kv("bt", 0), p.Kv("btn", 0)
	// The tree, with hard links resolved.
	var nodes []Node
	byPath := map[string]Node{}
	for _, n := range p.Nodes {
		byPath[n.P] = n
	}
	same := map[string]string{} // path -> path of the inode
	for _, n := range p.Nodes {
		if n.K == "h" {
			t, ok := byPath[n.L]
			if !ok || t.K == "h" {
				continue
			}
			same[n.P] = n.L
			q := n.P
			n = t
			n.P = q
		}
		if n.F == "" {
			n.F = "xp"
		}
		if n.F[0] == 'c' { // compact inodes carry the time of the image
			n.T, n.TN, n.TZ = bt, btn, false
		}
		nodes = append(nodes, n)
	}
	nodes = Normalize(nodes)
	for i := range nodes {
		n := &nodes[i]
		if n.F == "" {
			n.F = "xp"
		}
		if n.TZ || n.T < 0 {
			n.TZ, n.T, n.TN = false, 0, 0
		}
	}
	m = NewModel(nodes)
	root := *m.N["."]
	root.F = Pick(r, "xi", "ci", "xp", "cp")
	all := []*Node{&root}
	for i := range nodes {
		all = append(all, &nodes[i])
	}
	inodes := map[string]*eInode{}
	var order []*eInode
	for _, n := range all {
		if same[n.P] != "" {
			continue
		}
		e := &eInode{n: n, ext: n.F[0] == 'x', inline: n.F[1] == 'i', nlink: 1}
		switch {
		case n.huge():
			e.size = n.S
		case n.K == "f":
			e.data = n.Data()
		case n.K == "l":
			e.data = []byte(n.L)
		}
		if n.S>>32 != 0 {
			e.ext = true
		}
		if n.odd() && n.F[2] == 'x' {
			e.xattr = Pick[int64](r, 1, 1, 3, 3, 9, 30)
		}
		if n.U > 0xffff || n.G > 0xffff {
			e.ext = true
		}
		inodes[n.P] = e
		order = append(order, e)
	}
	inodeOf := func(q string) *eInode {
		if s := same[q]; s != "" {
			q = s
		}
		return inodes[q]
	}
	ftype := func(k string) byte {
		return map[string]byte{"f": 1, "d": 2, "c": 3, "b": 4, "p": 5, "s": 6, "l": 7}[k]
	}
	// Sizes of directories do not depend on node numbers: lay names out first.
	type dent struct {
		name string
		e    *eInode
	}
	dirBlocks := map[*eInode][][]dent{}
	for _, e := range order {
		if e.n.K != "d" {
			continue
		}
		par := "."
		if e.n.P != "." {
			par = path.Dir(e.n.P)
		}
		ents := []dent{{".", e}, {"..", inodes[par]}}
		for _, k := range m.kids[e.n.P] {
			full := path.Join(e.n.P, k)
			c := inodeOf(full)
			if same[full] != "" {
				c.nlink++
			}
			ents = append(ents, dent{k, c})
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].name < ents[j].name })
		var blocks [][]dent
		var cur []dent
		used := int64(0)
		early := Pick(r, 25, 25, 400, 1<<30)
		for _, d := range ents {
			need := int64(12 + len(d.name))
			if len(cur) > 0 && (used+need > B || r.P(1, early)) {
				blocks = append(blocks, cur)
				cur, used = nil, 0
			}
			cur = append(cur, d)
			used += need
		}
		blocks = append(blocks, cur)
		dirBlocks[e] = blocks
		e.size = int64(len(blocks)-1)*B + used
		if r.P(1, 5) { // padded last block
			e.size = min(e.size+r.Int63n(40), int64(len(blocks))*B)
		}
	}
	for _, e := range order {
		if e.n.K != "d" && !e.n.huge() {
			e.size = int64(len(e.data))
		}
	}
	// Place inodes in the metadata area.
	r2 := NewRng(uint64(p.Kv("layout", 1)), 2)
	for i := len(order) - 1; i > 0; i-- {
		j := r2.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	// A jump of the addresses somewhere: of data, of the metadata area or inside it.
	const noJump = 1 << 62
	dense, denseAt := int64(noJump), int64(noJump) // where it is
	farBits, farWhat, farAt := p.Kv("far", 0), p.Kv("farwhat", 0), int(p.Kv("layout", 1)>>8)%len(order)
	var jump int64 // in blocks
	switch {
	case farBits == 99:
		jump = 1<<31 + r2.Int63n(1<<30)
	case farBits > 0:
		jump = min(int64(1)<<farBits>>bits, 3<<30) + r2.Int63n(5)
	}
	// The root first when there is much: its number has 16 bits.
	if len(order) > 100 || farBits > 0 {
		for i := range order {
			if order[i].n.P == "." {
				order[0], order[i] = order[i], order[0]
			}
		}
	}
	metaAtZero := r2.P(1, 3)
	var at int64
	var meta int64 // block of the metadata area
	var nextBlk int64
	dataFirst := r2.P(1, 2)
	if metaAtZero {
		at = 1152 + 32*r2.Int63n(4)
		dataFirst = false
	}
	isz := func(e *eInode) int64 {
		n := int64(32)
		if e.ext {
			n = 64
		}
		if e.xattr > 0 {
			n += 12 + 4*(e.xattr-1)
		}
		return n
	}
	for i, e := range order {
		if r2.P(1, 6) {
			at += 32 * r2.Int63n(9)
		}
		if jump > 0 && farWhat == 0 && i > 0 && i == farAt {
			at = (at + B - 1) &^ (B - 1)
			denseAt = at
			at += jump * B
		}
		at = (at + 31) &^ 31
		tail := e.size & (B - 1)
		if tail == 0 || tail > B-isz(e) || e.n.K == "c" || e.n.K == "b" || e.n.K == "p" || e.n.K == "s" {
			e.inline = false
		}
		if e.inline && at%B+isz(e)+tail > B {
			at = (at + B - 1) &^ (B - 1)
		}
		e.off = at
		at += isz(e)
		if e.inline {
			at += tail
		}
	}
	metaBlocks := (at + B - 1) / B
	sbEnd := (int64(1152) + B - 1) / B
	blocksOf := func(e *eInode) int64 {
		if e.inline {
			return e.size / B
		}
		return (e.size + B - 1) / B
	}
	switch {
	case metaAtZero:
		nextBlk = metaBlocks
	case dataFirst:
		nextBlk = sbEnd
	default:
		meta = sbEnd + r2.Int63n(3)
		if jump > 0 && farWhat == 1 {
			dense = meta * B
			meta += jump
		}
		nextBlk = meta + metaBlocks
	}
	for i, e := range order {
		if blocksOf(e) > 0 {
			if jump > 0 && farWhat >= 2 && i >= farAt && dense == noJump {
				dense = nextBlk * B
				nextBlk += jump
			}
			if r2.P(1, 10) {
				nextBlk += r2.Int63n(3)
			}
			e.blk = nextBlk
			nextBlk += blocksOf(e)
		} else {
			e.blk = Pick[int64](r2, 0, 0, 0xffffffff, r2.Int63n(1<<30))
		}
	}
	if dataFirst {
		meta = nextBlk + r2.Int63n(3)
		if jump > 0 && farWhat == 1 {
			dense = meta * B
			meta += jump
		}
		nextBlk = meta + metaBlocks
	}
	if nextBlk > 0xffffffff {
		return nil, nil, "", nil
	}
	if denseAt != noJump {
		dense = meta*B + denseAt
	}
	for _, e := range order {
		if e.n.huge() && blocksOf(e) > 0 {
			dense = min(dense, e.blk*B)
		}
	}
	img := make([]byte, min(nextBlk*B, dense))
	bl = &Blob{}
	area := func(off, n int64) []byte {
		if off < int64(len(img)) {
			return img[off : off+n]
		}
		b := make([]byte, n)
		bl.put(off, b)
		return b
	}
	nid := func(e *eInode) uint64 { return uint64(e.off / 32) }
	r3 := NewRng(uint64(p.Kv("layout", 1)), 3)
	for _, e := range order { // links from directories, and from outside of the tree
		switch {
		case e.n.K == "d" && r3.P(3, 4):
			e.nlink = 2 + len(m.kids[e.n.P])
		case r3.P(1, 6):
			e.nlink += Pick(r3, 1, 126, 255, 299, 40000, 65530, 65536, 1<<31, 1<<32-10)
		}
		if !e.ext {
			e.nlink = min(e.nlink, 65535)
		}
	}
	for _, e := range order {
		if e.n.K == "d" {
			e.data = make([]byte, e.size)
			for bi, bl := range dirBlocks[e] {
				blk := e.data[int64(bi)*B : min(int64(bi+1)*B, e.size)]
				no := 12 * len(bl)
				for i, d := range bl {
					binary.LittleEndian.PutUint64(blk[12*i:], nid(d.e))
					binary.LittleEndian.PutUint16(blk[12*i+8:], uint16(no))
					blk[12*i+10] = ftype(d.e.n.K)
					no += copy(blk[no:], d.name)
				}
			}
		}
		inSize := isz(e)
		if e.inline {
			inSize += e.size & (B - 1)
		}
		b := area(meta*B+e.off, inSize)
		layout := uint16(0)
		if e.ext {
			layout = 1
		}
		if e.inline {
			layout |= 2 << 1
		}
		if k := e.n.F; e.n.odd() && k[2] != 'x' {
			layout = layout&1 | uint16(k[2]-'0')<<1
			e.data = bytes.Clone(e.data)
			for i := range e.data { // not what it looks like
				e.data[i] ^= 0x5a
			}
		}
		le := binary.LittleEndian
		le.PutUint16(b[0:], layout)
		le.PutUint16(b[2:], uint16(e.xattr))
		le.PutUint16(b[4:], unixMode(e.n))
		raw := uint32(e.blk)
		if e.ext {
			le.PutUint64(b[8:], uint64(e.size))
			le.PutUint32(b[16:], raw)
			le.PutUint32(b[20:], uint32(nid(e)))
			le.PutUint32(b[24:], uint32(e.n.U))
			le.PutUint32(b[28:], uint32(e.n.G))
			le.PutUint64(b[32:], uint64(e.n.T))
			le.PutUint32(b[40:], uint32(e.n.TN))
			le.PutUint32(b[44:], uint32(e.nlink))
		} else {
			le.PutUint16(b[6:], uint16(e.nlink))
			le.PutUint32(b[8:], uint32(e.size))
			le.PutUint32(b[16:], raw)
			le.PutUint32(b[20:], uint32(nid(e)))
			le.PutUint16(b[24:], uint16(e.n.U))
			le.PutUint16(b[26:], uint16(e.n.G))
		}
		if e.xattr > 1 { // one attribute, user.a, that fills the space
			x := b[isz(e)-4*(e.xattr-1) : isz(e)]
			x[0], x[1] = 1, 1
			le.PutUint16(x[2:], uint16(len(x)-5))
			copy(x[4:], Content(9, int64(len(x)-4)))
			x[4] = 'a'
		}
		if e.n.huge() {
			isl := e.n.islands()
			full := blocksOf(e) * B
			if e.inline {
				e.n.hugeAt(isl, b[isz(e):], full)
			}
			for _, x := range isl {
				if x[1] = min(x[1], full); x[0] < x[1] {
					e.n.hugeAt(isl, area(e.blk*B+x[0], x[1]-x[0]), x[0])
				}
			}
		}
		d := e.data
		if e.inline && d != nil {
			full := e.size / B * B
			copy(b[isz(e):], d[full:])
			d = d[:full]
		}
		if len(d) > 0 {
			copy(area(e.blk*B, int64(len(d))), d)
		}
	}
	// Superblock.
	le := binary.LittleEndian
	sb := img[1024:1152]
	le.PutUint32(sb[0:], 0xe0f5e1e2)
	compat := uint32(p.Kv("sum", 1))
	if r2.P(1, 3) {
		compat |= 2 // MTIME
	}
	le.PutUint32(sb[8:], compat)
	sb[12] = byte(bits)
	le.PutUint16(sb[14:], uint16(nid(inodes["."])))
	le.PutUint64(sb[16:], uint64(len(order)))
	le.PutUint64(sb[24:], uint64(bt))
	le.PutUint32(sb[32:], uint32(btn))
	le.PutUint32(sb[36:], uint32(nextBlk))
	le.PutUint32(sb[40:], uint32(meta))
	copy(sb[48:], Content(7, 16))
	copy(sb[64:], "volume")
	if nid(inodes["."]) > 0xffff {
		return nil, nil, "", nil
	}
	sum := func() {
		le.PutUint32(sb[4:], 0)
		if compat&1 == 0 {
			return
		}
		n := B
		if n > 1024 {
			n -= 1024
		}
		le.PutUint32(sb[4:], ^crc32.Checksum(img[1024:1024+n], crc32.MakeTable(crc32.Castagnoli)))
	}
	for i := range p.Faults {
		f := &p.Faults[i]
		if f.Seam != "sb" {
			continue
		}
		r := NewRng(uint64(f.A))
		switch f.Kind {
		case "magic":
			refuse = "the magic is wrong"
			sb[r.Intn(4)] ^= byte(1 + r.Intn(255))
			sum()
		case "incompat":
			refuse = "it needs unknown features"
			le.PutUint32(sb[80:], 1<<Pick(r, r.Intn(32), r.Intn(9), r.Intn(2)))
			sum()
		case "bits":
			refuse = "its block size is unusable"
			sb[12] = Pick[byte](r, 0, 1, 5, 8, 17, 20, 31, 32, 63, 64, 200, 255)
			if r.P(1, 2) {
				compat &^= 1
				le.PutUint32(sb[8:], compat)
			}
			sum()
		case "checksum", "content", "no-checksum":
			compat |= 1
			le.PutUint32(sb[8:], compat)
			sum()
			refuse = "its checksum is wrong"
			if f.Kind == "checksum" {
				sb[4+r.Intn(4)] ^= byte(1 + r.Intn(255))
			} else if f.Kind == "no-checksum" {
				le.PutUint32(sb[4:], Pick[uint32](r, 0, 1<<32-1, ^le.Uint32(sb[4:])))
			} else {
				n := B
				if n > 1024 {
					n -= 1024
				}
				k := 16 + r.Int63n(n-16)
				if k >= 80 && k < 84 {
					k = 48
				}
				img[1024+k] ^= byte(1 + r.Intn(255))
			}
		}
	}
	if refuse == "" {
		sum()
	}
	bl.put(0, img)
	bl.sort()
	bl.size = max(bl.size, nextBlk*B)
	info = &imgInfo{inodes: map[string]*eInode{}, nids: map[string]uint64{}, bits: bits, root: nid(inodes["."]), meta: meta, blocks: nextBlk, inodeN: int64(len(order)), bt: bt, btn: btn, sb: bytes.Clone(sb)}
	for q := range m.N {
		e := inodeOf(q)
		info.inodes[q], info.nids[q] = e, nid(e)
	}
	return bl, m, refuse, info
}

func unixMode(n *Node) uint16 {
	v := uint16(fs.FileMode(n.M).Perm())
	for _, x := range []struct {
		m fs.FileMode
		b uint16
	}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
		if fs.FileMode(n.M)&x.m != 0 {
			v |= x.b
		}
	}
	return v | map[string]uint16{"f": 0o100000, "d": 0o40000, "l": 0o120000, "c": 0o20000, "b": 0o60000, "p": 0o10000, "s": 0o140000}[n.K]
}

func execC18(p *Plan, o *Outcome) {
	img, m, refuse := buildErofs(p)
	if img == nil {
		return
	}
	o.Nontrivial = len(p.Nodes) > 0
	o.note(img.hash())
	o.probe(fmt.Sprintf("block size %d", 1<<p.Kv("bits", 12)))
	execForeign(p, o, "erofs", img, m, Exp{Format: "erofs", Owner: true}, refuse)
}

func init() {
	stub := []string{"archive storage (io.ReaderAt)", "archive writers of other tools (harness)", "scheduler, map iteration order"}
	register(&Prop{ID: "C17", Log: true, Quick: 14000, Thorough: 600000, Real: []string{"tarfs (reader)"}, Stub: stub, Faults: []string{"read errors"},
		Rule: "a random log of up to 14 tar entries (v7, ustar, PAX, GNU, GNU sparse; repeated, out of order, hard linked, decorated names, four kinds of archive end), replayed by a reference model; storage chunks, delays and EOF-flags its reads in two thirds of the cases, sometimes two concurrent clients, derived executions with read errors during Open; non-trivial: more than one node, a repeated path or a hard link",
		Gen:  genC17, Derive: deriveOpenFaults(3), Exec: execC17})
	register(&Prop{ID: "C18", Log: true, Quick: 10000, Thorough: 250000, Real: []string{"erofs (reader)"}, Stub: stub, Faults: []string{"read errors", "damaged superblock"},
		Rule: "a random tree in a random valid layout from an independent builder (block size 512 to 65536, compact/extended, inline/plain, shuffled inodes with gaps, metadata before or behind data, early-closed and padded directory blocks, hard links, special files, with or without checksum); one case in eight with a bad superblock that must be refused; non-trivial: at least one node besides the root",
		Gen:  genC18, Derive: deriveOpenFaults(3), Exec: execC18})
	register(&Prop{ID: "C19", Log: true, Quick: 20000, Thorough: 800000, Real: []string{"arfs (reader)"}, Stub: stub, Faults: []string{"read errors", "malformed header fields"},
		Rule: "a random ar archive of up to eight members in the variants other tools write; one case in four with a single malformed header that must be refused; non-trivial: at least one member",
		Gen:  genC19, Derive: deriveOpenFaults(3), Exec: execC19})
}
