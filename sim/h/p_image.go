package h

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/dpeckett/archivefs/erofs"
	"verif.local/sim/simrt"
)

// ---- C25: the exported EROFS image API -----------------------------------------------

func genC25(r *Rng, idx int, thorough bool) *Plan {
	p := genC18(r, idx, thorough)
	for i := range p.Nodes {
		if n := &p.Nodes[i]; n.odd() {
			n.F = n.F[:2]
		}
	}
	p.Kn["tasks"] = Pick[int64](r, 1, 1, 2, 3)
	p.Mean = Pick[int64](r, 2, 5, 10, 30, 100, 300)
	if len(p.Nodes) > 100 {
		p.Kn["tasks"] = 1
	}
	var dirs, names []string
	dirs = append(dirs, ".")
	for i := range p.Nodes {
		names = append(names, p.Nodes[i].P)
		if p.Nodes[i].K == "d" {
			dirs = append(dirs, p.Nodes[i].P)
		}
	}
	anyName := func() string {
		if len(names) == 0 || r.P(1, 10) {
			return "."
		}
		return Pick(r, names...)
	}
	for t := 0; t < int(p.Kn["tasks"]); t++ {
		for i := 0; i < 2+r.Intn(7); i++ {
			op := Op{T: t, K: Pick(r, "inode", "inode", "walk", "walk", "iter", "iter", "lookup", "lookup", "data", "data", "data", "link", "wrong", "super", "nid"),
				P: anyName(), A: r.Int63n(1 << 30), B: int64(r.Intn(2)), C: int64(r.Intn(4))}
			switch op.K {
			case "iter", "lookup":
				op.P = Pick(r, dirs...)
			case "nid":
				op.A = Pick(r, r.Int63n(1<<12), int64(r.U64()>>1), int64(r.U64()), -1, 1<<59, 1<<58)
			}
			op.D = int64(r.Intn(12))
			if op.K == "lookup" {
				base := path.Base(anyName())
				op.S = Pick(r, base, nearName(r, base), shortName(r), "", ".", "..", "/", base+"/"+base, base+"\x00", base+"/", strings.Repeat("x", 255), strings.Repeat("z", 300), base[:r.Intn(len(base)+1)])
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

// imgRun is what the tasks of a run share; they only read it.
type imgRun struct {
	img    *erofs.Image
	m      *Model
	x      *imgInfo
	shared map[string]*erofs.Inode
	kids   map[string][]imgEnt // in order, with "." and ".."
}

type imgEnt struct {
	name string
	path string
}

func (c *imgRun) inode(q string, shared int64) (*erofs.Inode, error) {
	if shared == 1 && c.shared[q] != nil {
		return c.shared[q], nil
	}
	ino, err := c.img.Inode(c.x.nids[q])
	return &ino, err
}

// wrongInode compares an inode with what was written.
func (c *imgRun) wrongInode(q string, ino *erofs.Inode) string {
	e := c.x.inodes[q]
	n := e.n
	kind := ""
	for _, k := range []struct {
		k  string
		is bool
	}{{"f", ino.IsRegular()}, {"d", ino.IsDir()}, {"c", ino.IsCharDev()}, {"b", ino.IsBlockDev()}, {"p", ino.IsFIFO()}, {"s", ino.IsSocket()}, {"l", ino.IsSymlink()}} {
		if k.is {
			kind += k.k
		}
	}
	layout, dataLayout := uint16(0), uint16(0)
	if e.ext {
		layout = 1
	}
	if e.inline {
		dataLayout = 2
	}
	sec, nsec := uint64(n.T), uint32(n.TN)
	if !e.ext {
		sec, nsec = uint64(c.x.bt), uint32(c.x.btn)
	}
	switch {
	case kind != n.K:
		return fmt.Sprintf("the inode of %q says it is of kind %q, want %q", q, kind, n.K)
	case ino.Mode() != n.Mode():
		return fmt.Sprintf("Mode of the inode of %q is %v, want %v", q, ino.Mode(), n.Mode())
	case ino.Nid() != c.x.nids[q]:
		return fmt.Sprintf("Nid of the inode of %q is %d, want %d", q, ino.Nid(), c.x.nids[q])
	case ino.Size() != uint64(e.size):
		return fmt.Sprintf("Size of the inode of %q is %d, want %d", q, ino.Size(), e.size)
	case ino.Nlink() != uint32(e.nlink):
		return fmt.Sprintf("Nlink of the inode of %q is %d, want %d", q, ino.Nlink(), e.nlink)
	case ino.UID() != uint32(n.U) || ino.GID() != uint32(n.G):
		return fmt.Sprintf("the owner of the inode of %q is %d:%d, want %d:%d", q, ino.UID(), ino.GID(), n.U, n.G)
	case ino.Mtime() != sec || ino.MtimeNsec() != nsec:
		return fmt.Sprintf("the time of the inode of %q is %d.%09d, want %d.%09d", q, ino.Mtime(), ino.MtimeNsec(), sec, nsec)
	case ino.Layout() != layout || ino.DataLayout() != dataLayout:
		return fmt.Sprintf("the layout of the inode of %q is %d/%d, want %d/%d", q, ino.Layout(), ino.DataLayout(), layout, dataLayout)
	}
	return ""
}

func (c *imgRun) wrongSuper(img *erofs.Image) string {
	x := c.x
	sb := img.SuperBlock()
	le := binary.LittleEndian
	b := x.sb
	for _, f := range []struct {
		name      string
		got, want uint64
	}{
		{"Image.BlockSize", uint64(img.BlockSize()), 1 << x.bits},
		{"Image.Blocks", uint64(img.Blocks()), uint64(x.blocks)},
		{"Image.RootNid", img.RootNid(), x.root},
		{"Magic", uint64(sb.Magic), uint64(le.Uint32(b))},
		{"Checksum", uint64(sb.Checksum), uint64(le.Uint32(b[4:]))},
		{"FeatureCompat", uint64(sb.FeatureCompat), uint64(le.Uint32(b[8:]))},
		{"BlockSizeBits", uint64(sb.BlockSizeBits), uint64(x.bits)},
		{"RootNid", uint64(sb.RootNid), x.root},
		{"Inodes", sb.Inodes, uint64(x.inodeN)},
		{"BuildTime", sb.BuildTime, uint64(x.bt)},
		{"BuildTimeNsec", uint64(sb.BuildTimeNsec), uint64(x.btn)},
		{"Blocks", uint64(sb.Blocks), uint64(x.blocks)},
		{"MetaBlockAddr", uint64(sb.MetaBlockAddr), uint64(x.meta)},
		{"FeatureIncompat", uint64(sb.FeatureIncompat), 0},
		{"SuperBlock.BlockSize", uint64(sb.BlockSize()), 1 << x.bits},
		{"BlockAddrToOffset", uint64(sb.BlockAddrToOffset(1<<32 - 1)), (1<<32 - 1) << x.bits},
		{"MetaOffset", uint64(sb.MetaOffset()), uint64(x.meta) << x.bits},
		{"NidToOffset", uint64(sb.NidToOffset(1<<32 + 5)), uint64(x.meta)<<x.bits + 32*(1<<32+5)},
	} {
		if f.got != f.want {
			return fmt.Sprintf("%s is %d, want %d", f.name, f.got, f.want)
		}
	}
	if !bytes.Equal(sb.UUID[:], b[48:64]) || !bytes.Equal(sb.VolumeName[:], b[64:80]) {
		return "UUID or volume name of the superblock are not those of the image"
	}
	sb.BlockSizeBits, sb.RootNid, sb.Blocks = 30, 9, 1 // a copy
	if img.BlockSize() != 1<<x.bits || img.RootNid() != x.root || int64(img.Blocks()) != x.blocks {
		return "changing the copy of the superblock changes the image"
	}
	return ""
}

// errStops are the errors a callback may stop with.
var errStops = []error{errors.New("sim: the callback has had enough"), fs.SkipDir, fs.SkipAll, io.EOF, fs.ErrNotExist, io.ErrUnexpectedEOF, fs.ErrInvalid}

func fileTypeOf(k string) uint8 {
	return uint8(strings.IndexByte(" fdcbpsl", k[0]))
}

// lookup compares what Lookup says about a name of a directory.
func (c *imgRun) lookup(dir string, ino *erofs.Inode, name string) (uint64, error, string, bool) {
	d, err := ino.Lookup(name)
	i := sort.Search(len(c.kids[dir]), func(i int) bool { return c.kids[dir][i].name >= name })
	if i == len(c.kids[dir]) || c.kids[dir][i].name != name {
		if err == nil {
			return 0, nil, fmt.Sprintf("Lookup(%q) finds a node in %q that has no such entry", clipS(name, 60), dir), false
		}
		return 0, err, "", errors.Is(err, fs.ErrNotExist)
	}
	if err != nil {
		return 0, err, "", false
	}
	q := c.kids[dir][i].path
	if d.Nid != c.x.nids[q] {
		return 0, nil, fmt.Sprintf("Lookup(%q) in %q gives the number %d, want %d", name, dir, d.Nid, c.x.nids[q]), false
	}
	if d.FileType != fileTypeOf(c.x.inodes[q].n.K) {
		return 0, nil, fmt.Sprintf("Lookup(%q) in %q gives the type %d, want %d", name, dir, d.FileType, fileTypeOf(c.x.inodes[q].n.K)), false
	}
	return d.Nid, nil, "", false
}

func (c *imgRun) iter(op *Op, ino *erofs.Inode, fired func() bool) (error, string, bool) {
	want := c.kids[op.P]
	stopAt := -1
	if op.C == 1 {
		stopAt = int(op.A % int64(len(want)))
	}
	errStop := errStops[op.D%int64(len(errStops))]
	k, bad := 0, ""
	err := ino.IterDirents(func(name string, typ uint8, nid uint64) error {
		switch {
		case bad != "":
		case stopAt >= 0 && k > stopAt:
			bad = fmt.Sprintf("IterDirents of %q calls back again after an error", op.P)
		case k == len(want):
			bad = fmt.Sprintf("IterDirents of %q has the surplus entry %q", op.P, clipS(name, 60))
		case name != want[k].name:
			bad = fmt.Sprintf("entry %d of IterDirents of %q is %q, want %q", k, op.P, clipS(name, 60), want[k].name)
		case nid != c.x.nids[want[k].path] || typ != fileTypeOf(c.x.inodes[want[k].path].n.K):
			bad = fmt.Sprintf("IterDirents of %q gives %q the number %d and type %d, want %d and %d", op.P, name, nid, typ, c.x.nids[want[k].path], fileTypeOf(c.x.inodes[want[k].path].n.K))
		case op.C == 2 && (k%7 == 0 || len(want) < 20): // the image is used from the callback
			sub, err := c.img.Inode(nid)
			switch {
			case err != nil && !fired():
				bad = fmt.Sprintf("Inode(%d) from the callback of IterDirents fails: %v", nid, err)
			case err == nil:
				bad = c.wrongInode(want[k].path, &sub)
			}
			if bad == "" && err == nil {
				_, err, bad, _ = c.lookup(op.P, ino, name)
				if bad == "" && err != nil && !fired() {
					bad = fmt.Sprintf("Lookup(%q) from the callback of IterDirents fails: %v", name, err)
				}
			}
			if kids := c.kids[want[k].path]; bad == "" && err == nil && kids != nil && len(want)+len(kids) < 60 {
				i := 0
				err := sub.IterDirents(func(name string, _ uint8, _ uint64) error {
					if i >= len(kids) || name != kids[i].name {
						bad = fmt.Sprintf("entry %d of IterDirents of %q from the callback of IterDirents is %q", i, want[k].path, clipS(name, 60))
					}
					i++
					return nil
				})
				if bad == "" && err == nil && i != len(kids) {
					bad = fmt.Sprintf("IterDirents of %q from the callback of IterDirents ends after %d of %d entries", want[k].path, i, len(kids))
				}
				if bad == "" && err != nil && !fired() {
					bad = fmt.Sprintf("IterDirents of %q from the callback of IterDirents fails: %v", want[k].path, err)
				}
			}
		}
		k++
		if stopAt >= 0 && k > stopAt {
			return errStop
		}
		return nil
	})
	switch {
	case bad != "":
		return nil, bad, false
	case stopAt >= 0 && err == nil:
		return nil, fmt.Sprintf("IterDirents of %q swallows the error of its callback", op.P), false
	case stopAt >= 0 && errors.Is(err, errStop):
		return err, "", true
	case err == nil && k != len(want):
		return nil, fmt.Sprintf("IterDirents of %q ends after %d of %d entries without an error", op.P, k, len(want)), false
	}
	return err, "", false
}

// readerFile makes a reader look like a file.
type readerFile struct{ io.Reader }

func (readerFile) Close() error               { return nil }
func (readerFile) Stat() (fs.FileInfo, error) { return nil, fs.ErrInvalid }

func (c *imgRun) data(op *Op, ino *erofs.Inode) (error, string, bool) {
	e := c.x.inodes[op.P]
	if e.n.K == "d" {
		return nil, "", false
	}
	a, err := ino.Data()
	if err != nil {
		return err, "", false
	}
	if e.n.huge() {
		got := make([]byte, 70000)
		n, err := io.ReadFull(a, got)
		want := make([]byte, n)
		e.n.hugeAt(e.n.islands(), want, 0)
		if s := diffBytes(got[:n], want); s != "" {
			return nil, fmt.Sprintf("Data of %q: %s", op.P, s), false
		}
		return err, "", false
	}
	want := []byte(nil)
	switch e.n.K {
	case "f":
		want = e.n.Data()
	case "l":
		want = []byte(e.n.L)
	}
	// A second reader moves in between.
	var b io.Reader
	half := []byte(nil)
	if op.C > 0 {
		if b, err = ino.Data(); err != nil {
			return err, "", false
		}
		half = make([]byte, len(want)/int(op.C+1))
		n, err := io.ReadFull(b, half)
		if s := diffBytes(half[:n], want[:n]); s != "" {
			return nil, fmt.Sprintf("Data of %q: %s", op.P, s), false
		}
		if err != nil && len(half) > 0 {
			return err, "", false
		}
	}
	for i, r := range []io.Reader{a, b} {
		if r == nil {
			continue
		}
		rest := want
		if i == 1 {
			rest = want[len(half):]
		}
		data, err, bad := readAll(readerFile{r}, uint64(op.A)+uint64(i), int64(len(rest))+1<<20)
		if bad != "" {
			return err, fmt.Sprintf("Data of %q: %s", op.P, bad), false
		}
		if err != nil {
			if len(data) > len(rest) || !bytes.Equal(data, rest[:len(data)]) {
				return err, fmt.Sprintf("Data of %q: wrong bytes before error %v", op.P, err), false
			}
			return err, "", false
		}
		if s := diffBytes(data, rest); s != "" {
			return nil, fmt.Sprintf("Data of %q: clean end but %s", op.P, s), false
		}
	}
	return nil, "", false
}

func (c *imgRun) do(op *Op, fired func() bool) (error, string, bool) {
	switch op.K {
	case "super":
		return nil, c.wrongSuper(c.img), false
	case "nid": // no such inode in most cases: any answer but a crash
		ino, err := c.img.Inode(uint64(op.A))
		if err == nil && ino.Nid() != uint64(op.A) {
			return nil, fmt.Sprintf("Inode(%d) has the number %d", uint64(op.A), ino.Nid()), false
		}
		return err, "", true
	case "walk":
		q := "."
		nid := c.img.RootNid()
		for _, s := range split(op.P) {
			ino, err := c.img.Inode(nid)
			if err != nil {
				return err, "", false
			}
			next, err, bad, _ := c.lookup(q, &ino, s)
			if err != nil || bad != "" {
				return err, bad, false
			}
			nid, q = next, path.Join(q, s)
		}
		ino, err := c.img.Inode(nid)
		if err != nil {
			return err, "", false
		}
		return nil, c.wrongInode(op.P, &ino), false
	}
	ino, err := c.inode(op.P, op.B)
	if err != nil {
		return err, "", false
	}
	n := c.x.inodes[op.P].n
	switch op.K {
	case "inode":
		return nil, c.wrongInode(op.P, ino), false
	case "iter":
		return c.iter(op, ino, fired)
	case "lookup":
		_, err, bad, expected := c.lookup(op.P, ino, op.S)
		return err, bad, expected
	case "data":
		return c.data(op, ino)
	case "link":
		if n.K != "l" {
			break
		}
		t, err := ino.Readlink()
		if err == nil && t != n.L {
			return nil, fmt.Sprintf("Readlink of %q is %q, want %q", op.P, clipS(t, 80), clipS(n.L, 80)), false
		}
		return err, "", false
	}
	// "wrong", or a link operation on something else.
	for _, name := range []string{"Readlink", "Lookup", "IterDirents"} {
		if n.K == "l" && name == "Readlink" || n.K == "d" && name != "Readlink" {
			continue
		}
		var err error
		switch name {
		case "Readlink":
			_, err = ino.Readlink()
		case "Lookup":
			_, err = ino.Lookup("x")
		default:
			err = ino.IterDirents(func(string, uint8, uint64) error { return nil })
		}
		if !errors.Is(err, fs.ErrInvalid) {
			return nil, fmt.Sprintf("%s of %q, of kind %s, gives the error %v", name, op.P, n.K, err), false
		}
	}
	return nil, "", false
}

func execC25(p *Plan, o *Outcome) {
	data, m, refuse, info := buildErofs1(p)
	if data == nil {
		return
	}
	tasks := int(p.Kv("tasks", 1))
	env := NewEnv(p, tasks)
	disk := data.disk(env)
	o.note(data.hash())
	c := &imgRun{m: m, x: info, shared: map[string]*erofs.Inode{}, kids: map[string][]imgEnt{}}
	for q, e := range info.inodes {
		if e.n.K != "d" {
			continue
		}
		l := []imgEnt{{".", q}, {"..", path.Dir(q)}}
		for _, k := range m.kids[q] {
			l = append(l, imgEnt{k, path.Join(q, k)})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
		c.kids[q] = l
	}
	var setup string
	runOne(p, o, 0, func() {
		for try := 0; ; try++ {
			from := simrt.Seq()
			img, err := erofs.OpenImage(disk)
			fired := env.firedIn(self(), from, 1<<62)
			switch {
			case refuse != "" && err == nil:
				setup = "OpenImage reports no error although " + refuse
				return
			case refuse != "":
				return
			case err == nil && img == nil:
				setup = "OpenImage returns neither an image nor an error"
				return
			case err == nil:
				c.img = img
				return
			case img != nil:
				setup = fmt.Sprintf("OpenImage returns an image and the error %v", err)
				return
			case !fired:
				setup = fmt.Sprintf("OpenImage of a well-formed image fails although storage does not: %v", err)
				return
			case try > 200:
				return
			}
		}
	})
	if o.Class != "" {
		return
	}
	if setup != "" {
		o.fail("wrong-open", "%s", setup)
		return
	}
	if refuse != "" {
		o.probe("refused: " + strings.SplitN(refuse, ":", 2)[0])
		return
	}
	if c.img == nil {
		env.countFired(o)
		return
	}
	// Inodes that the tasks share, fetched while storage works.
	env.off = true
	for _, q := range sortedKeys(info.inodes) {
		if len(c.shared) > 40 {
			break
		}
		aside(func() {
			if ino, err := c.img.Inode(info.nids[q]); err == nil {
				c.shared[q] = &ino
			} else {
				setup = fmt.Sprintf("Inode of %q fails: %v", q, err)
			}
		})
	}
	if setup != "" {
		o.fail("spurious-error", "%s", setup)
		return
	}
	env.off = false
	logs := make([]taskLog, tasks)
	var fns []func()
	for t := 0; t < tasks; t++ {
		var ops []Op
		for _, op := range p.Ops {
			if _, ok := info.nids[op.P]; ok && op.T == t {
				ops = append(ops, op)
			}
		}
		fns = append(fns, func() {
			for i := range ops {
				op := &ops[i]
				logs[t].judgeCall(env, op, func(fired func() bool) (error, string, bool) { return c.do(op, fired) })
			}
		})
	}
	runTasks(p, o, 0, fns...)
	env.countFired(o)
	o.take(logs)
	o.Nontrivial = len(p.Nodes) > 0
	if env.anyFired() {
		o.probe("storage failed")
	}
	if o.Class != "" {
		return
	}
	// Storage works again: every node, through every call.
	env.off = true
	last := make([]taskLog, 1)
	runOne(p, o, 0, func() {
		for k, q := range sortedKeys(info.inodes) {
			for _, kind := range []string{"walk", "iter", "data", "link", "wrong"} {
				if kind == "iter" && info.inodes[q].n.K != "d" || k > 60 && kind != "iter" {
					continue
				}
				op := &Op{K: kind, P: q, A: int64(k), C: 3}
				last[0].judgeCall(env, op, func(fired func() bool) (error, string, bool) { return c.do(op, fired) })
			}
		}
		if s := c.wrongSuper(c.img); s != "" {
			last[0].fail("wrong-result", "%s", s)
		}
	})
	o.take(last)
}

func init() {
	register(&Prop{ID: "C25", Log: true, Race: true, Quick: 3500, Thorough: 150000, Real: []string{"erofs (reader, image API)"}, Stub: []string{"archive storage (io.ReaderAt)", "archive writers of other tools (harness)", "scheduler, map iteration order"},
		Faults: []string{"read errors", "damaged superblock"},
		Rule:   "a random image of the independent builder, one to three goroutines that share the Image and some of its Inodes and make up to eight calls each (accessors, Lookup of present, near and impossible names, IterDirents whole, stopped and re-entered, two Data readers, Readlink, calls on the wrong kind, arbitrary numbers), then every node through every call; derived executions with read errors; non-trivial: at least one node besides the root",
		Gen:    genC25, Derive: deriveDisk(2), Exec: execC25})
}
