package h

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"
	"verif.local/sim/simrt"
)

// openFmt opens archive storage with the library.
func openFmt(format string, ra io.ReaderAt) (f fs.FS, err error) {
	aside(func() { f, err = open1(format, ra) })
	return
}

func open1(format string, ra io.ReaderAt) (fs.FS, error) {
	switch format {
	case "tar":
		f, err := tarfs.Open(ra)
		if err != nil {
			return nil, err
		}
		return f, nil
	case "ar":
		f, err := arfs.Open(ra)
		if err != nil {
			return nil, err
		}
		return f, nil
	case "erofs":
		f, err := erofs.Open(ra)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
	panic("format " + format)
}

// createFmt writes an archive with the library.
func createFmt(format string, st *Store, seq bool, src fs.FS) error {
	if st.rich {
		w := richWriter{Writer{st}}
		switch {
		case format == "erofs":
			return erofs.Create(w, src)
		case format == "ar" && seq:
			return arfs.Create(richSeq{w}, src)
		case format == "ar":
			return arfs.Create(w, src)
		case seq:
			return tarfs.Create(richSeq{w}, src)
		}
		return tarfs.Create(w, src)
	}
	switch format {
	case "tar":
		if seq {
			return tarfs.Create(seqWriter{Writer{st}}, src)
		}
		return tarfs.Create(Writer{st}, src)
	case "ar":
		if seq {
			return arfs.Create(seqWriter{Writer{st}}, src)
		}
		return arfs.Create(Writer{st}, src)
	case "erofs":
		return erofs.Create(st, src)
	}
	panic("format " + format)
}

// Exp says how a node of the model shows in a filesystem.
type Exp struct {
	Format string // tar, ar, erofs, mem
	Owner  bool   // the source exposed owners
	NoTime bool   // times are not compared
	NoMode bool   // modes of directories are not compared
	Root   bool   // the root keeps its metadata
	Odd    bool   // some nodes are stored in ways the library does not support
}

const zeroTimeSec = -62135596800

func ownerOf(fi fs.FileInfo) (int64, int64, bool) {
	switch s := fi.Sys().(type) {
	case *tar.Header:
		return int64(s.Uid), int64(s.Gid), true
	case *arfs.Entry:
		return s.Uid, s.Gid, true
	case *erofs.Inode:
		return int64(s.UID()), int64(s.GID()), true
	}
	return 0, 0, false
}

// cmpInfo compares file information with the model, "" = equal.
func (x Exp) cmpInfo(n *Node, fi fs.FileInfo, root bool) string {
	if fi == nil {
		return "nil FileInfo"
	}
	m := fi.Mode()
	if k := modeKind(m); k != n.K {
		return fmt.Sprintf("kind is %s, want %s", k, n.K)
	}
	if fi.IsDir() != (n.K == "d") {
		return fmt.Sprintf("IsDir is %v for kind %s", fi.IsDir(), n.K)
	}
	if root && !x.Root {
		return ""
	}
	if got, want := m&permBits, fs.FileMode(n.M)&permBits; got != want && !(x.NoMode && n.K == "d") {
		return fmt.Sprintf("mode is %v, want %v", m, n.Mode())
	}
	switch n.K {
	case "f":
		if fi.Size() != n.S {
			return fmt.Sprintf("size is %d, want %d", fi.Size(), n.S)
		}
	}
	if !x.NoTime {
		if s := x.cmpTime(n, fi.ModTime()); s != "" {
			return s
		}
	}
	if x.Format == "sec" {
		return ""
	}
	if u, g, ok := ownerOf(fi); ok && x.Format != "mem" {
		wu, wg := n.U, n.G
		if !x.Owner {
			wu, wg = 0, 0
		}
		if u != wu || g != wg {
			return fmt.Sprintf("owner is %d:%d, want %d:%d", u, g, wu, wg)
		}
	} else if x.Owner && x.Format != "mem" {
		return fmt.Sprintf("no owner: Sys is %T", fi.Sys())
	}
	return ""
}

func (x Exp) cmpTime(n *Node, t time.Time) string {
	sec, nsec := t.Unix(), int64(t.Nanosecond())
	bad := func() string {
		return fmt.Sprintf("modification time is %d.%09d, want %d.%09d (unset: %v)", sec, nsec, n.T, n.TN, n.TZ)
	}
	if n.TZ {
		if (sec == 0 || sec == zeroTimeSec) && nsec == 0 {
			return ""
		}
		return bad()
	}
	switch x.Format {
	case "tar": // rounded or truncated to the second
		if sec == n.T && (nsec == 0 || nsec == n.TN) || n.TN != 0 && sec == n.T+1 && nsec == 0 {
			return ""
		}
		return bad()
	case "ar":
		if sec == n.T || n.TN != 0 && sec == n.T+1 {
			return ""
		}
		return bad()
	case "sec": // chains of conversions
		if sec == n.T || n.TN != 0 && sec == n.T+1 {
			return ""
		}
		return bad()
	case "erofs":
		if sec == n.T && nsec == n.TN {
			return ""
		}
		return bad()
	}
	return ""
}

// readFile opens and reads a file in chunks chosen by seed.  It returns what was
// delivered, the error that ended the reading (nil at a clean end of file) and a
// protocol complaint.
func readAll(f fs.File, seed uint64, max int64) (data []byte, err error, bad string) {
	r := NewRng(seed, 0x7ead)
	mode := r.Intn(4)
	zero := 0
	for {
		k := 4096
		switch mode {
		case 0:
			k = 1 + r.Intn(16)
		case 1:
			k = 1 + r.Intn(2000)
		case 2:
			k = 100000
		}
		if int64(len(data)) > 65536 {
			k = 65536
		}
		if r.P(1, 40) {
			k = 0
		}
		buf := make([]byte, k)
		n, e := f.Read(buf)
		if n < 0 || n > len(buf) {
			return data, e, fmt.Sprintf("Read returned n=%d for %d bytes", n, len(buf))
		}
		data = append(data, buf[:n]...)
		if e == io.EOF {
			// the end must stay the end
			if n2, e2 := f.Read(make([]byte, 8)); n2 != 0 || e2 == nil {
				return data, nil, fmt.Sprintf("Read after the end of the file returned %d bytes and error %v", n2, e2)
			}
			return data, nil, ""
		}
		if e != nil {
			return data, e, ""
		}
		if n == 0 && k > 0 {
			if zero++; zero > 100 {
				return data, nil, "Read makes no progress"
			}
		} else {
			zero = 0
		}
		if max > 0 && int64(len(data)) > max {
			return data, nil, "file has no end"
		}
	}
}

// checkHuge reads a huge file from the start to the end.
func checkHuge(h fs.File, n *Node, seed uint64) string {
	isl := n.islands()
	k := int(Pick[int64](NewRng(seed, 0x46e), 1<<15, 1<<17, 100000, 1<<20))
	got, want := make([]byte, k), make([]byte, k)
	for off := int64(0); ; {
		g, err := h.Read(got)
		if off+int64(g) > n.S {
			return fmt.Sprintf("more than the %d bytes of the file are delivered", n.S)
		}
		n.hugeAt(isl, want[:g], off)
		if !bytes.Equal(got[:g], want[:g]) {
			return fmt.Sprintf("huge file of %d bytes, from %d: %s", n.S, off, diffBytes(got[:g], want[:g]))
		}
		if off += int64(g); err == io.EOF {
			if off != n.S {
				return fmt.Sprintf("clean end of file after %d of %d bytes", off, n.S)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("Read: %v after %d bytes", err, off)
		}
		if g == 0 {
			return fmt.Sprintf("Read makes no progress after %d bytes", off)
		}
	}
}

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("content differs at byte %d (got %d bytes, want %d)", i, len(got), len(want))
}

// linkFS of a filesystem, if it has one.
func linkFS(f fs.FS) archivefs.ReadLinkFS {
	l, _ := f.(archivefs.ReadLinkFS)
	return l
}

func entryNames(l []fs.DirEntry) []string {
	var s []string
	for _, e := range l {
		s = append(s, e.Name())
	}
	return s
}

// checkTree walks the whole filesystem and compares it with the model: the first
// error or difference is returned.  Every name is looked up in every way there is.
func checkTree(f fs.FS, m *Model, x Exp, seed uint64) (s string) {
	aside(func() { s = checkTree1(f, m, x, seed) })
	return
}

func checkTree1(f fs.FS, m *Model, x Exp, seed uint64) string {
	var walk func(p string) string
	walk = func(p string) string {
		l, err := fs.ReadDir(f, p)
		if err != nil {
			return fmt.Sprintf("ReadDir(%q): %v", p, err)
		}
		want := m.kids[p]
		got := entryNames(l)
		if !sort.StringsAreSorted(got) {
			return fmt.Sprintf("ReadDir(%q) is not sorted: %q", p, got)
		}
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			return fmt.Sprintf("ReadDir(%q) lists %q, want %q", p, clip(got), clip(want))
		}
		for i, e := range l {
			full := path.Join(p, want[i])
			n := m.N[full]
			if s := checkNode(f, m, n, e, x, Mix(seed, uint64(i), HashStr(p))); s != "" {
				return fmt.Sprintf("%q: %s", full, s)
			}
			if n.K == "d" {
				if s := walk(full); s != "" {
					return s
				}
			} else if n.K == "f" {
				if _, err := fs.ReadDir(f, full); err == nil {
					return fmt.Sprintf("%q: a file can be listed", full)
				}
			}
		}
		return ""
	}
	fi, err := fs.Stat(f, ".")
	if err != nil {
		return fmt.Sprintf("Stat(.): %v", err)
	}
	if s := x.cmpInfo(m.N["."], fi, true); s != "" {
		return "root: " + s
	}
	return walk(".")
}

func clip(l []string) []string {
	if len(l) > 40 {
		return append(append([]string{}, l[:40]...), fmt.Sprintf("... %d more", len(l)-40))
	}
	return l
}

func checkNode(f fs.FS, m *Model, n *Node, e fs.DirEntry, x Exp, seed uint64) string {
	if e.IsDir() != (n.K == "d") {
		return fmt.Sprintf("entry: IsDir is %v", e.IsDir())
	}
	if k := modeKind(e.Type()); k != n.K {
		return fmt.Sprintf("entry: kind is %s, want %s", k, n.K)
	}
	// A node that is stored in an unsupported way fails to open, or is right; what
	// links lead to may be such a node.
	odd, lenient := n.odd(), n.odd() || x.Odd && n.K == "l"
	fi, err := e.Info()
	if err != nil && odd {
		return checkOdd(f, n)
	}
	if err != nil {
		return fmt.Sprintf("entry: Info: %v", err)
	}
	if fi.Name() != path.Base(n.P) {
		return fmt.Sprintf("entry: Info().Name() is %q", fi.Name())
	}
	if s := x.cmpInfo(n, fi, false); s != "" {
		return "entry: " + s
	}
	if lf := linkFS(f); lf != nil {
		fi, err := lf.StatLink(n.P)
		if err != nil && odd {
			return checkOdd(f, n)
		}
		if err != nil {
			return fmt.Sprintf("StatLink: %v", err)
		}
		if s := x.cmpInfo(n, fi, false); s != "" {
			return "StatLink: " + s
		}
		if fi.Name() != path.Base(n.P) {
			return fmt.Sprintf("StatLink: name is %q", fi.Name())
		}
		t, err := lf.ReadLink(n.P)
		if n.K == "l" {
			if err != nil && odd {
				return checkOdd(f, n)
			}
			if err != nil {
				return fmt.Sprintf("ReadLink: %v", err)
			}
			if t != n.L {
				return fmt.Sprintf("ReadLink is %q, want %q", t, n.L)
			}
		} else if err == nil {
			return fmt.Sprintf("ReadLink of what is no link returned %q", t)
		}
	} else if n.K == "l" {
		return "symlink in a filesystem without links"
	}
	res := m.Resolve(n.P, true)
	fi, err = fs.Stat(f, n.P)
	if err != nil && (res.Links > maxLinks || lenient) {
		return ""
	}
	if res.Node == nil {
		if err == nil {
			return "Stat of a dangling or cyclic link succeeded"
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("Stat: %v", err)
	}
	if s := x.cmpInfo(res.Node, fi, res.Node.P == "."); s != "" {
		return "Stat: " + s
	}
	h, err := f.Open(n.P)
	if err != nil && lenient {
		return ""
	}
	if err != nil {
		return fmt.Sprintf("Open: %v", err)
	}
	fi, err = h.Stat()
	if err != nil && lenient {
		return ""
	}
	if err != nil {
		return fmt.Sprintf("File.Stat: %v", err)
	}
	if s := x.cmpInfo(res.Node, fi, res.Node.P == "."); s != "" {
		return "File.Stat: " + s
	}
	if res.Node.huge() {
		if s := checkHuge(h, res.Node, seed); s != "" {
			return s
		}
	} else if res.Node.K == "f" {
		data, err, bad := readAll(h, seed, res.Node.S+1<<20)
		if bad != "" {
			return bad
		}
		if err != nil && lenient {
			if !bytes.HasPrefix(res.Node.Data(), data) {
				return fmt.Sprintf("Read: %d wrong bytes before it fails", len(data))
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("Read: %v after %d bytes", err, len(data))
		}
		if s := diffBytes(data, res.Node.Data()); s != "" {
			return s
		}
		if fi, err = h.Stat(); err != nil {
			return fmt.Sprintf("File.Stat after reading: %v", err)
		} else if s := x.cmpInfo(res.Node, fi, false); s != "" {
			return "File.Stat after reading: " + s
		}
	}
	if err := h.Close(); err != nil {
		return fmt.Sprintf("Close: %v", err)
	}
	return ""
}

// odd reports whether a node is stored in a way the library does not support: with
// extended attributes, compressed or in chunks.
func (n *Node) odd() bool { return len(n.F) == 3 && (n.F[0] == 'x' || n.F[0] == 'c') }

// checkOdd checks that a node whose metadata cannot be had has no data either, or
// the right data.
func checkOdd(f fs.FS, n *Node) string {
	if n.K != "f" {
		return ""
	}
	data, err := fs.ReadFile(f, n.P)
	if err == nil && !bytes.Equal(data, n.Data()) || !bytes.HasPrefix(n.Data(), data) {
		return fmt.Sprintf("reading it gives %d wrong bytes", len(data))
	}
	return ""
}

// maxLinks is how many symlinks every resolver must follow.
const maxLinks = 32

// doOp performs one reader call and judges it: err is the error of the call (or
// of a later part of it), bad a wrong result.  Whether an error is acceptable is
// for the caller to decide; an error where the model expects one is returned as
// expected=true.
func doOp(f fs.FS, m *Model, x Exp, op *Op, entries []fs.DirEntry, fired func() bool) (err error, bad string, expected bool) {
	want := func(follow bool) Res { return m.Resolve(op.P, follow) }
	errOK := func(r Res, err error) (error, string, bool) {
		if err == nil {
			return nil, fmt.Sprintf("%s(%q) succeeded on a path that does not resolve", op.K, op.P), false
		}
		if x.Format == "ar" && op.K == "readdir" {
			return err, "", true // there are no directories whatever the name
		}
		if r.NoEnt && r.Links <= maxLinks && !errors.Is(err, fs.ErrNotExist) && !fired() {
			return err, fmt.Sprintf("%s(%q) of a missing name reports %q, not fs.ErrNotExist", op.K, op.P, err), true
		}
		return err, "", true
	}
	kind := op.K
	if x.Format == "ar" && kind == "read" && op.P == "." {
		kind = "stat" // flat: the root can be listed but not opened
	}
	switch kind {
	case "stat", "lstat":
		follow := kind == "stat"
		r := want(follow)
		var fi fs.FileInfo
		if follow {
			fi, err = fs.Stat(f, op.P)
		} else {
			lf := linkFS(f)
			if lf == nil {
				return nil, "", true
			}
			fi, err = lf.StatLink(op.P)
		}
		if r.Node == nil {
			return errOK(r, err)
		}
		if err != nil {
			return err, "", r.Links > maxLinks
		}
		if s := x.cmpInfo(r.Node, fi, r.Node.P == "."); s != "" {
			return nil, fmt.Sprintf("%s(%q): %s", op.K, op.P, s), false
		}
	case "readlink":
		lf := linkFS(f)
		if lf == nil {
			return nil, "", true
		}
		r := want(false)
		t, err := lf.ReadLink(op.P)
		if r.Node == nil {
			return errOK(r, err)
		}
		if r.Node.K != "l" {
			if err == nil {
				return nil, fmt.Sprintf("ReadLink(%q) of what is no link returned %q", op.P, t), false
			}
			return err, "", true
		}
		if err != nil {
			return err, "", r.Links > maxLinks
		}
		if t != r.Node.L {
			return nil, fmt.Sprintf("ReadLink(%q) is %q, want %q", op.P, t, r.Node.L), false
		}
	case "readdir":
		r := want(true)
		l, err := fs.ReadDir(f, op.P)
		if r.Node == nil {
			return errOK(r, err)
		}
		if r.Node.K != "d" {
			if err == nil {
				return nil, fmt.Sprintf("ReadDir(%q) of what is no directory returned %q", op.P, entryNames(l)), false
			}
			return err, "", true
		}
		if err != nil {
			return err, "", r.Links > maxLinks
		}
		got, exp := entryNames(l), m.kids[r.Node.P]
		if strings.Join(got, "\x00") != strings.Join(exp, "\x00") {
			return nil, fmt.Sprintf("ReadDir(%q) lists %q, want %q", op.P, clip(got), clip(exp)), false
		}
		for i, e := range l {
			if op.A != 0 && i >= int(op.A) {
				break
			}
			er, bad := doEntry(e, m.N[path.Join(r.Node.P, exp[i])], x)
			if bad != "" || er != nil {
				return er, bad, false
			}
		}
	case "entry":
		if len(entries) == 0 {
			return nil, "", true
		}
		e := entries[int(op.A)%len(entries)].(*sharedEntry)
		er, bad := doEntry(e.DirEntry, m.N[e.path], x)
		return er, bad, false
	case "read":
		r := want(true)
		if op.A%5 == 0 && r.Node != nil && r.Node.K == "f" && r.Node.S < 1<<22 {
			// everything at once; what comes back belongs to the caller
			data, err := fs.ReadFile(f, op.P)
			exp := r.Node.Data()
			if err != nil {
				if len(data) > len(exp) || !bytes.Equal(data, exp[:len(data)]) {
					return err, fmt.Sprintf("ReadFile(%q): wrong bytes before error %v: %s", op.P, err, diffBytes(data, exp)), false
				}
				return err, "", r.Links > maxLinks
			}
			if s := diffBytes(data, exp); s != "" {
				return nil, fmt.Sprintf("ReadFile(%q): no error but %s", op.P, s), false
			}
			clobber(data)
			return nil, "", false
		}
		h, err := f.Open(op.P)
		if r.Node == nil {
			if err == nil {
				h.Close()
			}
			return errOK(r, err)
		}
		if err != nil {
			return err, "", r.Links > maxLinks
		}
		return doRead(h, r.Node, x, op)
	default:
		panic("op " + op.K)
	}
	return nil, "", false
}

// clobber overwrites what ReadFile returned: the caller is permitted to, and
// nobody else may see it.
func clobber(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

type sharedEntry struct {
	fs.DirEntry
	path string
}

func doEntry(e fs.DirEntry, n *Node, x Exp) (error, string) {
	if n == nil {
		return nil, "entry outside of the model"
	}
	if e.IsDir() != (n.K == "d") {
		return nil, fmt.Sprintf("entry %q: IsDir is %v", n.P, e.IsDir())
	}
	if k := modeKind(e.Type()); k != n.K {
		return nil, fmt.Sprintf("entry %q: Type says %s, want %s", n.P, k, n.K)
	}
	fi, err := e.Info()
	if err != nil {
		return err, ""
	}
	if s := x.cmpInfo(n, fi, false); s != "" {
		return nil, fmt.Sprintf("entry %q: %s", n.P, s)
	}
	return nil, ""
}

func doRead(h fs.File, n *Node, x Exp, op *Op) (err error, bad string, expected bool) {
	defer func() {
		if e := h.Close(); e != nil && err == nil && bad == "" {
			err = e
		}
	}()
	var serr error
	fi, err := h.Stat()
	if err != nil {
		serr = err
	} else if s := x.cmpInfo(n, fi, n.P == "."); s != "" {
		return nil, fmt.Sprintf("File.Stat(%q): %s", op.P, s), false
	}
	if n.K != "f" {
		return serr, "", false
	}
	data, err, bad := readAll(h, uint64(op.A), n.S+1<<20)
	if bad != "" {
		return err, fmt.Sprintf("%q: %s", op.P, bad), false
	}
	exp := n.Data()
	if err != nil {
		if len(data) > len(exp) || !bytes.Equal(data, exp[:len(data)]) {
			return err, fmt.Sprintf("%q: wrong bytes before error %v: %s", op.P, err, diffBytes(data, exp)), false
		}
		return err, "", false
	}
	if s := diffBytes(data, exp); s != "" {
		return nil, fmt.Sprintf("%q: clean end of file but %s", op.P, s), false
	}
	return serr, "", false
}

// fill puts a tree into a memfs (times, owners and links do not exist there).
func fillMem(nodes []Node) (f *memfs.FS, err error) {
	aside(func() { f, err = fill1(nodes) })
	return
}

func fill1(nodes []Node) (*memfs.FS, error) {
	f := memfs.New()
	for i := range nodes {
		n := &nodes[i]
		var err error
		switch n.K {
		case "d":
			err = f.MkdirAll(n.P, fs.FileMode(n.M))
		case "f":
			err = f.WriteFile(n.P, n.Data(), fs.FileMode(n.M))
		}
		if err != nil {
			return nil, err
		}
	}
	return f, nil
}

// collect the shared directory entries of a filesystem.
func collectEntries(f fs.FS, m *Model) (l []fs.DirEntry, err error) {
	aside(func() { l, err = collect1(f, m) })
	return
}

func collect1(f fs.FS, m *Model) ([]fs.DirEntry, error) {
	var out []fs.DirEntry
	var walk func(p string) error
	walk = func(p string) error {
		l, err := fs.ReadDir(f, p)
		if err != nil {
			return err
		}
		for _, e := range l {
			full := path.Join(p, e.Name())
			n := m.N[full]
			if n == nil {
				return fmt.Errorf("unexpected entry %q", full)
			}
			out = append(out, &sharedEntry{e, full})
			if n.K == "d" {
				if err := walk(full); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return out, walk(".")
}

// asideFail carries what went wrong in a call made aside.
type asideFail struct{ class, msg string }

// aside makes calls of the library that are not part of a simulated history, as
// the only task of a simulation of their own: code that locks, starts goroutines
// or communicates works there too.
func aside(f func()) {
	if simrt.Active() {
		f()
		return
	}
	const budget = 1 << 32
	r := simrt.Run(simrt.Config{MaxSteps: budget}, f)
	switch {
	case len(r.Panics) > 0:
		panic(asideFail{"panic", fmt.Sprintf("panic outside of the simulation: %s\n%s", r.Panics[0].Value, trimStack(r.Panics[0].Stack))})
	case len(r.Deadlock) > 0:
		panic(asideFail{"deadlock", "a single task is blocked for ever"})
	case r.OverBudget:
		panic(asideFail{"hang", fmt.Sprintf("a single call did not finish within %d steps", int64(budget))})
	}
}

// runOne executes f as the only task of a simulation.
func runOne(p *Plan, o *Outcome, maxAlloc int64, f func()) *simrt.Result {
	return runTasks(p, o, maxAlloc, f)
}

// fairSteps bounds the steps of a run: what reasonable code never needs for the
// nodes of the plan and their content.
func fairSteps(p *Plan) int64 {
	n := 30_000_000 + 2_000_000*int64(len(p.Nodes))
	for i := range p.Nodes {
		n += min(max(p.Nodes[i].S, 0)/64, 200_000_000)
	}
	return min(n, 2_000_000_000)
}

func runTasks(p *Plan, o *Outcome, maxAlloc int64, fs ...func()) *simrt.Result {
	cfg := simrt.Config{
		Seed: p.Seed ^ uint64(len(o.Sched))*0x9e37, Mean: p.Mean, Replay: p.Replay,
		MaxSteps: p.Kv("maxsteps", fairSteps(p)), MapSeed: p.Seed ^ uint64(p.Kv("mapseed", 0)), MaxAlloc: maxAlloc,
		Clock: time.Unix(1_700_000_000+int64(p.Seed%1_000_000_000), 0),
	}
	if k := len(o.Sched); k < len(p.Sched) {
		cfg.Sched = p.Sched[k]
	}
	r := simrt.Run(cfg, fs...)
	o.Steps += r.Steps
	o.SimNs += int64(r.SimTime)
	o.Preempts += r.Preempts
	o.Sched = append(o.Sched, r.Sched)
	o.Ilv = Mix(o.Ilv, r.Hash)
	o.note(r.Hash, uint64(r.Steps))
	switch {
	case len(r.Panics) > 0:
		o.fail("panic", "panic in task %d: %s\n%s", r.Panics[0].Task, r.Panics[0].Value, trimStack(r.Panics[0].Stack))
	case len(r.Deadlock) > 0:
		o.fail("deadlock", "tasks %v are blocked for ever", r.Deadlock)
	case r.AllocBytes != 0:
		o.fail("memory", "allocation of %d elements", r.AllocBytes)
	case r.OverBudget:
		o.fail("hang", "task %d did not finish within %d steps", r.BudgetTask, cfg.MaxSteps)
	}
	return r
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for i, x := range l {
		if strings.Contains(x, "archivefs") && !strings.HasPrefix(x, "\t") {
			out = append(out, x)
			if i+1 < len(l) {
				out = append(out, l[i+1])
			}
		}
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return strings.Join(out, "\n")
}
