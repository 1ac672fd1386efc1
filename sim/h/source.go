package h

import (
	"archive/tar"
	"io"
	"io/fs"
	"path"
	"sort"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs"
	"verif.local/sim/simrt"
)

// Source is a filesystem handed to Create: every call is a seam.
type Source struct {
	env   *Env
	m     *Model
	nodes map[string]*Node
	sys   int // what FileInfo.Sys returns: 0 nothing, 1 *tar.Header, 2 *syscall.Stat_t

	Opened, Closed, DoubleClosed, UsedAfterClose int
	Open_, MaxOpen                               int
	ReadBytes                                    int64
	Grew, Shrunk                                 bool // a file of another size was delivered
	unsorted                                     bool
	lostOpen                                     map[string]bool // files that could not be opened, and were not later
}

func NewSource(env *Env, m *Model, sys int) *Source {
	return &Source{env: env, m: m, nodes: m.N, sys: sys}
}

// View of the source with the optional interfaces of the given variant:
// 0 everything, 1 fs.FS and links only, 2 everything but links, 3 fs.FS only.
func (s *Source) FS(variant int64) fs.FS {
	switch variant {
	case 1:
		return srcLink{s}
	case 2:
		return srcNoLink{s}
	case 3:
		return srcMin{s}
	}
	return srcFull{s}
}

type srcMin struct{ s *Source }
type srcLink struct{ s *Source }
type srcNoLink struct{ s *Source }
type srcFull struct{ s *Source }

var _ archivefs.ReadLinkFS = srcFull{}

func (x srcMin) Open(n string) (fs.File, error)             { return x.s.open(n) }
func (x srcLink) Open(n string) (fs.File, error)            { return x.s.open(n) }
func (x srcNoLink) Open(n string) (fs.File, error)          { return x.s.open(n) }
func (x srcFull) Open(n string) (fs.File, error)            { return x.s.open(n) }
func (x srcLink) ReadLink(n string) (string, error)         { return x.s.readlink(n) }
func (x srcLink) StatLink(n string) (fs.FileInfo, error)    { return x.s.stat(n) }
func (x srcFull) ReadLink(n string) (string, error)         { return x.s.readlink(n) }
func (x srcFull) StatLink(n string) (fs.FileInfo, error)    { return x.s.stat(n) }
func (x srcFull) ReadDir(n string) ([]fs.DirEntry, error)   { return x.s.readdir(n) }
func (x srcNoLink) ReadDir(n string) ([]fs.DirEntry, error) { return x.s.readdir(n) }
func (x srcFull) Stat(n string) (fs.FileInfo, error)        { return x.s.stat(n) }
func (x srcNoLink) Stat(n string) (fs.FileInfo, error)      { return x.s.stat(n) }
func (s *Source) pathErr(op, p string, err error) *fs.PathError {
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func (s *Source) node(op, p string) (*Node, error) {
	if !fs.ValidPath(p) {
		return nil, s.pathErr(op, p, fs.ErrInvalid)
	}
	n := s.nodes[p]
	if n == nil {
		return nil, s.pathErr(op, p, fs.ErrNotExist)
	}
	return n, nil
}

func (s *Source) fault(seam int) (*Fault, uint64) {
	simrt.Point()
	f, q := s.env.hit(seam)
	s.env.latency(q)
	return f, q
}

func (s *Source) stat(p string) (fs.FileInfo, error) {
	f, _ := s.fault(SeamStat)
	n, err := s.node("stat", p)
	if err != nil {
		return nil, err
	}
	if f != nil {
		s.env.fire(SeamStat, f)
		return nil, s.pathErr("stat", p, f.err())
	}
	return s.info(n, path.Base(p)), nil
}

func (s *Source) readlink(p string) (string, error) {
	f, _ := s.fault(SeamReadLink)
	n, err := s.node("readlink", p)
	if err != nil {
		return "", err
	}
	if f != nil {
		s.env.fire(SeamReadLink, f)
		return "", s.pathErr("readlink", p, f.err())
	}
	if n.K != "l" {
		return "", s.pathErr("readlink", p, fs.ErrInvalid)
	}
	return n.L, nil
}

func (s *Source) list(p string) []fs.DirEntry {
	var l []fs.DirEntry
	names := s.m.kids[p]
	if s.unsorted {
		names = append([]string(nil), names...)
		sort.Slice(names, func(i, j int) bool { return HashStr(names[i]) < HashStr(names[j]) })
	}
	for _, nm := range names {
		l = append(l, &srcEntry{s, s.nodes[path.Join(p, nm)]})
	}
	return l
}

func (s *Source) readdir(p string) ([]fs.DirEntry, error) {
	f, _ := s.fault(SeamReadDir)
	n, err := s.node("readdir", p)
	if err != nil {
		return nil, err
	}
	l := s.list(p)
	if f != nil {
		s.env.fire(SeamReadDir, f)
		if f.Kind == "eio-partial" && len(l) > 0 {
			// As os.ReadDir does: what was read so far and the error.
			return l[:int(f.A)%len(l)], s.pathErr("readdir", p, f.err())
		}
		return nil, s.pathErr("readdir", p, f.err())
	}
	if n.K != "d" {
		return nil, s.pathErr("readdir", p, syscall.ENOTDIR)
	}
	return l, nil
}

type srcEntry struct {
	s *Source
	n *Node
}

func (e *srcEntry) Name() string      { return path.Base(e.n.P) }
func (e *srcEntry) IsDir() bool       { return e.n.K == "d" }
func (e *srcEntry) Type() fs.FileMode { return kindMode(e.n.K) }
func (e *srcEntry) Info() (fs.FileInfo, error) {
	f, _ := e.s.fault(SeamInfo)
	if f != nil {
		e.s.env.fire(SeamInfo, f)
		return nil, e.s.pathErr("lstat", e.n.P, f.err())
	}
	return e.s.info(e.n, path.Base(e.n.P)), nil
}

type srcInfo struct {
	n    *Node
	name string
	sys  int
}

func (s *Source) info(n *Node, name string) fs.FileInfo { return &srcInfo{n, name, s.sys} }

func (i *srcInfo) Name() string       { return i.name }
func (i *srcInfo) Mode() fs.FileMode  { return i.n.Mode() }
func (i *srcInfo) ModTime() time.Time { return i.n.Time() }
func (i *srcInfo) IsDir() bool        { return i.n.K == "d" }
func (i *srcInfo) Size() int64 {
	switch i.n.K {
	case "d":
		return 4096
	case "l":
		return int64(len(i.n.L))
	}
	return i.n.S
}
func (i *srcInfo) Sys() any {
	switch i.sys {
	case 1:
		h := &tar.Header{Uid: int(i.n.U), Gid: int(i.n.G)}
		switch i.n.C % 5 { // other things which such a header may tell
		case 0:
			h.AccessTime, h.ChangeTime = time.Unix(i.n.T+1000, 5), time.Unix(i.n.T+2000, 7)
		case 1:
			h.Uname, h.Gname = "someone", "users"
		case 2:
			h.PAXRecords = map[string]string{"SCHILY.xattr.user.k": "v"}
		}
		return h
	case 2:
		ts := func(d int64) syscall.Timespec { return syscall.Timespec{Sec: i.n.T + d, Nsec: 9} }
		return &syscall.Stat_t{Uid: uint32(i.n.U), Gid: uint32(i.n.G), Nlink: 1, Ino: i.n.C, Atim: ts(1000), Ctim: ts(2000), Mtim: ts(0)}
	}
	return nil
}

// srcFile is an open file of the source.
type srcFile struct {
	s      *Source
	n      *Node
	data   []byte
	isl    [][2]int64 // of a huge file
	size   int64      // what is delivered
	off    int64
	closed bool
	extra  int64 // bytes delivered beyond the stated size
	short  bool
	f      *Fault
	pos    int // directory position
	zero   int
}

func (s *Source) open(p string) (fs.File, error) {
	f, _ := s.fault(SeamOpen)
	n, err := s.node("open", p)
	if err != nil {
		return nil, err
	}
	x := &srcFile{s: s, n: n}
	if n.K == "f" {
		if x.size = n.S; n.huge() {
			x.isl = n.islands()
		} else {
			x.data = Content(n.C, n.S)
		}
	}
	if f != nil {
		switch f.Kind {
		case "shrink":
			if n.K == "f" && n.S > 0 {
				x.size = f.A % n.S
				x.short = true
				x.f = f
			}
		case "grow":
			if n.K == "f" {
				x.extra = 1 + f.A%9000
				x.size += x.extra
				x.data = append(x.data, Content(n.C^0x77, x.extra)...)
				x.f = f
			}
		default:
			s.env.fire(SeamOpen, f)
			if n.K == "f" {
				if s.lostOpen == nil {
					s.lostOpen = map[string]bool{}
				}
				s.lostOpen[p] = true
			}
			return nil, s.pathErr("open", p, f.err())
		}
	}
	delete(s.lostOpen, p)
	s.Opened++
	s.Open_++
	if s.Open_ > s.MaxOpen {
		s.MaxOpen = s.Open_
	}
	return x, nil
}

func (x *srcFile) fill(p []byte) int {
	if int64(len(p)) > x.size-x.off {
		p = p[:x.size-x.off]
	}
	if x.isl != nil {
		x.n.hugeAt(x.isl, p, x.off)
		return len(p)
	}
	return copy(p, x.data[x.off:])
}

func (x *srcFile) use() {
	if x.closed {
		x.s.UsedAfterClose++
	}
}

func (x *srcFile) Stat() (fs.FileInfo, error) {
	f, _ := x.s.fault(SeamStat)
	x.use()
	if f != nil {
		x.s.env.fire(SeamStat, f)
		return nil, x.s.pathErr("stat", x.n.P, f.err())
	}
	if x.closed {
		return nil, fs.ErrClosed
	}
	return x.s.info(x.n, path.Base(x.n.P)), nil
}

func (x *srcFile) Read(p []byte) (int, error) {
	f, q := x.s.fault(SeamRead)
	x.use()
	if x.closed {
		return 0, fs.ErrClosed
	}
	if x.n.K == "d" {
		return 0, x.s.pathErr("read", x.n.P, syscall.EISDIR)
	}
	if f != nil {
		x.s.env.fire(SeamRead, f)
		n := 0
		if f.Kind == "eio-partial" && len(p) > 0 {
			n = x.fill(p[:1+int(f.A)%len(p)])
			x.off += int64(n)
		}
		return n, x.s.pathErr("read", x.n.P, f.err())
	}
	if len(p) == 0 {
		return 0, nil
	}
	want := len(p)
	if q != 0 {
		switch q % 5 {
		case 0:
			want = 1 + int(q>>8)%want
		case 1:
			want = min(want, 1+int(q>>8)%7)
		case 2:
			if x.zero < 3 { // discouraged but legal
				x.zero++
				return 0, nil
			}
		}
	}
	n := x.fill(p[:want])
	x.off += int64(n)
	x.s.ReadBytes += int64(n)
	if x.f != nil && x.extra > 0 && x.off >= x.n.S && !x.s.Grew {
		// Its content was read, whether or not beyond the stated size.
		x.s.Grew = true
		x.s.env.fire(SeamOpen, x.f)
	}
	if x.off == x.size && (n == 0 || q != 0 && q>>20%3 == 0) {
		if x.short && !x.s.Shrunk {
			x.s.Shrunk = true
			x.s.env.fire(SeamOpen, x.f)
		}
		return n, io.EOF
	}
	return n, nil
}

func (x *srcFile) ReadDir(k int) ([]fs.DirEntry, error) {
	f, _ := x.s.fault(SeamReadDir)
	x.use()
	if f != nil {
		x.s.env.fire(SeamReadDir, f)
		return nil, x.s.pathErr("readdir", x.n.P, f.err())
	}
	if x.closed {
		return nil, fs.ErrClosed
	}
	if x.n.K != "d" {
		return nil, x.s.pathErr("readdir", x.n.P, syscall.ENOTDIR)
	}
	l := x.s.list(x.n.P)[x.pos:]
	if k > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if k < len(l) {
			l = l[:k]
		}
	}
	x.pos += len(l)
	return l, nil
}

func (x *srcFile) Close() error {
	f, _ := x.s.fault(SeamClose)
	if x.closed {
		x.s.DoubleClosed++
		return fs.ErrClosed
	}
	x.closed = true
	x.s.Closed++
	x.s.Open_--
	if f != nil {
		x.s.env.fire(SeamClose, f)
		return f.err()
	}
	return nil
}
