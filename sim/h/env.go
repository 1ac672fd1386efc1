package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// Errors injected by the simulator.
var (
	ErrIO    = errors.New("sim: input/output error")
	ErrNoSpc = errors.New("sim: no space left on device")
)

// faultErrs are the errors a failing call may report: what matters is that it
// failed, not how.
var faultErrs = [...]error{
	ErrIO,
	&fs.PathError{Op: "sim", Path: "x", Err: syscall.EIO},
	fs.ErrNotExist,
	&fs.PathError{Op: "sim", Path: "x", Err: syscall.ENOENT},
	fs.ErrPermission,
	&fs.PathError{Op: "sim", Path: "x", Err: syscall.EACCES},
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	fs.ErrClosed,
	fs.ErrInvalid,
	fs.ErrExist,
	io.ErrNoProgress,
	context.Canceled,
	context.DeadlineExceeded,
	syscall.EINTR,
	syscall.EAGAIN,
	syscall.ENOTDIR,
	os.ErrDeadlineExceeded,
	errors.ErrUnsupported,
	syscall.ENOSYS,
}

//go:norace
func (f *Fault) err() error {
	return faultErrs[f.A/512%int64(len(faultErrs))]
}

// Seams where calls are counted and faults are injected.
const (
	SeamDisk = iota // ReadAt of archive storage
	SeamStore
	SeamReadDir
	SeamInfo
	SeamOpen
	SeamStat
	SeamRead
	SeamReadLink
	SeamClose
	numSeams
)

var seamNames = [numSeams]string{"disk.readat", "store.write", "src.readdir", "src.info", "src.open", "src.stat", "src.read", "src.readlink", "src.close"}

func seamID(name string) int {
	for i, n := range seamNames {
		if n == name {
			return i
		}
	}
	return -1
}

const maxFired = 4096

// maxClients bounds the client tasks of one run.
const maxClients = 64

// Env is the environment of one run.  Tasks only touch their own slots.
type Env struct {
	io     uint64
	faults [numSeams][]Fault
	cnt    [numSeams][maxClients]int64
	fired  [maxClients][]firedEv // preallocated
	nfired [maxClients]int
	slow   bool // latencies
	stall  bool
	off    bool // no faults, no latencies
}

type firedEv struct {
	seq  int64
	seam int
	kind int // index of the fault in its seam list
}

func NewEnv(p *Plan, tasks int) *Env {
	e := &Env{io: p.IO}
	for _, f := range p.Faults {
		if id := seamID(f.Seam); id >= 0 {
			e.faults[id] = append(e.faults[id], f)
		}
	}
	for i := 0; i <= tasks && i < maxClients; i++ {
		e.fired[i] = make([]firedEv, 0, maxFired)
	}
	e.slow = p.IO != 0 && p.IO%3 == 0
	e.stall = p.IO != 0 && p.IO%7 == 0
	return e
}

//go:norace
func self() int {
	t := simrt.Owner()
	if t < 0 {
		return 0
	}
	return t
}

// hit counts a call at a seam and returns the fault to apply, if any, and a
// pseudo-random number that decides the legal behaviour of the call (0 = plain).
//
//go:norace
func (e *Env) hit(seam int) (*Fault, uint64) {
	if e.off {
		return nil, 0
	}
	t := self()
	n := e.cnt[seam][t]
	e.cnt[seam][t]++
	var q uint64
	if e.io != 0 {
		q = Mix(e.io, uint64(seam), uint64(t), uint64(n)) | 1
	}
	for i := range e.faults[seam] {
		f := &e.faults[seam][i]
		if (f.T == t || f.T < 0) && n >= f.N && n <= f.N+f.C {
			return f, q
		}
	}
	return nil, q
}

// fire records that a fault took effect.
//
//go:norace
func (e *Env) fire(seam int, f *Fault) {
	t := self()
	k := 0
	for i := range e.faults[seam] {
		if f == &e.faults[seam][i] {
			k = i
		}
	}
	if n := e.nfired[t]; n < maxFired && e.fired[t] != nil {
		e.fired[t] = e.fired[t][:n+1]
		e.fired[t][n] = firedEv{seq: simrt.Seq(), seam: seam, kind: k}
		e.nfired[t]++
	}
	simrt.Event(uint64(seam)<<32 | 77)
}

// latency of an I/O call.
//
//go:norace
func (e *Env) latency(q uint64) {
	if q == 0 || !e.slow {
		return
	}
	switch m := mix64(q ^ 0x11); {
	case e.stall && m%61 == 0:
		simrt.Delay(time.Duration(1+m>>8%30) * time.Second)
	case m%4 == 0:
		simrt.Delay(time.Duration(50+m>>8%5000) * time.Microsecond)
	}
}

// firedIn reports whether a fault fired in task t within (from, to).
//
//go:norace
func (e *Env) firedIn(t int, from, to int64) bool {
	for _, f := range e.fired[t] {
		if f.seq > from && f.seq < to {
			return true
		}
	}
	return false
}

// firedMissing is firedIn for faults that themselves report a missing file.
//
//go:norace
func (e *Env) firedMissing(t int, from, to int64) bool {
	for _, f := range e.fired[t] {
		if f.seq > from && f.seq < to && errors.Is(e.faults[f.seam][f.kind].err(), fs.ErrNotExist) {
			return true
		}
	}
	return false
}

func (e *Env) anyFired() bool {
	for t := range e.fired {
		if e.nfired[t] > 0 {
			return true
		}
	}
	return false
}

func (e *Env) countFired(o *Outcome) {
	if o.Fired == nil {
		o.Fired = map[string]int64{}
	}
	for t := range e.fired {
		for _, f := range e.fired[t] {
			o.Fired[seamNames[f.seam]+":"+e.faults[f.seam][f.kind].Kind]++
		}
	}
	if o.Seams == nil {
		o.Seams = map[string]int64{}
	}
	for s := range e.cnt {
		for t, n := range e.cnt[s] {
			if n > 0 {
				o.Seams[fmt.Sprintf("%s/%d", seamNames[s], t)] += n
				o.note(uint64(s), uint64(t), uint64(n))
			}
		}
	}
}

// ---- archive storage, read side ----------------------------------------------

// Disk is the storage an archive is read from.
type Disk struct {
	env  *Env
	data []byte
	blob *Blob // what is stored, when it is too large for data
}

//go:norace
func (d *Disk) size() int64 {
	if d.blob != nil {
		return d.blob.size
	}
	return int64(len(d.data))
}

//go:norace
func (d *Disk) copyAt(p []byte, off int64) int {
	if d.blob != nil {
		return d.blob.readAt(p, off)
	}
	return copy(p, d.data[off:])
}

// Blob is sparse storage: all zeros but for its segments, which are sorted and
// do not overlap.
type Blob struct {
	segs []seg
	size int64
}

type seg struct {
	off int64
	b   []byte
}

//go:norace
func (b *Blob) readAt(p []byte, off int64) int {
	n := int64(len(p))
	if n > b.size-off {
		n = b.size - off
	}
	for i := range p[:n] {
		p[i] = 0
	}
	lo, hi := 0, len(b.segs)
	for lo < hi {
		m := (lo + hi) / 2
		if b.segs[m].off+int64(len(b.segs[m].b)) > off {
			hi = m
		} else {
			lo = m + 1
		}
	}
	for ; lo < len(b.segs) && b.segs[lo].off < off+n; lo++ {
		s := &b.segs[lo]
		if s.off >= off {
			copy(p[s.off-off:n], s.b)
		} else {
			copy(p[:n], s.b[off-s.off:])
		}
	}
	return int(n)
}

// put adds a segment; later ones must not overlap.
func (b *Blob) put(off int64, data []byte) {
	if len(data) > 0 {
		b.segs = append(b.segs, seg{off, data})
		b.size = max(b.size, off+int64(len(data)))
	}
}

func (b *Blob) sort() {
	sort.Slice(b.segs, func(i, j int) bool { return b.segs[i].off < b.segs[j].off })
	for i := 1; i < len(b.segs); i++ {
		if b.segs[i-1].off+int64(len(b.segs[i-1].b)) > b.segs[i].off {
			panic("sim: overlapping segments")
		}
	}
}

// disk is the blob as storage of an archive, nil for none.
func (b *Blob) disk(env *Env) *Disk {
	if b == nil {
		return nil
	}
	if len(b.segs) == 1 && b.size == int64(len(b.segs[0].b)) {
		return &Disk{env: env, data: b.segs[0].b}
	}
	return &Disk{env: env, blob: b}
}

func (d *Disk) hash() uint64 {
	if d.blob != nil {
		return d.blob.hash()
	}
	return HashStr(string(d.data))
}

func (b *Blob) hash() uint64 {
	h := uint64(b.size)
	for _, s := range b.segs {
		h = Mix(h, uint64(s.off), HashStr(string(s.b)))
	}
	return h
}

// ReadAt behaves as io.ReaderAt allows, in every way it allows.
//
//go:norace
func (d *Disk) ReadAt(p []byte, off int64) (int, error) {
	simrt.Point()
	f, q := d.env.hit(SeamDisk)
	d.env.latency(q)
	if f != nil {
		d.env.fire(SeamDisk, f)
		switch f.Kind {
		case "eio-partial", "eio-scribble":
			n := 0
			if off >= 0 && off < d.size() && len(p) > 0 {
				n = d.copyAt(p, off)
				if k := int(f.A % int64(len(p))); k < n {
					n = k
				}
			}
			if f.Kind == "eio-scribble" { // p is scratch space beyond n
				for i := n; i < len(p); i++ {
					p[i] = byte(i) ^ 0xa7
				}
			}
			simrt.Point()
			return n, f.err()
		}
		return 0, f.err()
	}
	if off < 0 {
		return 0, errors.New("sim: negative offset")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= d.size() {
		return 0, io.EOF
	}
	n := d.copyAt(p, off)
	simrt.Point()
	if n < len(p) {
		if q != 0 && q>>9%3 == 0 { // scratch space
			for i := n; i < len(p); i++ {
				p[i] = byte(i) ^ 0x5c
			}
		}
		return n, io.EOF
	}
	// A full read that ends at the end of the storage may come with EOF.
	if q != 0 && off+int64(n) == d.size() && q>>5%2 == 0 {
		return n, io.EOF
	}
	return n, nil
}

// ---- archive storage, write side ----------------------------------------------

type write struct {
	off int64
	b   []byte
}

// Store is the destination an archive is written to.
type Store struct {
	env  *Env
	data []byte
	log  []write // successful and torn writes in issue order
	pos  int64   // for Write
	keep bool    // record the log
	max  int64   // capacity, 0 = unlimited
	capF *Fault
	big  map[int64][]byte // content in chunks, once it is large; missing chunks are zeros
	size int64            // with big
	rich bool             // shown with the other methods of a file
}

const bigChunk = 1 << 16

var zeroChunk [bigChunk]byte

// putBig is put for large contents.
func (s *Store) putBig(b []byte, off int64) {
	if s.big == nil {
		s.big = map[int64][]byte{}
		d := s.data
		s.data = nil
		s.putBig(d, 0)
	}
	s.size = max(s.size, off+int64(len(b)))
	for len(b) > 0 {
		k, at := off/bigChunk, off%bigChunk
		n := min(int64(len(b)), bigChunk-at)
		c := s.big[k]
		if c != nil || !bytes.Equal(b[:n], zeroChunk[:n]) {
			if c == nil {
				c = make([]byte, bigChunk)
				s.big[k] = c
			}
			copy(c[at:], b[:n])
		}
		b, off = b[n:], off+n
	}
}

// disk is the storage as a reader finds it.
func (s *Store) disk(env *Env) *Disk {
	if s.big == nil {
		return &Disk{env: env, data: s.data}
	}
	bl := &Blob{}
	for k, c := range s.big {
		bl.put(k*bigChunk, c)
	}
	bl.sort()
	bl.size = s.size
	if n := len(bl.segs); n > 0 {
		l := &bl.segs[n-1]
		l.b = l.b[:min(int64(len(l.b)), s.size-l.off)]
	}
	return &Disk{env: env, blob: bl}
}

func (s *Store) put(b []byte, off int64) {
	if need := off + int64(len(b)); s.big != nil || need > 64<<20 && !s.keep {
		s.putBig(b, off)
		simrt.Event(Mix(uint64(off), uint64(len(b))))
		return
	} else if need > int64(len(s.data)) {
		s.data = append(s.data, make([]byte, need-int64(len(s.data)))...)
	}
	copy(s.data[off:], b)
	if s.keep {
		s.log = append(s.log, write{off, append([]byte(nil), b...)})
	}
	simrt.Event(Mix(uint64(off), uint64(len(b))))
}

func (s *Store) WriteAt(p []byte, off int64) (int, error) {
	simrt.Point()
	f, q := s.env.hit(SeamStore)
	s.env.latency(q)
	if f != nil {
		s.env.fire(SeamStore, f)
		switch f.Kind {
		case "short", "enospc":
			k := 0
			if len(p) > 0 {
				k = int(f.A % int64(len(p)))
			}
			s.put(p[:k], off)
			if f.Kind == "short" {
				return k, io.ErrShortWrite
			}
			return k, ErrNoSpc
		case "late": // all of it was written, and the call fails
			s.put(p, off)
			return len(p), f.err()
		}
		return 0, f.err()
	}
	if off < 0 {
		return 0, errors.New("sim: negative offset")
	}
	s.put(p, off)
	return len(p), nil
}

// Writer gives the sequential view of a store.
type Writer struct{ *Store }

func (w Writer) Write(p []byte) (int, error) {
	n, err := w.WriteAt(p, w.pos)
	w.pos += int64(n)
	return n, err
}

// seqWriter hides WriteAt.
type seqWriter struct{ w Writer }

func (w seqWriter) Write(p []byte) (int, error) { return w.w.Write(p) }

// richWriter has the other methods a destination may have.  Closing and syncing
// do nothing here.
type richWriter struct{ Writer }

func (w richWriter) Close() error                        { simrt.Point(); return nil }
func (w richWriter) Sync() error                         { simrt.Point(); return nil }
func (w richWriter) Flush() error                        { simrt.Point(); return nil }
func (w richWriter) WriteString(s string) (int, error)   { return w.Write([]byte(s)) }
func (w richWriter) ReadFrom(r io.Reader) (int64, error) { return copyTo(w.Writer, r) }

// richSeq is richWriter without WriteAt.
type richSeq struct{ w richWriter }

func (w richSeq) Write(p []byte) (int, error)         { return w.w.Write(p) }
func (w richSeq) Close() error                        { return w.w.Close() }
func (w richSeq) Flush() error                        { return w.w.Flush() }
func (w richSeq) WriteString(s string) (int, error)   { return w.w.WriteString(s) }
func (w richSeq) ReadFrom(r io.Reader) (int64, error) { return copyTo(w.w.Writer, r) }

func copyTo(w io.Writer, r io.Reader) (n int64, err error) {
	b := make([]byte, 1000)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			j, err := w.Write(b[:k])
			n += int64(j)
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// imageAfter rebuilds what a crash leaves: the first n writes and k bytes of the
// next one.
func imageAfter(log []write, n int, k int) []byte {
	var img []byte
	put := func(b []byte, off int64) {
		if need := off + int64(len(b)); need > int64(len(img)) {
			img = append(img, make([]byte, need-int64(len(img)))...)
		}
		copy(img[off:], b)
	}
	for i := 0; i < n; i++ {
		put(log[i].b, log[i].off)
	}
	if n < len(log) && k > 0 {
		put(log[n].b[:k], log[n].off)
	}
	return img
}

// placeFaults turns call counts of a fault-free run into fault positions.
func pickFault(r *Rng, seams map[string]int64, kinds map[string][]string) (Fault, bool) {
	type slot struct {
		seam string
		task int
		n    int64
	}
	var slots []slot
	for _, k := range sortedKeys(seams) {
		i := strings.IndexByte(k, '/')
		if i < 0 || len(kinds[k[:i]]) == 0 {
			continue
		}
		var t int
		fmt.Sscanf(k[i+1:], "%d", &t)
		slots = append(slots, slot{k[:i], t, seams[k]})
	}
	if len(slots) == 0 {
		return Fault{}, false
	}
	s := slots[r.Intn(len(slots))]
	n := r.Int63n(s.n)
	if r.P(1, 5) { // the last calls are where errors get lost
		n = s.n - 1 - r.Int63n(min(s.n, 3))
	}
	ks := kinds[s.seam]
	return Fault{Seam: s.seam, T: s.task, N: n, Kind: ks[r.Intn(len(ks))], A: r.Int63n(1 << 20)}, true
}
