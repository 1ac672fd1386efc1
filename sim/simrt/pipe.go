package simrt

import (
	"io"
	"unsafe"
)

// Pipe is io.Pipe for simulated tasks.

type pipe struct {
	data       []byte // what the writer offers
	offered    bool
	writing    bool
	rerr, werr error
	r          uint64
}

//go:norace
func (p *pipe) sync() {
	RaceAcquire(unsafe.Pointer(&p.r))
	RaceReleaseMerge(unsafe.Pointer(&p.r))
}

func (p *pipe) changed() {
	p.sync()
	WakeAll(unsafe.Pointer(p))
}

func (p *pipe) park() {
	p.sync()
	if !BlockOn(unsafe.Pointer(p)) {
		panic("deadlock: a pipe with no other task running")
	}
	p.sync()
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	Point()
	p.sync()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.offered:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.offered = false
			}
			p.changed()
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.park()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	Point()
	r.p.sync()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.changed()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	Point()
	p.sync()
	for p.writing && p.rerr == nil && p.werr == nil {
		p.park()
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	p.data, p.offered, p.writing = b, true, true
	p.changed()
	for p.offered && p.rerr == nil && p.werr == nil {
		p.park()
	}
	n := len(b) - len(p.data)
	var err error
	if p.offered {
		if err = p.rerr; err == nil {
			err = io.ErrClosedPipe
		}
	}
	p.data, p.offered, p.writing = nil, false, false
	p.changed()
	return n, err
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	Point()
	w.p.sync()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.changed()
	return nil
}
