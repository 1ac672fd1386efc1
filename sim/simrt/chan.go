package simrt

import (
	"time"
	"unsafe"
)

// Channels of the code under test.  The values travel through native channels,
// which also gives the race detector their ordering edges; only non-blocking
// native operations are made, and a task that has to wait waits here.  A channel
// without buffer is a native channel with room for one value whose sender waits
// until the value was taken.

// chanInfo describes an unbuffered channel.
type chanInfo struct {
	c     unsafe.Pointer
	sent  int64
	taken int64
	ack   uint64 // ordering edge from the receiver back to the sender
}

const maxChans = 1 << 17

var chans [maxChans]*chanInfo // open addressing

// waiting is what a task waits for in a receive or select.
type waiting struct {
	on      bool
	n       int
	c       [16]unsafe.Pointer // channels it would receive from
	claimed unsafe.Pointer     // channel a sending select chose to meet it on
}

var (
	waits    [MaxTasks]waiting
	chanWait uint64 // address tasks waiting for a channel park on
	never    uint64
	nchans   int
)

//go:norace
func resetChans() {
	if nchans > 0 {
		for i := range chans {
			chans[i] = nil
		}
		nchans = 0
	}
	polled = false
	for i := range waits {
		waits[i].on = false
	}
}

//go:norace
func chanAt(c unsafe.Pointer) *chanInfo {
	if nchans == 0 {
		return nil
	}
	h := uint64(uintptr(c)) >> 4 * 0x9e3779b97f4a7c15 >> 40
	for i := uint64(0); i < maxChans; i++ {
		x := chans[(h+i)%maxChans]
		if x == nil || x.c == c {
			return x
		}
	}
	return nil
}

//go:norace
func regChan(c unsafe.Pointer) {
	if nchans >= maxChans/2 {
		return // it stays a channel with room for one value
	}
	h := uint64(uintptr(c)) >> 4 * 0x9e3779b97f4a7c15 >> 40
	for i := uint64(0); i < maxChans; i++ {
		if p := &chans[(h+i)%maxChans]; *p == nil {
			*p = &chanInfo{c: c}
			nchans++
			return
		}
	}
}

// ChanCap is the capacity of the native channel behind one of capacity n.
func ChanCap[T integer](n T) T {
	if n == 0 && Active() {
		return 1
	}
	return n
}

// Chan registers a new channel of capacity n.
func Chan[C ~chan T, T any, N integer](c C, n N) C {
	if n == 0 && Active() {
		regChan(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	}
	return c
}

// wait parks the running task until some channel operation succeeded.
//
//go:norace
func wait() {
	BlockOn(unsafe.Pointer(&chanWait))
}

//go:norace
func wake() {
	polled = false
	wake2()
}

//go:norace
func wake2() { WakeAll(unsafe.Pointer(&chanWait)) }

var polled bool // everyone waiting looked again since the last operation

// forever parks the running task for good.
//
//go:norace
func forever() {
	for Active() && !Aborting() {
		BlockOn(unsafe.Pointer(&never))
	}
	if Aborting() {
		panic(Abort{})
	}
	select {}
}

// Forever is the empty select.
func Forever() { forever() }

//go:norace
func self() *waiting { return &waits[s.cur.id] }

// receiving marks the running task as ready to receive from c.
//
//go:norace
func receiving(c unsafe.Pointer) {
	w := self()
	if !w.on {
		w.on, w.n, w.claimed = true, 0, nil
	}
	if w.n < len(w.c) {
		w.c[w.n] = c
		w.n++
	}
}

//go:norace
func resumed() unsafe.Pointer {
	w := self()
	w.on = false
	return w.claimed
}

// receiver finds a parked task ready to receive from c that no one claimed.
//
//go:norace
func receiver(c unsafe.Pointer) *waiting {
	for i := 0; i < s.n; i++ {
		w := &waits[i]
		if !w.on || w.claimed != nil || s.tasks[i].state == stDone {
			continue
		}
		for j := 0; j < w.n; j++ {
			if w.c[j] == c {
				return w
			}
		}
	}
	return nil
}

//go:norace
func (x *chanInfo) took() {
	if x == nil {
		return
	}
	RaceReleaseMerge(unsafe.Pointer(&x.ack))
	x.taken++
}

//go:norace
func (x *chanInfo) put() int64 {
	x.sent++
	return x.sent
}

//go:norace
func (x *chanInfo) done(n int64) bool {
	if x.taken < n {
		return false
	}
	RaceAcquire(unsafe.Pointer(&x.ack))
	return true
}

func ptr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func ptrS[T any](c chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&c))
}

// Send is `c <- v`.
func Send[T any](c chan<- T) func(v T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		if Aborting() {
			panic(Abort{})
		}
		Point()
		if c == nil {
			forever()
		}
		x := chanAt(ptrS(c))
		for {
			select {
			case c <- v:
				var n int64
				if x != nil {
					n = x.put()
				}
				wake()
				for x != nil && !x.done(n) {
					wait()
				}
				Point()
				return
			default:
			}
			wait()
		}
	}
}

// Recv is `<-c`.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is `v, ok := <-c`.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	if !Active() {
		v, ok = <-c
		return
	}
	if Aborting() {
		panic(Abort{})
	}
	Point()
	if c == nil {
		forever()
	}
	for first := true; ; first = false {
		select {
		case v, ok = <-c:
			if ok {
				chanAt(ptr(c)).took()
			}
			wake()
			Point()
			return
		default:
		}
		receiving(ptr(c))
		if first {
			wake() // a select that sends may be waiting for this
		}
		wait()
		resumed()
	}
}

// Close is `close(c)`.
func Close[T any](c chan<- T) {
	close(c)
	if Active() {
		wake()
		Point()
	}
}

// Elem makes its argument an element of c.
func Elem[T any](c chan<- T) func(v T) T { return func(v T) T { return v } }

// Case is one communication of a select.
type Case struct {
	send  bool
	c     unsafe.Pointer
	ready func() bool
}

// RdCase is `case <-c`.
func RdCase[T any](c <-chan T) Case {
	return Case{c: ptr(c), ready: func() bool { return len(c) > 0 || closed(c) }}
}

// WrCase is `case c <- v`.
func WrCase[T any](c chan<- T) Case {
	return Case{send: true, c: ptrS(c), ready: func() bool { return len(c) < cap(c) || closedS(c) }}
}

// qcount and closed of the runtime's hchan.
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

//go:norace
func isClosed(p unsafe.Pointer) bool { return (*hchan)(p).closed != 0 }

func closed[T any](c <-chan T) bool  { return isClosed(ptr(c)) }
func closedS[T any](c chan<- T) bool { return isClosed(ptrS(c)) }

// Sel chooses the case of a select that is to proceed, -1 for the default.  The
// caller makes the communication before anything else runs.
func Sel(def bool, cs ...Case) int {
	if !Active() {
		for {
			off := int(time.Now().UnixNano() & 0xffff)
			for i := range cs {
				k := (i + off) % len(cs)
				if cs[k].c != nil && cs[k].ready() {
					return k
				}
			}
			if def {
				return -1
			}
			time.Sleep(10 * time.Microsecond)
		}
	}
	if Aborting() {
		panic(Abort{})
	}
	Point()
	var claimed unsafe.Pointer
	for first := true; ; first = false {
		n := 0
		for i := range cs {
			if cs[i].can() {
				if claimed != nil && !cs[i].send && cs[i].c == claimed {
					return i
				}
				n++
			}
		}
		if n > 0 {
			k := choose(n)
			for i := range cs {
				if cs[i].can() {
					if k == 0 {
						if cs[i].send {
							cs[i].claim()
						}
						return i
					}
					k--
				}
			}
		}
		if def {
			return -1
		}
		any := false
		for i := range cs {
			if cs[i].c != nil {
				any = true
				if !cs[i].send {
					receiving(cs[i].c)
				}
			}
		}
		if !any {
			forever()
		}
		if first {
			wake()
		}
		wait()
		claimed = resumed()
	}
}

func (k *Case) can() bool {
	if k.c == nil || !k.ready() {
		return false
	}
	if k.send && chanAt(k.c) != nil && !isClosed(k.c) {
		return receiver(k.c) != nil
	}
	return true
}

//go:norace
func (k *Case) claim() {
	if chanAt(k.c) != nil {
		if w := receiver(k.c); w != nil {
			w.claimed = k.c
		}
	}
}

//go:norace
func choose(n int) int {
	if n == 1 {
		return 0
	}
	return int(mapSeed() >> 7 % uint64(n))
}

// Take makes the receive chosen by Sel.
func Take[T any](c <-chan T) T {
	v, _ := Take2(c)
	return v
}

func Take2[T any](c <-chan T) (v T, ok bool) {
	if !Active() {
		v, ok = <-c
		return
	}
	select {
	case v, ok = <-c:
	default:
		panic("sim: select chose a channel that is not ready")
	}
	if ok {
		chanAt(ptr(c)).took()
	}
	wake()
	return
}

// Put makes the send chosen by Sel.
func Put[T any](c chan<- T, v T) {
	if !Active() {
		c <- v
		return
	}
	select {
	case c <- v:
	default:
		panic("sim: select chose a channel that is not ready")
	}
	if x := chanAt(ptrS(c)); x != nil {
		x.put()
	}
	wake()
}

// After is time.After on the simulated clock.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() {
		Delay(d)
		select {
		case c <- Now():
		default:
		}
		wake()
	})
	return c
}
