// Package simrt is the deterministic runtime the instrumented code runs on: a
// cooperative scheduler with a seeded choice at every switch, a discrete-event
// clock, step accounting, and seams for map order, time and allocation sizes.
//
// Exactly one task runs at a time.  The hand-off between tasks is hidden from
// the race detector, so that under -race only the program's own synchronisation
// orders accesses.  Everything tasks share in here is therefore touched from
// //go:norace functions on preallocated memory only (no maps, no append).
package simrt

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// MaxTasks bounds the tasks of one run.
const MaxTasks = 512

// MaxSites bounds the statement sites whose execution is recorded.
const MaxSites = 1 << 14

// SchedEv is one recorded scheduling decision: at global step At, run task To.
type SchedEv struct {
	At int64 `json:"at"`
	To int   `json:"to"`
}

// Config of a run.
type Config struct {
	Seed      uint64    // seeds every scheduling decision (generation mode)
	Mean      int64     // mean steps between preemptions, 0 = only when blocked
	Replay    bool      // follow Sched instead of the seed
	Sched     []SchedEv // decisions to follow
	MaxSteps  int64     // step budget of the whole run
	MapSeed   uint64    // seeds map iteration order
	Clock     time.Time // simulated wall clock at the start
	MaxAlloc  int64     // allocation size budget per make, 0 = unlimited
	MaxSwitch int       // recorded decisions at most
}

// Result of a run.
type Result struct {
	Steps      int64
	Switches   int64
	Preempts   int64
	SimTime    time.Duration
	Sched      []SchedEv
	Hash       uint64 // interleaving and event signature
	Deadlock   []int  // ids of tasks given to Run that are blocked for ever
	Leaked     int    // goroutines blocked for ever while all of those finished
	OverBudget bool   // step budget exhausted
	BudgetTask int
	AllocBytes int64 // offending allocation size, 0 = none
	Panics     []PanicInfo
}

// PanicInfo describes a panic that ended a task.
type PanicInfo struct {
	Task  int
	Value string
	Stack string
}

type taskState int32

const (
	stRunnable taskState = iota
	stSleeping
	stBlocked
	stDone
)

type task struct {
	id    int
	owner int // the task given to Run that this one works for
	state taskState
	wake  int64
	on    unsafe.Pointer
	ch    chan struct{}
	steps int64 // steps since ResetOp
	pan   *PanicInfo
}

type sched struct {
	cfg      Config
	rng      uint64
	step     int64
	next     int64 // step of the next preemption
	nextTo   int
	pos      int // position in cfg.Sched
	now      int64
	cur      *task
	tasks    [MaxTasks]*task
	n        int
	n0       int       // tasks given to Run
	rec      []SchedEv // preallocated
	nrec     int
	switches int64
	preempts int64
	hash     uint64
	aborting bool
	deadlock bool
	over     bool
	overTask int
	alloc    int64
	mapctr   uint64
	done     chan struct{}
	wg       sync.WaitGroup
	dead     [MaxTasks]bool
	yieldIO  int64
}

// S is the running scheduler, nil outside of runs.
var s *sched

// Cov marks executed statement sites.
var Cov [MaxSites]uint8

// Abort is the panic value that unwinds tasks when a run is cut short.
type Abort struct{}

// IsAbort reports whether a recovered value is the unwinding sentinel; recovers
// in the harness must re-panic it.
func IsAbort(v any) bool { _, ok := v.(Abort); return ok }

//go:norace
func next64(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *sched) mix(v uint64) {
	h := s.hash ^ v
	h *= 0x100000001b3
	h ^= h >> 29
	s.hash = h
}

// Y is the yield point in front of every statement of the code under test.
//
//go:norace
func Y(id int) {
	sc := s
	if id < MaxSites {
		Cov[id] = 1
	}
	if sc == nil || sc.cur == nil {
		return
	}
	sc.step++
	if sc.step >= sc.next {
		sc.slow(id)
	}
}

// Point is a yield point of the harness (I/O seams, mutex operations).
//
//go:norace
func Point() {
	sc := s
	if sc == nil || sc.cur == nil {
		return
	}
	sc.step++
	if sc.step >= sc.next {
		sc.slow(0)
	}
}

//go:norace
func (s *sched) slow(id int) {
	if s.aborting {
		panic(Abort{})
	}
	if s.step >= s.cfg.MaxSteps {
		s.over = true
		s.overTask = s.cur.id
		s.abort()
	}
	var to *task
	if s.cfg.Replay {
		// s.next is the step of the next recorded event or MaxSteps
		for s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At < s.step {
			s.pos++
		}
		if s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At == s.step {
			t := s.cfg.Sched[s.pos].To
			s.pos++
			if t >= 0 && t < s.n && s.ready(s.tasks[t]) {
				to = s.tasks[t]
			}
		}
		s.arm()
		if to == nil || to == s.cur {
			return
		}
		s.record(to)
	} else {
		s.arm()
		to = s.pick()
		if to == nil || to == s.cur {
			return
		}
		s.record(to)
	}
	s.preempts++
	s.mix(uint64(id)<<8 | uint64(to.id) | 1<<40)
	s.transfer(s.cur, to)
}

// arm sets the step of the next preemption.
//
//go:norace
func (s *sched) arm() {
	s.next = s.cfg.MaxSteps
	if s.cfg.Replay {
		for s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At <= s.step {
			s.pos++
		}
		if s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At < s.next {
			s.next = s.cfg.Sched[s.pos].At
		}
		return
	}
	if s.nrec < len(s.rec) {
		d := int64(fairness) // nobody waits for ever for a task that spins
		if s.cfg.Mean > 0 {
			if e := int64(next64(&s.rng)%uint64(2*s.cfg.Mean)) + 1; e < d {
				d = e
			}
		}
		if s.step+d < s.next {
			s.next = s.step + d
		}
	}
}

const fairness = 1 << 17

// Gosched is a preemption asked for by the code under test.
//
//go:norace
func Gosched() {
	if s == nil || s.cur == nil {
		return
	}
	if !s.cfg.Replay && !s.aborting {
		s.next = s.step
	}
	Point()
}

//go:norace
func (s *sched) record(to *task) {
	if s.nrec < len(s.rec) {
		s.rec[s.nrec] = SchedEv{At: s.step, To: to.id}
		s.nrec++
	}
}

//go:norace
func (s *sched) ready(t *task) bool {
	return t.state == stRunnable || (t.state == stSleeping && t.wake <= s.now)
}

// pick chooses a ready task at random (including the current one).
//
//go:norace
func (s *sched) pick() *task {
	n := 0
	for i := 0; i < s.n; i++ {
		if s.ready(s.tasks[i]) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(next64(&s.rng) % uint64(n))
	for i := 0; i < s.n; i++ {
		if s.ready(s.tasks[i]) {
			if k == 0 {
				return s.tasks[i]
			}
			k--
		}
	}
	return nil
}

// dispatch gives the processor away; the current task cannot continue.
//
//go:norace
func (s *sched) dispatch(from *task) {
	s.step++
	if s.aborting {
		s.drain(from)
		return
	}
	var to *task
	for {
		anyReady := false
		for i := 0; i < s.n; i++ {
			if s.ready(s.tasks[i]) {
				anyReady = true
				break
			}
		}
		if anyReady {
			break
		}
		// Channels of packages that are not instrumented (context) may have changed.
		if !polled {
			polled = true
			wake2()
			continue
		}
		// Nothing can run: jump to the next timer.
		min := int64(-1)
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state == stSleeping && (min < 0 || t.wake < min) {
				min = t.wake
			}
		}
		if min < 0 {
			alldone := true
			for i := 0; i < s.n; i++ {
				if s.tasks[i].state != stDone {
					alldone = false
					s.dead[i] = true
				}
			}
			if alldone {
				s.cur = nil
				s.finishRun()
				return
			}
			s.deadlock = true
			s.aborting = true
			s.next = 0
			s.drain(from)
			return
		}
		s.now = min
	}
	if s.cfg.Replay {
		for s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At < s.step {
			s.pos++
		}
		if s.pos < len(s.cfg.Sched) && s.cfg.Sched[s.pos].At == s.step {
			t := s.cfg.Sched[s.pos].To
			s.pos++
			if t >= 0 && t < s.n && s.ready(s.tasks[t]) {
				to = s.tasks[t]
			}
		}
		if to == nil {
			for i := 0; i < s.n; i++ {
				if s.ready(s.tasks[i]) {
					to = s.tasks[i]
					break
				}
			}
		}
		s.arm()
	} else {
		to = s.pick()
	}
	s.record(to)
	s.switches++
	s.mix(uint64(to.id) | 1<<41)
	s.transfer(from, to)
}

// drain resumes the remaining tasks one after the other so that they unwind.
//
//go:norace
func (s *sched) drain(from *task) {
	if from.state != stDone {
		panic(Abort{})
	}
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state != stDone {
			s.transfer(from, s.tasks[i])
			return
		}
	}
	s.cur = nil
	s.finishRun()
}

//go:norace
func (s *sched) finishRun() {
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

//go:norace
func (s *sched) abort() {
	s.aborting = true
	s.next = 0
	panic(Abort{})
}

//go:norace
func (s *sched) transfer(from, to *task) {
	to.state = stRunnable
	to.on = nil
	s.cur = to
	if to == from {
		return
	}
	raceDisable()
	to.ch <- struct{}{}
	if from.state != stDone {
		<-from.ch
		raceEnable()
		if s.aborting {
			panic(Abort{})
		}
		return
	}
	raceEnable()
}

// Active reports whether the caller runs as a simulated task.
//
//go:norace
func Active() bool { return s != nil && s.cur != nil }

// Aborting reports whether the run is being unwound.
//
//go:norace
func Aborting() bool { return s != nil && s.aborting }

// Self is the id of the running task, -1 outside of runs.
//
//go:norace
func Self() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.id
}

// Owner is the id of the task given to Run on whose behalf the running task
// works, -1 outside of runs.
//
//go:norace
func Owner() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.owner
}

// Seq advances and returns the global event number; it orders history events.
//
//go:norace
func Seq() int64 {
	if s == nil {
		return 0
	}
	s.step++
	return s.step
}

// Steps is the current global step without advancing it.
//
//go:norace
func Steps() int64 {
	if s == nil {
		return 0
	}
	return s.step
}

// Event mixes a value into the signature of the run.
//
//go:norace
func Event(v uint64) {
	if s != nil {
		s.mix(v)
	}
}

// BlockOn parks the current task until WakeAll(p); false outside of runs.
//
//go:norace
func BlockOn(p unsafe.Pointer) bool {
	if s == nil || s.cur == nil {
		return false
	}
	t := s.cur
	t.state = stBlocked
	t.on = p
	s.dispatch(t)
	return true
}

// WakeAll makes the tasks parked on p runnable.
//
//go:norace
func WakeAll(p unsafe.Pointer) {
	if s == nil {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.on == p {
			t.state = stRunnable
			t.on = nil
		}
	}
}

// WakeOne makes the longest known task parked on p runnable.
//
//go:norace
func WakeOne(p unsafe.Pointer) {
	if s == nil {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.on == p {
			t.state = stRunnable
			t.on = nil
			return
		}
	}
}

// Delay parks the current task for d of simulated time.
//
//go:norace
func Delay(d time.Duration) {
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	t.state = stSleeping
	t.wake = s.now + int64(d)
	s.dispatch(t)
}

// Go starts a task; outside of runs it is a plain goroutine.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	s.spawn(f)
	Point()
}

//go:norace
func (s *sched) add() *task {
	t := &task{id: s.n, owner: s.n, ch: make(chan struct{}, 1)}
	if s.cur != nil && s.cur.id >= 0 {
		t.owner = s.cur.owner
		for i := s.n0; i < s.n; i++ {
			if s.tasks[i].state == stDone && s.tasks[i].pan == nil { // the place of a finished task
				t.id = i
				s.tasks[i] = t
				return t
			}
		}
	}
	if s.n >= MaxTasks {
		panic("sim: too many tasks")
	}
	s.tasks[s.n] = t
	s.n++
	return t
}

func (s *sched) spawn(f func()) {
	t := s.add()
	s.wg.Add(1)
	go s.body(t, f)
}

func (s *sched) body(t *task, f func()) {
	raceDisable()
	<-t.ch
	raceEnable()
	s.call(t, f)
	s.exit(t)
}

func (s *sched) call(t *task, f func()) {
	defer func() {
		if v := recover(); v != nil && !IsAbort(v) {
			t.pan = &PanicInfo{Task: t.id, Value: fmt.Sprint(v), Stack: string(debug.Stack())}
		}
	}()
	if Aborting() {
		return
	}
	f()
}

//go:norace
func (s *sched) exit(t *task) {
	t.state = stDone
	s.wg.Done() // real ordering towards the waiting main goroutine only
	s.dispatch(t)
}

// Run executes the given functions as tasks 0..n-1 and returns when all of them
// (and all tasks they started) are finished or cannot continue.
func Run(cfg Config, fs ...func()) *Result {
	if s != nil {
		panic("simrt: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	if cfg.MaxSwitch == 0 {
		cfg.MaxSwitch = 1 << 14
	}
	if cfg.Clock.IsZero() {
		cfg.Clock = time.Unix(1_700_000_000, 0)
	}
	sc := &sched{cfg: cfg, rng: cfg.Seed ^ 0xa5a5_5a5a_1234_9876, hash: 14695981039346656037, done: make(chan struct{}, 1), rec: make([]SchedEv, cfg.MaxSwitch)}
	s = sc
	resetChans()
	for _, f := range fs {
		sc.spawn(f)
	}
	sc.n0 = sc.n
	sc.arm()
	sc.start()
	raceDisable()
	<-sc.done
	raceEnable()
	sc.wg.Wait()
	s = nil
	return sc.result()
}

//go:norace
func (s *sched) start() {
	root := &task{id: -1, state: stDone}
	s.cur = root
	s.dispatch(root)
}

func (sc *sched) result() *Result {
	r := &Result{Steps: sc.step, Switches: sc.switches, Preempts: sc.preempts, SimTime: time.Duration(sc.now), Hash: sc.hash, OverBudget: sc.over, BudgetTask: sc.overTask, AllocBytes: sc.alloc}
	r.Sched = append(r.Sched, sc.rec[:sc.nrec]...)
	if sc.deadlock {
		for i := 0; i < sc.n; i++ {
			if !sc.dead[i] {
				continue
			}
			if i < sc.n0 {
				r.Deadlock = append(r.Deadlock, i)
			} else {
				r.Leaked++ // a goroutine left behind, which real programs can have
			}
		}
	}
	for i := 0; i < sc.n; i++ {
		if sc.tasks[i].pan != nil {
			r.Panics = append(r.Panics, *sc.tasks[i].pan)
		}
	}
	return r
}

// ---- seams -----------------------------------------------------------------

// Now is the simulated wall clock.
//
//go:norace
func Now() time.Time {
	if s == nil {
		return time.Unix(1_700_000_000, 0)
	}
	// Every look at the clock sees it advance a little, as on real machines.
	return s.cfg.Clock.Add(time.Duration(s.now) + time.Duration(s.step)*37*time.Microsecond)
}

// SimNow is the simulated time since the start of the run.
//
//go:norace
func SimNow() time.Duration {
	if s == nil {
		return 0
	}
	return time.Duration(s.now)
}

func Sleep(d time.Duration)           { Delay(d) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Mk checks an allocation length against the budget of the run.
func Mk[T integer](n T, elem int64) T {
	if !Active() {
		return n
	}
	if int64(n) > 0 {
		checkAlloc(int64(n), elem)
	}
	return n
}

//go:norace
func checkAlloc(n, elem int64) {
	if s.cfg.MaxAlloc > 0 && n > s.cfg.MaxAlloc/elem {
		s.alloc = n
		s.abort()
	}
}

// Entry is one map entry visited by an instrumented range loop.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// Entries lists the entries of a map in an order that depends only on the seed.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if len(m) == 0 {
		return nil
	}
	type kr struct {
		e Entry[K, V]
		r string
	}
	raceDisable()
	l := make([]kr, 0, len(m))
	raceEnable()
	for k, v := range m {
		r := render(k)
		if r == "" {
			r = render(v)
		}
		l = append(l, kr{Entry[K, V]{K: k, m: m}, r})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].r < l[j].r })
	seed := mapSeed()
	for i := len(l) - 1; i > 0; i-- {
		j := int(next64(&seed) % uint64(i+1))
		l[i], l[j] = l[j], l[i]
	}
	out := make([]Entry[K, V], len(l))
	for i := range l {
		out[i] = l[i].e
	}
	return out
}

func render(v any) string {
	raceDisable()
	defer raceEnable()
	switch x := v.(type) {
	case string:
		return "s" + x
	case []byte:
		return "b" + string(x)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool, float64:
		return fmt.Sprintf("%24v", x)
	}
	return ""
}

//go:norace
func mapSeed() uint64 {
	if s == nil {
		return 1
	}
	s.mapctr++
	return s.cfg.MapSeed + s.mapctr*0x9e3779b97f4a7c15
}

func MapKeys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}

func MapAll[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}
