package simrt

import (
	"context"
	"fmt"
	"io"
	"sync/atomic"
	"testing"
	"time"
)

func mk(n int) chan int { return Chan(make(chan int, ChanCap(n)), n) }

// simulate runs f under many schedules and twice each.
func simulate(t *testing.T, name string, f func() func() string) {
	t.Helper()
	seen := map[uint64]bool{}
	for seed := uint64(0); seed < 300; seed++ {
		var hash [2]uint64
		for k := range hash {
			check := func() string { return "" }
			r := Run(Config{Seed: seed, Mean: int64(seed % 7)}, func() { check = f() })
			if len(r.Panics) > 0 || len(r.Deadlock) > 0 || r.OverBudget {
				t.Fatalf("%s seed %d: %+v", name, seed, r)
			}
			if s := check(); s != "" {
				t.Fatalf("%s seed %d: %s", name, seed, s)
			}
			hash[k] = r.Hash
		}
		if hash[0] != hash[1] {
			t.Fatalf("%s seed %d is not deterministic", name, seed)
		}
		seen[hash[0]] = true
	}
	t.Logf("%s: %d interleavings", name, len(seen))
}

func TestPipeline(t *testing.T) {
	for _, n := range []int{0, 1, 3} {
		simulate(t, fmt.Sprint("pipeline ", n), func() func() string {
			in, out, done := mk(n), mk(n), mk(0)
			for w := 0; w < 3; w++ {
				Go(func() {
					for {
						v, ok := Recv2(in)
						if !ok {
							break
						}
						Send(out)(v * v)
					}
					Send(done)(1)
				})
			}
			Go(func() {
				for i := 0; i < 10; i++ {
					Send(in)(i)
				}
				Close(in)
			})
			Go(func() {
				for w := 0; w < 3; w++ {
					Recv(done)
				}
				Close(out)
			})
			sum := 0
			for {
				v, ok := Recv2(out)
				if !ok {
					break
				}
				sum += v
			}
			return func() string {
				if sum != 285 {
					return fmt.Sprint("sum is ", sum)
				}
				return ""
			}
		})
	}
}

// An unbuffered send returns only after the receive began.
func TestRendezvous(t *testing.T) {
	simulate(t, "rendezvous", func() func() string {
		c := mk(0)
		got, early := 0, false
		Go(func() {
			Point()
			got = 1
			Recv(c)
		})
		Send(c)(1)
		early = got == 0
		return func() string {
			if early {
				return "the send returned before anyone received"
			}
			return ""
		}
	})
}

// Selects on both sides: every value is delivered exactly once.
func TestSelectBothSides(t *testing.T) {
	simulate(t, "select", func() func() string {
		a, b, quit := mk(0), mk(0), mk(0)
		done := mk(0)
		var got [2]int
		for r := 0; r < 2; r++ {
			Go(func() {
				for {
					k := Sel(false, RdCase(a), RdCase(b), RdCase(quit))
					if k == 0 {
						got[r] += Take(a)
					} else if k == 1 {
						got[r] += Take(b)
					} else {
						Take2(quit)
						break
					}
				}
				Send(done)(0)
			})
		}
		for s := 0; s < 2; s++ {
			Go(func() {
				for i := 0; i < 6; i++ {
					if Sel(false, WrCase(a), WrCase(b)) == 0 {
						Put(a, 1)
					} else {
						Put(b, 100)
					}
				}
				Send(done)(0)
			})
		}
		Recv(done)
		Recv(done)
		Close(quit)
		Recv(done)
		Recv(done)
		return func() string {
			n := got[0] + got[1]
			if n%100+n/100 != 12 {
				return fmt.Sprint("lost or repeated: ", n)
			}
			return ""
		}
	})
}

func TestSelectDefaultAndAfter(t *testing.T) {
	simulate(t, "default", func() func() string {
		c := mk(0)
		sent := Sel(true, WrCase(c)) // nobody receives
		recv := Sel(true, RdCase(c))
		start := SimNow()
		late := After(time.Second)
		Go(func() { Delay(2 * time.Second); Send(c)(1) })
		k := Sel(false, RdCase(c), RdCase(late))
		Take(late)
		gone := SimNow() - start
		Recv(c)
		return func() string {
			if sent != -1 || recv != -1 || k != 1 || gone < time.Second || gone >= 2*time.Second {
				return fmt.Sprint(sent, recv, k, gone)
			}
			return ""
		}
	})
}

func TestDeadlockAndLeak(t *testing.T) {
	r := Run(Config{Seed: 1}, func() { Recv(mk(0)) })
	if len(r.Deadlock) != 1 {
		t.Fatalf("%+v", r)
	}
	r = Run(Config{Seed: 1}, func() { Go(func() { Send(mk(0))(1) }) })
	if len(r.Deadlock) != 0 || r.Leaked != 1 {
		t.Fatalf("%+v", r)
	}
	r = Run(Config{Seed: 1}, func() {
		c := mk(2)
		for i := 0; i < 2000; i++ { // places of finished tasks are used again
			Go(func() { Send(c)(i) })
			Recv(c)
		}
	})
	if len(r.Panics) != 0 {
		t.Fatalf("%+v", r)
	}
	var flag atomic.Bool
	r = Run(Config{Seed: 1, MaxSteps: 1 << 20}, func() {
		for !flag.Load() {
			Y(0)
		}
	}, func() { flag.Store(true) })
	if r.OverBudget {
		t.Fatal("a spinning task starves the others")
	}
}

func TestPipe(t *testing.T) {
	simulate(t, "pipe", func() func() string {
		r, w := Pipe()
		Go(func() {
			for i := 0; i < 5; i++ {
				fmt.Fprintf(w, "%d-", i)
			}
			w.Close()
		})
		b, err := io.ReadAll(r)
		return func() string {
			if string(b) != "0-1-2-3-4-" || err != nil {
				return fmt.Sprint(string(b), err)
			}
			return ""
		}
	})
	simulate(t, "closed pipe", func() func() string {
		r, w := Pipe()
		done := mk(0)
		var err error
		Go(func() { _, err = w.Write([]byte("abc")); Close(done) })
		r.Read(make([]byte, 1))
		r.CloseWithError(io.ErrNoProgress)
		Recv(done)
		return func() string {
			if err != io.ErrNoProgress {
				return fmt.Sprint(err)
			}
			return ""
		}
	})
}

// Cancelling a context is not an operation of the simulator.
func TestContext(t *testing.T) {
	simulate(t, "context", func() func() string {
		ctx, cancel := context.WithCancel(context.Background())
		Go(func() { Point(); cancel() })
		k := Sel(false, RdCase(ctx.Done()))
		Take(ctx.Done())
		return func() string {
			if k != 0 {
				return "wrong case"
			}
			return ""
		}
	})
}
