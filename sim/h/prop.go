package h

import (
	"fmt"
	"runtime/debug"
	"strings"

	"verif.local/sim/simrt"
)

// Prop is the check of one property.
type Prop struct {
	ID       string
	Race     bool // decided with the race detector on
	Quick    int  // generated cases
	Thorough int
	Log      bool     // the nodes of a plan are a log, not a tree
	Rule     string   // how cases are made and what makes one non-trivial
	Real     []string // components that ran real code
	Stub     []string // components that were simulated
	Faults   []string // fault kinds this property is decided under
	// Gen makes case number idx.
	Gen func(r *Rng, idx int, thorough bool) *Plan
	// Derive makes further plans from the outcome of a generated one: it places
	// faults inside the calls the fault-free execution made.
	Derive func(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan
	// Exec executes a plan.
	Exec func(p *Plan, o *Outcome)
}

var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// exec runs a plan.  A few calls of the library are made outside of simulated
// tasks; their panics are findings too.
func exec(pr *Prop, p *Plan, o *Outcome) {
	defer func() {
		v := recover()
		if v == nil {
			return
		}
		if a, ok := v.(asideFail); ok {
			if !strings.Contains(a.msg, "sim: ") {
				o.fail(a.class, "%s", a.msg)
				return
			}
			panic(v)
		}
		stack := string(debug.Stack())
		if i := strings.Index(stack, "panic("); i >= 0 {
			stack = stack[i:]
		}
		if s := trimStack(stack); s != "" && !strings.Contains(fmt.Sprint(v), "sim: ") {
			o.fail("panic", "panic outside of the simulation: %v\n%s", v, s)
			return
		}
		panic(v)
	}()
	pr.Exec(p, o)
}

// Execute runs a plan and reports what happened.
func Execute(p *Plan) (o *Outcome) {
	o = &Outcome{Fired: map[string]int64{}, Probes: map[string]int64{}}
	pr := Props[p.Prop]
	races := simrt.RaceErrors()
	exec(pr, p, o)
	if d := simrt.RaceErrors() - races; d > 0 {
		if o.Class == "" || o.Class != "panic" && o.Class != "deadlock" {
			o.Class, o.Msg = "data-race", fmt.Sprintf("the race detector found %d data race(s)", d)
		}
	}
	if o.Class != "" {
		o.noteStr(o.Class)
	}
	return o
}
