// Package props holds one scenario per property: the workload that drives the
// real go-dc code inside the simulator and the oracle that judges it.
package props

import (
	"fmt"
	"sort"
	"time"

	. "verifsim/kernel"
)

// Prop is one decided property.
type Prop struct {
	ID       string
	Quick    int // runs in the quick tier
	Thorough int
	MaxSteps int
	Rule     string   // how runs are made and what makes one non-trivial
	Real     []string // components that ran real code
	Stub     []string // components that ran a stub
	Run      func(w *World)
}

// All lists the properties by id.
var All = map[string]*Prop{}

func register(p *Prop) {
	if p.MaxSteps == 0 {
		p.MaxSteps = 2000000
	}
	All[p.ID] = p
}

// IDs lists the ids in order.
func IDs() []string {
	var a []string
	for id := range All {
		a = append(a, id)
	}
	sort.Strings(a)
	return a
}

// IterSeed is set by the main package to control Go map iteration order.
var IterSeed = func(uint64) {}

// RunOnce executes one run of a property on a tape.
func RunOnce(p *Prop, t *Tape, trace bool) (o *Outcome) {
	w := NewWorld(t)
	w.MaxSteps = p.MaxSteps
	w.Tracing = trace
	defer func() {
		for _, f := range w.AfterRun {
			f()
		}
	}()
	o = &Outcome{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.Panicked("setup", r)
			}
		}()
		IterSeed(uint64(1 + t.Intn(1<<12)))
		w.SetPolicy()
		p.Run(w)
	}()
	IterSeed(0)
	o.Viol = w.Viol
	o.Herr = w.Herr
	o.Hash = w.Hash()
	o.Steps, o.Switches, o.SimTime = w.Steps, w.Switches, w.Now()
	o.Count = w.Count
	o.Tape, o.Spans = t.Rec, t.Spans
	o.Trace = w.Trace
	o.Sample = w.Sample
	o.End = w.End
	faults := int64(0)
	for k, v := range w.Count {
		if len(k) > 6 && k[:6] == "fault." {
			faults += v
		}
	}
	// a run is non-trivial when it did work under at least one injected fault,
	// contended schedule decision or fragmented read
	o.Nontrivial = w.Count["op"] > 0 && (faults > 0 || w.Switches > 2 || w.Count["probe.short_reads"] > 0)
	return o
}

// finish runs the world and turns a deadlock or an exhausted step budget into
// a violation of the given class.
func finish(w *World, what string) bool {
	switch w.Run() {
	case EndDone:
		return true
	case EndDeadlock:
		w.Fail("stuck", "%s: no task can make progress although no fault is pending: %v", what, w.Blocked)
	case EndBudget:
		w.Fail("livelock", "%s: no end after %d scheduler steps (%v simulated)", what, w.Steps, w.Now())
	}
	return false
}

const ms = time.Millisecond

func q(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// firstDiff gives the first differing offset of two byte strings.
func firstDiff(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) == len(b) {
		return -1
	}
	return n
}
