package kernel

import (
	"container/heap"
	"fmt"
	"iter"
	"runtime"
	"strings"
	"time"

	"verifsim/hook"
)

// Violation is a broken property: Class is stable under shrinking, Msg is for people.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// HarnessError is a panic raised by the simulator itself, never by the code under test.
type HarnessError struct{ Msg string }

type sentinel struct{ s string }

var (
	killed  = &sentinel{"killed"}
	aborted = &sentinel{"aborted"}
)

// Task is one simulated thread of control.
type Task struct {
	w        *World
	id       int
	name     string
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	Done     bool
	runnable bool
	reason   string
	prio     int
	joiners  []*Task
	gid      string
}

func (t *Task) Name() string { return t.name }

type event struct {
	at  time.Duration
	seq uint64
	fn  func()
	off bool
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// End states of a run.
const (
	EndDone     = "done"
	EndDeadlock = "deadlock"
	EndBudget   = "budget"
	EndAborted  = "aborted"
)

// World is one simulated execution.
type World struct {
	T        *Tape
	now      time.Duration
	seq      uint64
	events   eventHeap
	tasks    []*Task
	runq     []*Task
	cur      *Task
	last     *Task
	policy   int
	Steps    int
	MaxSteps int
	Switches int
	hash     uint64
	Tracing  bool
	Trace    []string
	Viol     *Violation
	Herr     *HarnessError
	End      string
	Blocked  []string
	dying    bool
	Count    map[string]int64
	Sample   string // a short human description of the run
	NoJump   bool   // time passes only when no task can run
	AfterRun []func()
	fine     int // mean number of statements between preemptions, 0: none
	fineLeft int
}

func NewWorld(t *Tape) *World {
	hook.Epoch++
	return &World{T: t, MaxSteps: 200000, hash: 1469598103934665603, Count: make(map[string]int64)}
}

// Inc counts a fault that fired or a probe that was reached.
func (w *World) Inc(k string)          { w.Count[k]++ }
func (w *World) Add(k string, n int64) { w.Count[k] += n }

func (w *World) Now() time.Duration { return w.now }

// Hash is the rolling hash of everything observable that happened so far.
func (w *World) Hash() uint64 { return w.hash }

func (w *World) mix(v uint64) { w.hash = (w.hash ^ v) * 1099511628211; w.hash ^= w.hash >> 29 }

// Ev records an observable event.
func (w *World) Ev(kind string, a ...int) {
	for i := 0; i < len(kind); i++ {
		w.mix(uint64(kind[i]))
	}
	for _, x := range a {
		w.mix(uint64(x))
	}
	w.mix(uint64(w.now))
	if w.Tracing {
		name := "-"
		if w.cur != nil {
			name = w.cur.name
		}
		w.Trace = append(w.Trace, fmt.Sprintf("%9.3fms %-10s %s %s", float64(w.now)/1e6, name, kind, strings.Trim(fmt.Sprint(a), "[]")))
	}
}

// EvBytes records an observable event with data.
func (w *World) EvBytes(kind string, id int, p []byte) {
	var h uint64 = 14695981039346656037
	for _, b := range p {
		h = (h ^ uint64(b)) * 1099511628211
	}
	w.mix(h)
	w.mix(uint64(len(p)))
	w.mix(uint64(id))
	for i := 0; i < len(kind); i++ {
		w.mix(uint64(kind[i]))
	}
	if w.Tracing {
		name := "-"
		if w.cur != nil {
			name = w.cur.name
		}
		s := p
		dots := ""
		if len(s) > 96 {
			s, dots = s[:96], "..."
		}
		w.Trace = append(w.Trace, fmt.Sprintf("%9.3fms %-10s %s[%d] len=%d %q%s", float64(w.now)/1e6, name, kind, id, len(p), s, dots))
	}
}

// EvStr records an observable event with text.
func (w *World) EvStr(kind, s string) { w.EvBytes(kind, 0, []byte(s)) }

// Go starts a task.
func (w *World) Go(name string, f func()) *Task {
	t := &Task{w: w, id: len(w.tasks), name: name}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		t.gid = goid()
		defer w.taskEnd(t)
		f()
	})
	if w.policy == 3 {
		t.prio = w.T.Intn(1000)
	}
	w.tasks = append(w.tasks, t)
	w.ready(t)
	return t
}

func (w *World) taskEnd(t *Task) {
	t.Done = true
	if r := recover(); r != nil {
		if s, ok := r.(*sentinel); ok && (s == killed || s == aborted) {
			return
		}
		w.Panicked(t.name, r)
		return
	}
	if !w.dying {
		for _, j := range t.joiners {
			w.ready(j)
		}
	}
}

// Panicked records a recovered panic: a violation when it was raised in the
// code under test, an error of the simulator otherwise.
func (w *World) Panicked(where string, r any) {
	buf := make([]byte, 16<<10)
	buf = buf[:runtime.Stack(buf, false)]
	lib, at := panicOrigin()
	if lib {
		if w.Viol == nil {
			w.Viol = &Violation{Class: "panic", Msg: fmt.Sprintf("panic in task %s: %v at %s\n%s", where, r, at, trimStack(string(buf)))}
		}
	} else if w.Herr == nil {
		w.Herr = &HarnessError{Msg: fmt.Sprintf("harness panic in task %s: %v\n%s", where, r, buf)}
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-dc") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// panicOrigin reports whether the panic was raised by the code under test or
// by the standard library on its behalf, rather than by the simulator.
func panicOrigin() (lib bool, where string) {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seenPanic := false
	for {
		f, more := fr.Next()
		fn := f.Function
		if fn == "runtime.gopanic" || strings.HasPrefix(fn, "runtime.panic") || strings.HasPrefix(fn, "runtime.goPanic") || fn == "runtime.sigpanic" {
			seenPanic = true
		} else if seenPanic && !strings.HasPrefix(fn, "runtime.") {
			if strings.HasPrefix(fn, "verifsim/") {
				return false, fn
			}
			if strings.Contains(fn, "go-dc") {
				return true, fmt.Sprintf("%s:%d", fn, f.Line)
			}
			// standard library or a dependency: attribute to whoever called it
			if where == "" {
				where = fn
			}
		}
		if !more {
			break
		}
	}
	return where != "", where
}

func (w *World) ready(t *Task) {
	if t.Done || t.runnable {
		return
	}
	t.runnable = true
	t.reason = ""
	w.runq = append(w.runq, t)
}

// Cur returns the running task.
func (w *World) Cur() *Task { return w.cur }

// Dying reports that the run is being torn down: seams must return at once.
func (w *World) Dying() bool { return w.dying || w.cur == nil }

func (w *World) suspend() {
	t := w.cur
	if !t.yield(struct{}{}) {
		panic(killed)
	}
}

// Yield is a schedule point: any runnable task may run next.
func (w *World) Yield() {
	if w.dying || w.cur == nil {
		return
	}
	t := w.cur
	w.ready(t)
	w.suspend()
}

// Fine makes every statement of the code under test a possible schedule point
// for the rest of the run: on average one in gap, limit times at most.
func (w *World) Fine(gap, limit int) {
	w.fine, w.fineLeft = gap, limit
}

// goid identifies the running goroutine.
func goid() string {
	var b [40]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	return s
}

// inTask reports whether the caller is the running task, and not a goroutine
// that the code under test started.
func (w *World) inTask() bool { return !w.dying && w.cur != nil && w.cur.gid == goid() }

// preempt is called before a statement of the code under test.
func (w *World) preempt() {
	if !w.inTask() {
		hook.N = 20
		return
	}
	if w.fine == 0 || w.fineLeft <= 0 || w.T.over {
		hook.N = hook.Off
		return
	}
	w.fineLeft--
	hook.N = int64(1 + w.T.Intn(2*w.fine))
	w.Inc("fault.preempted")
	w.Yield()
}

// block lets other tasks run while the running one waits for a lock.
func (w *World) block() bool {
	if !w.inTask() {
		return false
	}
	w.Inc("probe.lock_contended")
	w.cur.prio = -w.Steps
	w.Yield()
	return true
}

// Park blocks the running task until it is woken.
func (w *World) Park(reason string) {
	if w.dying || w.cur == nil {
		return
	}
	w.cur.reason = reason
	w.suspend()
}

// Wake makes a parked task runnable.
func (w *World) Wake(t *Task) { w.ready(t) }

// Join waits for another task to finish.
func (w *World) Join(t *Task) {
	for !t.Done && !w.dying {
		t.joiners = append(t.joiners, w.cur)
		w.Park("join " + t.name)
	}
}

// Timer is a scheduled event.
type Timer struct{ e *event }

func (t *Timer) Stop() {
	if t != nil && t.e != nil {
		t.e.off = true
	}
}

// After schedules f to run d of simulated time from now.
func (w *World) After(d time.Duration, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	w.seq++
	e := &event{at: w.now + d, seq: w.seq, fn: f}
	heap.Push(&w.events, e)
	return &Timer{e}
}

// Sleep suspends the running task for d of simulated time.
func (w *World) Sleep(d time.Duration) {
	if w.dying || w.cur == nil {
		return
	}
	t := w.cur
	w.After(d, func() { w.ready(t) })
	w.Park("sleep")
}

// Fail records a violation and ends the run.
func (w *World) Fail(class, format string, a ...any) {
	hook.N = hook.Off // the arguments may be formatted by the code under test
	if w.Viol == nil && !w.dying {
		w.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
	}
	if w.cur != nil {
		panic(aborted)
	}
}

func (w *World) pick() *Task {
	n := len(w.runq)
	i := 0
	if n > 1 {
		switch w.policy {
		case 0:
			i = w.T.Intn(n)
		case 1: // sticky: mostly continue with the same task
			if w.last != nil && w.last.runnable && w.T.Intn(8) < 6 {
				for j, t := range w.runq {
					if t == w.last {
						i = j
					}
				}
			} else {
				i = w.T.Intn(n)
			}
		case 2: // first come first served with rare exceptions
			if w.T.Chance(60) {
				i = w.T.Intn(n)
			}
		case 3: // priorities with change points
			for j, t := range w.runq {
				if t.prio > w.runq[i].prio {
					i = j
				}
			}
			if w.T.Chance(30) {
				w.runq[i].prio = -w.Steps
			}
		}
	}
	t := w.runq[i]
	w.runq = append(w.runq[:i], w.runq[i+1:]...)
	t.runnable = false
	return t
}

// Run executes the world until every task is done, nothing can run, or the
// step budget is exhausted.
func (w *World) Run() string {
	w.End = ""
	hook.Preempt, hook.Block = w.preempt, w.block
	hook.N = hook.Off
	if w.fine > 0 {
		hook.N = int64(1 + w.T.Intn(2*w.fine))
	}
	defer func() {
		hook.N, hook.Preempt = hook.Off, func() { hook.N = hook.Off }
		hook.Block = func() bool { return false }
	}()
	for {
		if w.Viol != nil || w.Herr != nil {
			w.End = EndAborted
			break
		}
		if w.Steps >= w.MaxSteps || w.T.over {
			w.End = EndBudget
			break
		}
		// due events first; now and then time passes although tasks could run
		for len(w.events) > 0 {
			e := w.events[0]
			if e.off {
				heap.Pop(&w.events)
				continue
			}
			if e.at > w.now {
				if len(w.runq) == 0 {
					break
				}
				if w.NoJump || !w.T.Chance(40) {
					break
				}
				w.now = e.at
			}
			heap.Pop(&w.events)
			w.Steps++
			e.fn()
		}
		if w.Viol != nil {
			continue
		}
		if len(w.runq) == 0 {
			if len(w.events) > 0 && !w.allDone() {
				w.now = w.events[0].at
				continue
			}
			w.End = EndDone
			for _, t := range w.tasks {
				if !t.Done {
					w.End = EndDeadlock
					w.Blocked = append(w.Blocked, t.name+": "+t.reason)
				}
			}
			break
		}
		t := w.pick()
		if w.last != t {
			w.Switches++
		}
		w.Steps++
		w.mix(uint64(t.id) + 77)
		w.cur, w.last = t, t
		t.next()
		w.cur = nil
	}
	w.kill()
	return w.End
}

func (w *World) allDone() bool {
	for _, t := range w.tasks {
		if !t.Done {
			return false
		}
	}
	return true
}

func (w *World) kill() {
	w.dying = true
	for _, t := range w.tasks {
		if !t.Done {
			w.cur = t
			t.stop()
			w.cur = nil
		}
	}
	w.tasks = nil
	w.runq = nil
	w.events = nil
	w.dying = false
}

// SetPolicy draws the scheduling policy of the run.
func (w *World) SetPolicy() { w.policy = w.T.Intn(4) }

// OpBudget panics with a violation when a loop in a scenario makes no progress.
func (w *World) String() string {
	return fmt.Sprintf("steps=%d switches=%d time=%v end=%s", w.Steps, w.Switches, w.now, w.End)
}
