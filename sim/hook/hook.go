// Package hook is called before every statement of the instrumented code
// under test (see cmd/instr). It does nothing unless the simulator asked for
// preemption in the running execution.
package hook

// Off is the countdown of a run without preemption.
const Off = int64(1) << 62

// N counts down the statements to the next preemption.
var N = Off

// Preempt is called when the countdown ends; it sets N again.
var Preempt = func() { N = Off }

// Block gives other tasks a turn while the caller waits for a lock. It
// reports false when the caller is not a simulated task.
var Block = func() bool { return false }

// Epoch numbers the executions of this process.
var Epoch uint64

// P is a statement boundary.
func P() {
	N--
	if N <= 0 {
		Preempt()
	}
}
