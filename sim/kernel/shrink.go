package kernel

import "time"

// Outcome is what one run produced.
type Outcome struct {
	Viol       *Violation
	Herr       *HarnessError
	Hash       uint64
	Nontrivial bool
	Steps      int
	Switches   int
	SimTime    time.Duration
	Count      map[string]int64
	Tape       []uint32
	Spans      []Span
	Trace      []string
	Sample     string
	End        string
}

func trimZeros(v []uint32) []uint32 {
	for len(v) > 0 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

func smaller(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Shrink minimises a failing tape while the violation class stays the same.
func Shrink(run func(tape []uint32) *Outcome, first *Outcome, budget time.Duration) (*Outcome, int) {
	deadline := time.Now().Add(budget)
	best := first
	cur := append([]uint32(nil), trimZeros(first.Tape)...)
	tries := 0
	try := func(c []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		c = trimZeros(c)
		if !smaller(c, cur) {
			return false
		}
		tries++
		o := run(c)
		if o.Viol == nil || o.Viol.Class != first.Viol.Class {
			return false
		}
		n := trimZeros(o.Tape)
		if smaller(n, c) {
			c = n
		}
		cur = append([]uint32(nil), c...)
		best = o
		return true
	}
	del := func(s, e int) []uint32 {
		c := make([]uint32, 0, len(cur))
		c = append(c, cur[:s]...)
		return append(c, cur[e:]...)
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// generated operations
		for i := len(best.Spans) - 1; i >= 0; i-- {
			if i >= len(best.Spans) {
				continue
			}
			s := best.Spans[i]
			if s.End > len(cur) || s.Start >= s.End {
				continue
			}
			if try(del(s.Start, s.End)) {
				improved = true
			}
		}
		// truncate
		for n := len(cur) / 2; n >= 1; n /= 2 {
			for len(cur) > n && try(del(len(cur)-n, len(cur))) {
				improved = true
			}
		}
		// blocks
		for n := 128; n >= 1; n /= 2 {
			for i := len(cur) - n; i >= 0; i -= n {
				if i+n > len(cur) {
					continue
				}
				if try(del(i, i+n)) {
					improved = true
					continue
				}
				z := append([]uint32(nil), cur...)
				nz := false
				for j := i; j < i+n; j++ {
					nz = nz || z[j] != 0
					z[j] = 0
				}
				if nz && try(z) {
					improved = true
				}
			}
		}
		// values
		for i := 0; i < len(cur); i++ {
			lo, hi := uint32(0), cur[i]
			for lo < hi {
				mid := (lo + hi) / 2
				z := append([]uint32(nil), cur...)
				z[i] = mid
				if try(z) {
					improved = true
					if i >= len(cur) {
						break
					}
					hi = min(mid, cur[i])
				} else {
					lo = mid + 1
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
	}
	// the reported outcome is the one of the final tape
	o := run(cur)
	if o.Viol != nil && o.Viol.Class == first.Viol.Class {
		o.Tape = cur
		return o, tries
	}
	return best, tries
}
