// Package kernel is the deterministic simulator: a recorded choice tape, a
// cooperative task scheduler with a simulated clock, simulated byte streams and
// a datagram network with fault injection, and a shrinker for choice tapes.
package kernel

// Tape is the single source of every choice made in a run. It either draws
// fresh values from a seeded generator or replays a recorded sequence. After
// the end of a replayed sequence every choice is 0, which by convention is the
// simplest one (no fault, nothing more to do, first runnable task).
type Tape struct {
	state  uint64
	replay []uint32
	isRep  bool
	Rec    []uint32
	Spans  []Span
	open   []int
	over   bool
}

// Span marks a group of choices that belongs together (one generated operation,
// say), which the shrinker may delete as a unit.
type Span struct{ Start, End int }

// MaxTape bounds the choices of a run.
const MaxTape = 1 << 23

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// RunSeed derives the seed of run i of a property.
func RunSeed(seed uint64, prop string, i uint64) uint64 {
	h := Mix(seed ^ 0x5851f42d4c957f2d)
	for _, c := range []byte(prop) {
		h = Mix(h ^ uint64(c))
	}
	return Mix(h ^ Mix(i))
}

func NewTape(seed uint64) *Tape { return &Tape{state: seed} }

func ReplayTape(v []uint32) *Tape { return &Tape{replay: v, isRep: true} }

// Intn returns a choice in [0,n).
func (t *Tape) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if len(t.Rec) >= MaxTape {
		t.over = true
		return 0
	}
	if t.isRep {
		if p := len(t.Rec); p < len(t.replay) {
			v = t.replay[p]
			if v >= uint32(n) {
				v = uint32(n - 1)
			}
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		x := t.state
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
		v = uint32((x >> 32) % uint64(n))
	}
	t.Rec = append(t.Rec, v)
	return int(v)
}

// Range returns a choice in [lo,hi].
func (t *Tape) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Chance is true with probability permille/1000; choice 0 means false.
func (t *Tape) Chance(permille int) bool {
	if permille <= 0 {
		return false
	}
	return t.Intn(1000) >= 1000-permille
}

// Bool is a fair coin.
func (t *Tape) Bool() bool { return t.Intn(2) == 1 }

// Weighted picks an index with the given weights; index 0 is the simplest.
func (t *Tape) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.Intn(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Size draws a size in [0,max] biased towards small values and boundaries.
func (t *Tape) Size(max int) int {
	if max <= 0 {
		return 0
	}
	switch t.Weighted(4, 3, 2, 1) {
	case 0:
		return t.Intn(min(max, 4) + 1)
	case 1:
		return t.Intn(min(max, 20) + 1)
	case 2:
		return t.Intn(min(max, 200) + 1)
	}
	return t.Intn(max + 1)
}

// Near draws a value within +-d of one of the given points (not below 0).
func (t *Tape) Near(d int, pts ...int) int {
	v := pts[t.Intn(len(pts))] + t.Intn(2*d+1) - d
	if v < 0 {
		v = 0
	}
	return v
}

// Begin opens a span and End closes it.
func (t *Tape) Begin() { t.open = append(t.open, len(t.Rec)) }
func (t *Tape) End() {
	n := len(t.open) - 1
	s := t.open[n]
	t.open = t.open[:n]
	if len(t.Rec) > s && len(t.Spans) < 1<<14 {
		t.Spans = append(t.Spans, Span{s, len(t.Rec)})
	}
}

// Blob returns n bytes derived from one choice; choice 0 gives a constant fill.
func (t *Tape) Blob(n int, alphabet string) []byte {
	b := make([]byte, n)
	seed := t.Intn(1 << 16)
	if seed == 0 {
		c := byte('a')
		if alphabet != "" {
			c = alphabet[0]
		}
		for i := range b {
			b[i] = c
		}
		return b
	}
	x := Mix(uint64(seed))
	for i := range b {
		if i&7 == 0 {
			x = Mix(x + uint64(i))
		}
		v := byte(x >> (8 * uint(i&7)))
		if alphabet != "" {
			b[i] = alphabet[int(v)%len(alphabet)]
		} else {
			b[i] = v
		}
	}
	return b
}
