package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	th "github.com/cxmcc/tiger"

	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/tiger"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 60000, Thorough: 1500000,
		Rule: "1 to 3 hashing tasks read contents whose lengths are drawn around block and tree-shape boundaries from simulated streams (plain, inside a binary section, or inside a compressed one) with short and empty reads, data together with the end of file, transient and final errors at drawn offsets; results are compared with a recursive reference over the same digest, leaf by leaf, and the hashed leaves are checked to be unmodified.",
		Real: []string{"tiger.TreeHash", "tiger.TreeLeaves", "tiger.Leaves.TreeHash", "tiger.HashBytes", "tiger.New", "lineproto.Reader", "github.com/cxmcc/tiger"},
		Stub: []string{"sources (simulated pipes)", "clock"},
		Run:  runC20,
	})
}

func refDigest(prefix byte, parts ...[]byte) (out [24]byte) {
	h := th.New()
	h.Write([]byte{prefix})
	for _, p := range parts {
		h.Write(p)
	}
	copy(out[:], h.Sum(nil))
	return
}

func refLeaves(data []byte) (l [][24]byte) {
	for len(data) > 1024 {
		l = append(l, refDigest(0, data[:1024]))
		data = data[1024:]
	}
	return append(l, refDigest(0, data))
}

// refRoot splits at the largest power of two below the number of leaves.
func refRoot(l [][24]byte) [24]byte {
	if len(l) == 1 {
		return l[0]
	}
	k := 1
	for k*2 < len(l) {
		k *= 2
	}
	a, b := refRoot(l[:k]), refRoot(l[k:])
	return refDigest(1, a[:], b[:])
}

func refTreeHash(data []byte) [24]byte { return refRoot(refLeaves(data)) }

func runC20(w *World) {
	t := w.T
	for k, n := 0, 1+t.Weighted(4, 1, 1); k < n; k++ {
		t.Begin()
		hashTask(w, k)
		t.End()
	}
	finish(w, "hashing")
}

func hashTask(w *World, id int) {
	t := w.T
	blocks := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 40}[t.Weighted(4, 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1)]
	if t.Chance(12) { // higher trees
		blocks = 41 + t.Intn(600)
		if t.Chance(300) {
			blocks = t.Near(3, []int{256, 512, 768, 1024, 1280, 1536, 2048}[t.Intn(7)])
		}
	}
	size := t.Near(2, blocks*1024)
	if t.Chance(300) {
		size = blocks*1024 + t.Intn(1024)
	}
	data := t.Blob(size, "")
	if t.Chance(200) { // equal blocks, or content that looks like tree prefixes
		copy(data, bytes.Repeat([]byte{byte(t.Intn(3))}, len(data)))
	}
	src := t.Weighted(4, 1, 1) // stream, binary section, compressed binary section
	wire := data
	after := []byte("after\n")
	switch src {
	case 1:
		wire = append(append([]byte(nil), data...), after...)
	case 2:
		wire = compressSection(t, append(append([]byte(nil), data...), after...), drawLevel(t))
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	if prof.Frag == FragOne && size > 4000 {
		prof.Frag = FragMid
	}
	prof.Tame(len(wire))
	errs := []error{ErrReset, ErrTransient, io.ErrUnexpectedEOF, io.ErrClosedPipe, errors.New("sim: bad sector"), io.ErrNoProgress}
	fault := t.Weighted(5, 2, 1)
	var want error
	at := -1
	switch fault {
	case 1: // the source breaks for good
		at = t.Intn(len(wire) + 1)
		if src == 0 && t.Bool() {
			at = min(len(wire), t.Near(1, t.Intn(blocks+1)*1024))
		}
		want = errs[t.Intn(len(errs))]
		prof.CutAt, prof.CutErr = at, want
	case 2: // one error, then the source would go on
		at = t.Intn(len(wire) + 1)
		want = errs[t.Intn(len(errs))]
		prof.RFaults = append(prof.RFaults, &RFault{At: at, Err: want})
	}
	p := w.NewPipe(id, prof)
	mode := t.Intn(3)
	w.Sample += fmt.Sprintf("[%d bytes source %d mode %d fault %d at %d (%v)] ", size, src, mode, fault, at, want)
	feeder(w, p, wire)
	w.Go(fmt.Sprintf("hash%d", id), func() {
		defer p.CloseRead()
		var r io.Reader = p
		if size < 50000 && t.Chance(200) && fault != 2 {
			r = &errWithData{r: p}
		}
		var lr *lineproto.Reader
		var rc io.ReadCloser
		if src > 0 {
			lr = lineproto.NewReader(r, '\n')
			if src == 2 {
				if err := lr.EnableZlib(); err != nil {
					if fault == 0 {
						w.Fail("zlib", "EnableZlib: %v", err)
					}
					return
				}
			}
			rc, _ = lr.Binary(uint64(size))
			r = rc
		}
		leaves := refLeaves(data)
		root := refRoot(leaves)
		w.Inc("op")
		judge := func(err error, what string) bool {
			if err == nil {
				// with a section the fault may lie behind the content
				if src == 0 && (p.CutFired() || p.Count("") > 0) {
					w.Fail("error-lost", "%s of %d bytes succeeded although the source failed with %v at %d", what, size, want, at)
				}
				return true
			}
			if fault == 0 {
				w.Fail("false-error", "%s of %d bytes reported %v although the source is healthy", what, size, err)
			}
			if src == 0 && !errors.Is(err, want) {
				w.Fail("wrong-error", "%s reported %v although the source failed with %v", what, err, want)
			}
			w.Inc("probe.error_returned")
			return false
		}
		switch mode {
		case 0:
			h, err := tiger.TreeHash(r)
			if judge(err, "TreeHash") && [24]byte(h) != root {
				w.Fail("wrong-hash", "TreeHash of %d bytes is %s, want %s", size, h, tiger.Hash(root))
			}
			if err == nil && t.Bool() {
				hashTexts(w, h)
			}
		case 1:
			l, err := tiger.TreeLeaves(r)
			if !judge(err, "TreeLeaves") {
				break
			}
			if len(l) != len(leaves) {
				w.Fail("wrong-leaves", "TreeLeaves of %d bytes gives %d leaves, want %d", size, len(l), len(leaves))
			}
			for i := range l {
				if [24]byte(l[i]) != leaves[i] {
					w.Fail("wrong-leaves", "leaf %d of %d bytes is %s, want %s", i, size, l[i], tiger.Hash(leaves[i]))
				}
			}
			if t.Chance(100) { // a peer may send none
				if h := (tiger.Leaves{}).TreeHash(); [24]byte(h) == root || h != (tiger.Leaves(nil)).TreeHash() {
					w.Fail("wrong-hash", "the root of no leaves is %s", h)
				}
			}
			spare := append(l, tiger.Hash{1, 2, 3})[:len(l)]
			for k := 0; k < 2; k++ {
				if h := spare.TreeHash(); [24]byte(h) != root {
					w.Fail("wrong-hash", "the root computed from the leaves of %d bytes is %s, want %s", size, h, tiger.Hash(root))
				}
				for i := range spare {
					if [24]byte(spare[i]) != leaves[i] {
						w.Fail("leaves-modified", "computing a root modified leaf %d of %d", i, len(l))
					}
				}
				if spare[:len(l)+1][len(l)] != (tiger.Hash{1, 2, 3}) {
					w.Fail("leaves-modified", "computing a root wrote beyond the leaf list")
				}
				w.Yield()
			}
		case 2: // the plain digest of a stream, fed as it arrives
			h := tiger.New()
			buf := make([]byte, 1+size/1000+t.Intn(300))
			for {
				n, err := r.Read(buf)
				h.Write(buf[:n])
				if err == io.EOF {
					break
				}
				if err != nil {
					return
				}
			}
			hashTexts(w, tiger.HashBytes(data))
			ref := th.New()
			ref.Write(data)
			if got := h.Sum(nil); !bytes.Equal(got, ref.Sum(nil)) {
				w.Fail("wrong-digest", "the streamed digest of %d bytes is %x, want %x", size, got, ref.Sum(nil))
			}
			if got := tiger.HashBytes(data); !bytes.Equal(got[:], ref.Sum(nil)) {
				w.Fail("wrong-digest", "HashBytes of %d bytes is %x, want %x", size, got, ref.Sum(nil))
			}
		}
		if rc != nil && fault == 0 {
			if err := rc.Close(); err != nil {
				w.Fail("section", "closing the hashed section: %v", err)
			}
			if b, err := lr.ReadLine(); err != nil || !bytes.Equal(b, after) {
				w.Fail("section", "after the hashed section the stream continues with %s, %v", q(b), err)
			}
		}
	})
}

// hashTexts checks the text forms of a hash: they are those of an independent
// base32, they come back as the same hash through every parser, and a text that
// is shorter, longer or not base32 is refused.
func hashTexts(w *World, h tiger.Hash) {
	t := w.T
	text := refBase32(h[:])
	tb, err := h.MarshalText()
	buf := make([]byte, tiger.Base32Size)
	err2 := h.MarshalBase32(buf)
	var ab bytes.Buffer
	err3 := h.MarshalADC(&ab)
	for i, s := range []string{h.String(), h.Base32(), string(tb), string(buf), ab.String()} {
		if s != text || err != nil || err2 != nil || err3 != nil {
			w.Fail("text-form", "the text of the hash %x is %s in form %d, want %s (%v, %v, %v)", h[:], q([]byte(s)), i, text, err, err2, err3)
		}
	}
	if s := h.Hex(); s != fmt.Sprintf("%x", h[:]) {
		w.Fail("text-form", "the hexadecimal text of the hash %x is %s", h[:], s)
	}
	if !bytes.Equal(h.Bytes(), h[:]) || h.IsZero() != (h == tiger.Hash{}) {
		w.Fail("text-form", "the hash %x has the bytes %x, is zero: %v", h[:], h.Bytes(), h.IsZero())
	}
	bad, wrong := badBase32(t, text)
	parse := []struct {
		name string
		f    func(h *tiger.Hash, s string) error
	}{
		{"FromBase32", (*tiger.Hash).FromBase32},
		{"UnmarshalText", func(h *tiger.Hash, s string) error { return h.UnmarshalText([]byte(s)) }},
		{"UnmarshalBase32", func(h *tiger.Hash, s string) error { return h.UnmarshalBase32([]byte(s)) }},
		{"UnmarshalADC", func(h *tiger.Hash, s string) error { return h.UnmarshalADC([]byte(s)) }},
		{"MustParseBase32", func(h *tiger.Hash, s string) error {
			return orPanic(func() { *h = tiger.MustParseBase32(s) })
		}},
	}
	for _, f := range parse {
		var got tiger.Hash
		if t.Bool() { // a reused value
			copy(got[:], t.Blob(len(got), ""))
		}
		if err := f.f(&got, text); err != nil || got != h {
			w.Fail("text-form", "%s of %s gives %x (%v), want %x", f.name, text, got[:], err, h[:])
		}
		if wrong && f.f(&got, bad) == nil {
			w.Fail("text-form", "%s accepts %s", f.name, q([]byte(bad)))
		}
	}
	w.Inc("probe.texts")
}

// badBase32 draws a text that is not that of any 24 bytes.
func badBase32(t *Tape, text string) (string, bool) {
	switch t.Intn(4) {
	case 0: // too short
		return text[:t.Near(1, []int{0, 1, 8, 16, 32, len(text) - 2}[t.Intn(6)])], true
	case 1: // too long
		return text + "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567ABCDEFGH"[:[]int{1, 2, 3, 8, 9, 40}[t.Intn(6)]], true
	case 2: // not base32
		i := t.Intn(len(text))
		return text[:i] + string("018 !-_\xff"[t.Intn(8)]) + text[i+1:], true
	}
	return text, false
}

func orPanic(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return
}

// errWithData reports an error together with the last data before it.
type errWithData struct {
	r   io.Reader
	buf []byte
	err error
}

func (e *errWithData) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for e.err == nil && len(e.buf) <= len(p) {
		b := make([]byte, len(p)+1)
		n, err := e.r.Read(b)
		e.buf = append(e.buf, b[:n]...)
		e.err = err
		if n > 0 && err == nil && len(e.buf) > 1 {
			break
		}
	}
	if len(e.buf) == 0 {
		return 0, e.err
	}
	n := copy(p, e.buf)
	if e.err == nil && n == len(e.buf) && n > 1 {
		n-- // keep one byte back so that data remains to go with an error
	}
	e.buf = e.buf[n:]
	if len(e.buf) == 0 && e.err != nil {
		return n, e.err
	}
	return n, nil
}
