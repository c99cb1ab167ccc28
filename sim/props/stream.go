package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/lineproto"

	. "verifsim/kernel"
)

// item is one unit of an inbound stream as both sides know it.
type item struct {
	kind byte // 'l' line, 'r' raw bytes, 'b' binary section
	data []byte
	off  int // offset in the logical (decompressed) stream
}

func (it item) String() string { return fmt.Sprintf("%c%d", it.kind, len(it.data)) }

func describe(its []item) string {
	var sb strings.Builder
	for i, it := range its {
		if i > 12 {
			fmt.Fprintf(&sb, " ...(%d items)", len(its))
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(it.String())
	}
	return sb.String()
}

// lineData draws a line body without the delimiter.
func lineData(t *Tape, delim byte, n int) []byte {
	b := t.Blob(n, "")
	for i, c := range b {
		if c == delim {
			b[i] = c + 1
		}
	}
	return b
}

func drawLineLen(t *Tape) int {
	switch t.Weighted(6, 3, 2, 1) {
	case 0:
		return t.Intn(12)
	case 1:
		return t.Intn(300)
	case 2:
		return t.Near(3, 2048, 4096, 1024, 6144)
	}
	return t.Intn(9000)
}

// drawItems draws the items of a stream; kinds is a subset of "lrb".
func drawItems(t *Tape, delim byte, max int, kinds string, firstOff int) []item {
	var its []item
	off := firstOff
	n := t.Intn(max + 1)
	for i := 0; i < n; i++ {
		t.Begin()
		k := kinds[0]
		if len(kinds) > 1 && t.Intn(3) > 0 {
			k = kinds[t.Intn(len(kinds))]
		}
		var it item
		switch k {
		case 'l':
			it = item{kind: 'l', data: append(lineData(t, delim, drawLineLen(t)), delim)}
		default:
			n := drawLineLen(t)
			if t.Chance(6) { // far larger than any buffer
				n = 1<<(15+t.Intn(6)) + t.Intn(1000)
			}
			it = item{kind: k, data: t.Blob(n, "")}
			// make delimiters frequent in raw data
			if len(it.data) > 0 && t.Bool() {
				for j := 0; j < len(it.data); j += 1 + t.Intn(40) {
					it.data[j] = delim
				}
			}
		}
		it.off = off
		off += len(it.data)
		its = append(its, it)
		t.End()
	}
	return its
}

func joinItems(its []item) []byte {
	var b []byte
	for _, it := range its {
		b = append(b, it.data...)
	}
	return b
}

func drawDelim(t *Tape) byte {
	if t.Bool() {
		return '\n'
	}
	return '|'
}

// feeder writes bytes to a pipe in drawn chunks with drawn pauses and closes it.
func feeder(w *World, p *Pipe, wire []byte) {
	w.Go("peer", func() {
		for len(wire) > 0 {
			n := len(wire)
			if w.T.Chance(600) {
				n = 1 + w.T.Intn(min(len(wire), 1+w.T.Intn(4000)))
			}
			if _, err := p.Write(wire[:n]); err != nil {
				return
			}
			wire = wire[n:]
			if w.T.Chance(300) {
				w.Sleep(time.Duration(w.T.Intn(50)) * ms)
			}
		}
		p.CloseWrite()
	})
}

// rcheck reads items from a Reader and compares them with the plan.
type rcheck struct {
	w      *World
	r      *lineproto.Reader
	pipe   *Pipe
	prefix string
	trans  int // transient errors reported
	errAt  error
}

func (c *rcheck) transient(err error) bool {
	if err == error(ErrTransient) || err == error(ErrDeadline) || errors.Is(err, ErrTransient) || errors.Is(err, ErrDeadline) {
		c.trans++
		if c.pipe == nil {
			return true
		}
		if n := c.pipe.Count("fault.transient_read") + c.pipe.TransData; c.trans > n {
			c.w.Fail("transient-lost", "%d transient read errors happened, %d were reported so far", n, c.trans)
		}
		return true
	}
	return false
}

// line reads one line; it returns false when the stream ended with an error.
func (c *rcheck) line(i int, want []byte) bool {
	for {
		got, err := c.r.ReadLine()
		c.w.Inc("op")
		c.w.EvBytes("line", i, got)
		if err == nil {
			if !bytes.Equal(got, want) {
				c.w.Fail("line-mismatch", "item %d: read line %s, the peer sent %s (first difference at %d)", i, q(got), q(want), firstDiff(got, want))
			}
			return true
		}
		if c.transient(err) {
			if len(got) != 0 {
				c.w.Fail("transient-data", "item %d: a transient error between lines came with data %s", i, q(got))
			}
			continue
		}
		c.errAt = err
		if !bytes.HasPrefix(want, got) {
			c.w.Fail("error-data", "item %d: error %v came with data %s, which is not a prefix of %s", i, err, q(got), q(want))
		}
		return false
	}
}

// raw reads exactly len(want) bytes with drawn read sizes.
func (c *rcheck) raw(i int, want []byte, rd io.Reader) bool {
	t := c.w.T
	mode := t.Intn(4)
	for len(want) > 0 {
		n := len(want)
		switch mode {
		case 1:
			n = 1
		case 2:
			n = 1 + t.Intn(min(n, 100))
		case 3:
			n = 1 + t.Intn(n)
		}
		n = max(n, len(want)/100) // large items in large pieces
		buf := make([]byte, n)
		if t.Chance(20) {
			k, err := rd.Read(buf[:0])
			if k != 0 || (err != nil && err != io.EOF) {
				if !c.transient(err) {
					c.errAt = err
					return false
				}
			}
		}
		k, err := rd.Read(buf)
		c.w.Inc("op")
		c.w.EvBytes("raw", i, buf[:max(k, 0)])
		if k < 0 || k > n {
			c.w.Fail("raw-count", "item %d: Read of %d bytes returned %d", i, n, k)
		}
		if !bytes.Equal(buf[:k], want[:k]) {
			c.w.Fail("raw-mismatch", "item %d: raw read returned %s, the peer sent %s", i, q(buf[:k]), q(want[:k]))
		}
		want = want[k:]
		if err != nil && len(want) > 0 {
			if c.transient(err) {
				continue
			}
			c.errAt = err
			return false
		}
	}
	return true
}

func isEOF(err error) bool { return err == io.EOF }

func init() {
	register(&Prop{
		ID: "C01", Quick: 120000, Thorough: 4000000,
		Rule: "A drawn sequence of lines and raw blocks (lengths biased to internal buffer boundaries, arbitrary bytes, optional unterminated tail) is fed by a peer task over a simulated transport with drawn fragmentation, delays, empty reads, transient errors and expired deadlines at line boundaries (alone or together with the data before them), data returned together with EOF, and an optional cut at any byte; the reader task replays the plan and compares every result.",
		Real: []string{"lineproto.Reader", "nmdc and adc framing through it"},
		Stub: []string{"transport (simulated byte stream)", "peer (scripted)", "clock"},
		Run:  runC01,
	})
	register(&Prop{
		ID: "C02", Quick: 60000, Thorough: 2000000,
		Rule: "The stream alternates plain and zlib sections (compressed by the standard library with drawn levels and flush points, lines and raw blocks may straddle the end of a section); optionally the wire is cut or one bit flipped inside a compressed section.",
		Real: []string{"lineproto.Reader", "compress/zlib"},
		Stub: []string{"transport (simulated byte stream)", "peer (scripted, standard library compressor)", "clock"},
		Run:  runC02,
	})
	register(&Prop{
		ID: "C03", Quick: 60000, Thorough: 2000000,
		Rule: "Lines and binary sections (plain, compressed and straddling the end of compression) are read with drawn read sizes, early closes and transport resets inside sections.",
		Real: []string{"lineproto.Reader", "lineproto binary sections", "compress/zlib"},
		Stub: []string{"transport (simulated byte stream)", "peer (scripted, standard library compressor)", "clock"},
		Run:  runC03,
	})
	register(&Prop{
		ID: "C04", Quick: 60000, Thorough: 2000000,
		Rule: "Line lengths are drawn around a drawn limit and around buffer sizes, plain or compressed; an over-long line (terminated or endless) may follow.",
		Real: []string{"lineproto.Reader", "compress/zlib"},
		Stub: []string{"transport (simulated byte stream)", "peer (scripted, standard library compressor)", "clock"},
		Run:  runC04,
	})
}

func runC01(w *World) {
	t := w.T
	delim := drawDelim(t)
	its := drawItems(t, delim, 12, "lr", 0)
	var tail []byte
	if t.Bool() {
		tail = lineData(t, delim, drawLineLen(t))
	}
	wire := append(joinItems(its), tail...)
	prof := w.DrawNet()
	// transient errors at line starts or inside raw blocks
	if t.Chance(350) && len(its) > 0 {
		for k := 0; k <= t.Intn(3); k++ {
			it := its[t.Intn(len(its))]
			at := it.off
			if it.kind == 'r' && len(it.data) > 0 {
				at += t.Intn(len(it.data))
			}
			f := &RFault{At: at}
			switch t.Intn(3) {
			case 0:
				f.Err = ErrTransient
			case 1:
				f.Err = ErrDeadline
			case 2:
				f.Pause = time.Duration(1+t.Intn(5000)) * ms
			}
			f.Data = t.Bool()
			prof.RFaults = append(prof.RFaults, f)
		}
	}
	if t.Chance(250) {
		prof.CutAt = t.Intn(len(wire) + 1)
		prof.CutErr = []error{io.EOF, ErrReset}[t.Intn(2)]
	}
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	w.Sample = fmt.Sprintf("delim %q items [%s] tail %d frag mode %d cut %v@%d", delim, describe(its), len(tail), prof.Frag, prof.CutErr, prof.CutAt)
	feeder(w, p, wire)
	w.Go("reader", func() {
		defer p.CloseRead()
		r := lineproto.NewReader(p, delim)
		r.SetMaxLine(0)
		c := &rcheck{w: w, r: r, pipe: p}
		limit := len(wire)
		if prof.CutErr != nil {
			limit = prof.CutAt
		}
		for i, it := range its {
			ok := false
			if it.kind == 'l' {
				ok = c.line(i, it.data)
			} else {
				ok = c.raw(i, it.data, r)
			}
			if !ok {
				if it.off+len(it.data) <= limit {
					w.Fail("lost-item", "item %d (%v) was delivered by the transport but the reader reported %v", i, it, c.errAt)
				}
				c.expectEnd(prof, limit, wire)
				return
			}
			if it.off+len(it.data) > limit {
				w.Fail("invented", "item %d (%v) was returned although only %d bytes were delivered", i, it, limit)
			}
		}
		// the end: the tail, once, with the error
		for {
			got, err := r.ReadLine()
			w.EvBytes("tail", 0, got)
			if err == nil {
				w.Fail("tail-without-error", "an unterminated tail %s was returned as a line", q(got))
			}
			if c.transient(err) {
				continue
			}
			c.errAt = err
			want := tail
			if k := limit - (len(wire) - len(tail)); k < len(want) {
				want = want[:max(k, 0)]
			}
			if !bytes.Equal(got, want) {
				w.Fail("tail-mismatch", "the stream ended with %s, the reader returned %s", q(want), q(got))
			}
			break
		}
		c.expectEnd(prof, limit, wire)
	})
	finish(w, "line reading")
}

// expectEnd checks the final error and that it persists without new data.
func (c *rcheck) expectEnd(prof Profile, limit int, wire []byte) {
	w := c.w
	for _, f := range prof.RFaults {
		_ = f
	}
	wantErr := io.EOF
	if prof.CutErr != nil && prof.CutErr != io.EOF {
		wantErr = prof.CutErr
	}
	if !errors.Is(c.errAt, wantErr) && !(wantErr == io.EOF && errors.Is(c.errAt, io.ErrUnexpectedEOF)) {
		w.Fail("wrong-error", "the transport ended with %v, the reader reported %v", wantErr, c.errAt)
	}
	if n := c.pipe.Count("fault.transient_read"); c.trans < n || c.trans > n+c.pipe.TransData {
		w.Fail("transient-lost", "%d transient read errors happened, %d were reported", n, c.trans)
	}
	for k := 0; k < 2; k++ {
		got, err := c.r.ReadLine()
		if err == nil || len(got) != 0 {
			w.Fail("after-end", "after the end of the stream ReadLine returned %s, %v", q(got), err)
		}
	}
}

// section of a stream with inbound compression.
type section struct {
	zlib  bool
	level int
	data  []byte
	wire  []byte
}

// compress encodes a section with the standard library, flushing at drawn points.
func compressSection(t *Tape, data []byte, level int) []byte {
	var buf bytes.Buffer
	zw, err := zlib.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	rest := data
	for len(rest) > 0 {
		n := len(rest)
		if t.Chance(600) {
			n = 1 + t.Intn(len(rest))
		}
		zw.Write(rest[:n])
		rest = rest[n:]
		if t.Chance(400) {
			zw.Flush()
		}
	}
	if t.Chance(200) {
		zw.Flush()
	}
	zw.Close()
	return buf.Bytes()
}

func drawLevel(t *Tape) int { return []int{-1, 0, 1, 6, 9, -2, 5}[t.Intn(7)] }

type zplan struct {
	its      []item
	sections []section
	wire     []byte
	enableAt map[int]bool // item index after which inflating is enabled
	zstarts  []int        // wire offsets of compressed sections
	zends    []int
}

// drawZPlan draws alternating sections. Every compressed section follows a
// plain line, after which the reader enables inflating.
func drawZPlan(t *Tape, delim byte, nmax int, kinds string) *zplan {
	pl := &zplan{enableAt: map[int]bool{}}
	n := t.Intn(nmax + 1)
	off := 0
	var carry []byte // part of an item that continues in the next plain section
	plain := func() []byte {
		its := drawItems(t, delim, 4, kinds, off)
		b := joinItems(its)
		pl.its = append(pl.its, its...)
		off += len(b)
		return b
	}
	for s := 0; s < n; s++ {
		t.Begin()
		b := append(append([]byte(nil), carry...), plain()...)
		carry = nil
		mark := item{kind: 'l', data: append([]byte(fmt.Sprintf("$ZOn%d", s)), delim), off: off}
		off += len(mark.data)
		pl.its = append(pl.its, mark)
		b = append(b, mark.data...)
		pl.enableAt[len(pl.its)-1] = true
		pl.sections = append(pl.sections, section{data: b, wire: b})
		its := drawItems(t, delim, 6, kinds, off)
		zd := joinItems(its)
		off += len(zd)
		pl.its = append(pl.its, its...)
		if len(its) > 0 && t.Chance(350) {
			last := its[len(its)-1]
			if len(last.data) > 1 {
				k := 1 + t.Intn(len(last.data)-1)
				carry = append([]byte(nil), zd[len(zd)-k:]...)
				zd = zd[:len(zd)-k]
			}
		}
		lvl := drawLevel(t)
		pl.sections = append(pl.sections, section{zlib: true, level: lvl, data: zd, wire: compressSection(t, zd, lvl)})
		t.End()
	}
	b := append(append([]byte(nil), carry...), plain()...)
	end := item{kind: 'l', data: append([]byte("<the end>"), delim), off: off}
	pl.its = append(pl.its, end)
	b = append(b, end.data...)
	pl.sections = append(pl.sections, section{data: b, wire: b})
	for _, s := range pl.sections {
		if s.zlib {
			pl.zstarts = append(pl.zstarts, len(pl.wire))
		}
		pl.wire = append(pl.wire, s.wire...)
		if s.zlib {
			pl.zends = append(pl.zends, len(pl.wire))
		}
	}
	return pl
}

func (pl *zplan) describe() string {
	s := ""
	for _, x := range pl.sections {
		if x.zlib {
			s += fmt.Sprintf(" z%d(%d bytes, level %d)", len(x.data), len(x.wire), x.level)
		} else {
			s += fmt.Sprintf(" plain(%d)", len(x.data))
		}
	}
	return "sections" + s + " items [" + describe(pl.its) + "]"
}

func runC02(w *World) {
	t := w.T
	delim := drawDelim(t)
	pl := drawZPlan(t, delim, 4, "lr")
	prof := w.DrawNet()
	fault := 0
	cutIn := -1
	if len(pl.zstarts) > 0 {
		fault = t.Weighted(4, 1, 1)
	}
	switch fault {
	case 1: // cut inside a compressed section
		k := t.Intn(len(pl.zstarts))
		prof.CutAt = pl.zstarts[k] + t.Intn(pl.zends[k]-pl.zstarts[k])
		prof.CutErr = []error{io.EOF, ErrReset}[t.Intn(2)]
		cutIn = k
	case 2: // one flipped bit inside a compressed section
		k := t.Intn(len(pl.zstarts))
		prof.Flip = []int{pl.zstarts[k] + t.Intn(pl.zends[k]-pl.zstarts[k])}
		prof.FlipMask = 1 << t.Intn(8)
	}
	prof.Tame(len(pl.wire))
	p := w.NewPipe(0, prof)
	w.Sample = pl.describe() + fmt.Sprintf(" frag %d fault %d", prof.Frag, fault)
	feeder(w, p, pl.wire)
	w.Go("reader", func() {
		defer p.CloseRead()
		r := lineproto.NewReader(p, delim)
		r.SetMaxLine(0)
		c := &rcheck{w: w, r: r, pipe: p}
		if fault == 2 {
			c.corrupted(pl)
			return
		}
		z := -1
		at, drop, hooked := 0, false, t.Chance(200)
		if hooked { // inflating is enabled by a hook, which may also drop the line
			r.OnLine(func([]byte) (bool, error) {
				if !pl.enableAt[at] {
					return true, nil
				}
				z++
				w.Inc("probe.enabled_in_hook")
				if err := r.EnableZlib(); err != nil {
					return true, err
				}
				if drop {
					drop = false
					at++
					return false, nil
				}
				return true, nil
			})
		}
		for i := 0; i < len(pl.its); i++ {
			it := pl.its[i]
			ok := false
			at, drop = i, false
			if hooked && pl.enableAt[i] && pl.its[i+1].kind == 'l' && t.Bool() {
				drop = true
				i++
				it = pl.its[i]
			}
			if it.kind == 'l' {
				ok = c.line(i, it.data)
			} else {
				ok = c.raw(i, it.data, r)
			}
			if !ok {
				c.zerr(i, it, fault, prof, cutIn, z)
				return
			}
			if pl.enableAt[i] && !hooked {
				z++
				w.Inc("probe.section_enabled")
				if err := r.EnableZlib(); err != nil {
					c.errAt = err
					c.zerr(i, it, fault, prof, cutIn, z)
					return
				}
				if t.Chance(100) { // a mistake of the caller, to be refused
					w.Inc("probe.enabled_twice")
					calls := p.RCalls
					if err := r.EnableZlib(); err == nil {
						w.Fail("enabled-twice", "item %d: enabling inflating while it is on was accepted", i)
					}
					if p.RCalls != calls {
						w.Fail("enabled-twice", "item %d: the refused EnableZlib read from the transport", i)
					}
				}
			}
		}
		if fault == 1 {
			w.Fail("cut-unnoticed", "the wire was cut at byte %d inside a compressed section, but everything was read", prof.CutAt)
		}
		got, err := r.ReadLine()
		if err != io.EOF || len(got) != 0 {
			w.Fail("end", "at the end of the stream ReadLine returned %s, %v", q(got), err)
		}
	})
	finish(w, "reading compressed sections")
}

func (c *rcheck) zerr(i int, it item, fault int, prof Profile, cutIn, z int) {
	w := c.w
	if fault != 1 {
		w.Fail("error", "item %d (%v): reading reported %v although nothing went wrong", i, it, c.errAt)
	}
	if z < cutIn {
		w.Fail("early-error", "item %d (%v): error %v in section %d, but the wire was cut only in compressed section %d", i, it, c.errAt, z, cutIn)
	}
	if c.errAt == io.EOF {
		w.Fail("cut-as-eof", "item %d (%v): the wire was cut inside a compressed section, but reading reported a clean end of stream", i, it)
	}
	w.Inc("probe.cut_in_section")
}

// corrupted reads a stream with one flipped bit in a compressed section.
func (c *rcheck) corrupted(pl *zplan) {
	w := c.w
	clean := true
	for i, it := range pl.its {
		var got []byte
		var err error
		last := i == len(pl.its)-1
		if it.kind == 'l' {
			got, err = c.r.ReadLine()
		} else {
			got = make([]byte, len(it.data))
			var n int
			n, err = io.ReadFull(c.r, got)
			got = got[:n]
			if len(it.data) == 0 {
				err = nil
			}
			// ReadFull hides which error ended the read
			if err == io.ErrUnexpectedEOF || err == io.EOF {
				err = errors.New("short raw read")
			}
		}
		w.Inc("op")
		w.EvBytes("item", i, got)
		if err != nil {
			w.Inc("probe.corruption_detected")
			if err == io.EOF {
				w.Fail("corrupt-as-eof", "item %d: a corrupted compressed section ended as a clean end of stream", i)
			}
			return
		}
		if !bytes.Equal(got, it.data) {
			clean = false
		}
		if last && !clean {
			// the altered data may hold more items than were sent, or even take
			// the plain data behind it as its own: read on to the end
			for {
				got, err := c.r.ReadLine()
				w.EvBytes("more", i, got)
				if err == io.EOF {
					w.Fail("corrupt-undetected", "the stream ended cleanly although some items were altered by a flipped bit")
				} else if err != nil {
					w.Inc("probe.corruption_detected")
					return
				}
			}
		}
		if pl.enableAt[i] {
			if !clean {
				return // the plan is no longer followed; nothing more to judge
			}
			if err := c.r.EnableZlib(); err != nil {
				w.Inc("probe.corruption_detected")
				return
			}
		}
	}
	w.Inc("probe.harmless_flip")
}

func runC03(w *World) {
	t := w.T
	delim := drawDelim(t)
	pl := drawZPlan(t, delim, 3, "lb")
	prof := w.DrawNet()
	reset := t.Chance(200)
	var tail []byte // the content of a last section that announces more than follows
	var huge uint64
	if !reset && t.Chance(200) {
		tail = t.Blob(1+t.Intn(3000), "")
		huge = []uint64{uint64(len(tail)), uint64(len(tail)) + 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 1}[t.Intn(8)]
		pl.wire = append(pl.wire, tail...)
		w.Inc("fault.lying_length")
	}
	if reset {
		prof.CutAt = t.Intn(len(pl.wire) + 1)
		prof.CutErr = ErrReset
	}
	prof.Tame(len(pl.wire))
	p := w.NewPipe(0, prof)
	w.Sample = pl.describe() + fmt.Sprintf(" frag %d reset %v@%d", prof.Frag, reset, prof.CutAt)
	feeder(w, p, pl.wire)
	w.Go("reader", func() {
		defer p.CloseRead()
		r := lineproto.NewReader(p, delim)
		r.SetMaxLine(0)
		c := &rcheck{w: w, r: r, pipe: p}
		fail := func(i int, it item) bool {
			if !reset {
				w.Fail("error", "item %d (%v): reading reported %v although nothing went wrong", i, it, c.errAt)
			}
			if !p.CutFired() {
				w.Fail("early-error", "item %d (%v): error %v before the reset", i, it, c.errAt)
			}
			return true
		}
		for i, it := range pl.its {
			if it.kind == 'l' {
				if !c.line(i, it.data) {
					fail(i, it)
					return
				}
			} else {
				br, err := r.Binary(uint64(len(it.data)))
				if err != nil {
					w.Fail("binary-error", "item %d: Binary(%d) reported %v", i, len(it.data), err)
				}
				k := len(it.data)
				early := t.Chance(500)
				if early {
					k = t.Intn(k + 1)
					w.Inc("fault.early_close")
				}
				if !c.raw(i, it.data[:k], br) {
					if c.errAt == io.EOF && !p.CutFired() {
						w.Fail("short-section", "item %d: a binary section of %d bytes ended early", i, len(it.data))
					}
					fail(i, it)
					if err := br.Close(); err == nil {
						w.Fail("close-hides-reset", "item %d: the transport was reset inside a binary section, but closing it reported no error", i)
					}
					return
				}
				if !early || k == len(it.data) {
					for j := 0; j < 2; j++ {
						n, err := br.Read(make([]byte, 1+t.Intn(5)))
						if n != 0 || err != io.EOF {
							w.Fail("section-end", "item %d: after %d of %d bytes of a section Read returned %d, %v instead of the end", i, k, len(it.data), n, err)
						}
					}
				}
				if err := br.Close(); err != nil {
					c.errAt = err
					if k == len(it.data) {
						w.Fail("close-error", "item %d: closing a fully read section reported %v", i, err)
					}
					fail(i, it)
					return
				}
				w.Inc("op")
				if prof.CutErr != nil && !pl.delivered(i, prof.CutAt) {
					w.Fail("close-hides-reset", "item %d: closing a section succeeded although the transport was reset inside it", i)
				}
			}
			if pl.enableAt[i] {
				if err := r.EnableZlib(); err != nil {
					c.errAt = err
					fail(i, it)
					return
				}
			}
		}
		if reset {
			return
		}
		if tail != nil {
			br, err := r.Binary(huge)
			if err != nil {
				w.Fail("binary-error", "Binary(%d) reported %v", huge, err)
			}
			k := len(tail)
			if t.Bool() {
				k = t.Intn(k + 1)
			}
			if !c.raw(len(pl.its), tail[:k], br) {
				w.Fail("short-section", "a section of %d bytes ended with %v although %d bytes of it were sent", huge, c.errAt, len(tail))
			}
			if err := br.Close(); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
				w.Fail("close-error", "closing a section of %d bytes when the stream ended reported %v", huge, err)
			}
		}
		got, err := r.ReadLine()
		if err != io.EOF || len(got) != 0 {
			w.Fail("end", "at the end of the stream ReadLine returned %s, %v", q(got), err)
		}
	})
	finish(w, "reading binary sections")
}

// delivered reports whether item i can have been completely delivered when the
// wire is cut at byte n. It is exact for plain streams and permissive otherwise.
func (pl *zplan) delivered(i, n int) bool {
	if len(pl.zstarts) > 0 {
		return true
	}
	it := pl.its[i]
	return it.off+len(it.data) <= n
}

// defaultLimit feeds a line without an end to a reader whose limit was never set.
func defaultLimit(w *World, delim byte) {
	t := w.T
	short := append(lineData(t, delim, t.Intn(1000)), delim)
	const total = 8 << 20
	wire := append(append([]byte(nil), short...), lineData(t, delim, total)...)
	prof := w.DrawNet()
	prof.Tame(len(wire))
	prof.Frag, prof.ZeroRead, prof.RFaults = 0, 0, nil
	p := w.NewPipe(0, prof)
	w.Sample = fmt.Sprintf("limit never set, a line of %d bytes, then one without an end", len(short))
	w.Go("peer", func() {
		for b := wire; len(b) > 0; {
			n := min(len(b), 30000)
			if _, err := p.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
		}
		p.CloseWrite()
	})
	w.Go("reader", func() {
		defer p.CloseRead()
		r := lineproto.NewReader(p, delim)
		got, err := r.ReadLine()
		if err != nil || !bytes.Equal(got, short) {
			w.Fail("legal-rejected", "a line of %d bytes was read as %s, %v by a reader whose limit was never set", len(short), q(got), err)
		}
		if _, err = r.ReadLine(); err == nil || p.Delivered > total/2 {
			w.Fail("unbounded", "a reader whose limit was never set took %d bytes of a line without an end: %v", p.Delivered, err)
		}
		w.Inc("probe.default_limit")
	})
	finish(w, "reading with the default line limit")
}

func runC04(w *World) {
	t := w.T
	delim := drawDelim(t)
	limit := 0
	switch t.Weighted(3, 2, 2, 1) {
	case 0:
		limit = 1 + t.Intn(64)
	case 1:
		limit = t.Near(4, 2048, 4096, 1024, 6144)
	case 2:
		limit = 1 + t.Intn(8000)
	case 3:
		limit = -t.Intn(2) // none
	}
	if limit < -1 {
		limit = 1
	}
	if t.Chance(30) {
		defaultLimit(w, delim)
		return
	}
	z := t.Chance(300)
	var lines [][]byte
	huge := false
	n := t.Intn(10)
	for i := 0; i < n; i++ {
		t.Begin()
		var k int // total length with delimiter
		if limit > 0 {
			switch t.Weighted(3, 2, 1) {
			case 0:
				k = limit - t.Intn(min(limit, 3))
			case 1:
				k = 1 + t.Intn(limit)
			case 2:
				k = 1
			}
			k = min(max(k, 1), limit)
		} else {
			k = 1 + t.Near(3, 100, 2048, 32768, 40000, 70000)
			if !huge && t.Chance(12) {
				huge = true
				k = 1<<20 + t.Intn(2<<20)
			}
		}
		lines = append(lines, append(lineData(t, delim, k-1), delim))
		t.End()
	}
	over := 0 // 0 none, 1 terminated, 2 endless
	var long []byte
	if limit > 0 {
		over = t.Weighted(2, 4, 1)
	}
	switch over {
	case 1:
		k := limit + 1
		switch t.Weighted(3, 1, 1) {
		case 1:
			k = limit + 1 + t.Intn(100)
		case 2:
			k = limit + 1 + t.Intn(5000)
		}
		long = append(lineData(t, delim, k-1), delim)
	case 2:
		long = lineData(t, delim, 600<<10)
	}
	var body []byte
	for _, l := range lines {
		body = append(body, l...)
	}
	body = append(body, long...)
	if t.Bool() {
		body = append(body, "next"...)
		body = append(body, delim)
	}
	mark := append([]byte("$"), delim)
	wire := body
	if z {
		var buf bytes.Buffer
		zw, _ := zlib.NewWriterLevel(&buf, drawLevel(t))
		zw.Write(body)
		zw.Close()
		wire = append(append([]byte(nil), mark...), buf.Bytes()...)
	}
	var drop []bool // by a line hook
	seen, moving := 0, false
	switch t.Weighted(5, 2, 2) {
	case 1:
		for range lines {
			drop = append(drop, t.Chance(600))
		}
		if drop == nil {
			drop = []bool{}
		}
	case 2:
		moving = true
	}
	prof := w.DrawNet()
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	w.Sample = fmt.Sprintf("limit %d, %d lines, over %d (%d bytes), zlib %v, frag %d drop %v moving %v", limit, len(lines), over, len(long), z, prof.Frag, drop, moving)
	feeder(w, p, wire)
	w.Go("reader", func() {
		defer p.CloseRead()
		r := lineproto.NewReader(p, delim)
		if z {
			r.SetMaxLine(0)
			if _, err := r.ReadLine(); err != nil {
				w.Fail("error", "marker line: %v", err)
			}
			if err := r.EnableZlib(); err != nil {
				w.Fail("error", "enabling compression: %v", err)
			}
		}
		r.SetMaxLine(limit)
		if drop != nil {
			r.OnLine(func(l []byte) (bool, error) {
				i := seen
				seen++
				if limit > 0 && len(l) > limit {
					w.Fail("long-hooked", "a line hook got %d bytes although the limit is %d", len(l), limit)
				}
				return i >= len(drop) || !drop[i], nil
			})
		}
		for i, l := range lines {
			if drop != nil && drop[i] {
				w.Inc("probe.dropped")
				continue
			}
			if moving { // a limit that fits this line, set just for it
				r.SetMaxLine([]int{0, -1, len(l), len(l) + 1, len(l) + 5000}[t.Intn(5)])
			}
			got, err := r.ReadLine()
			w.Inc("op")
			w.EvBytes("line", i, got)
			if err != nil {
				w.Fail("legal-rejected", "line %d of %d bytes is within the limit of %d but was refused: %v", i, len(l), limit, err)
			}
			if !bytes.Equal(got, l) {
				w.Fail("line-mismatch", "line %d: got %s want %s", i, q(got), q(l))
			}
		}
		if over == 0 {
			return
		}
		r.SetMaxLine(limit)
		before := p.Delivered
		got, err := r.ReadLine()
		w.EvBytes("long", 0, got)
		if err == nil {
			w.Fail("long-accepted", "a line of %d bytes was delivered although the limit is %d", len(got), limit)
		}
		if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) {
			w.Fail("long-as-eof", "a line longer than the limit of %d was read to the end of the stream: %v", limit, err)
		}
		w.Inc("probe.limit_hit")
		const slack = 256 << 10
		if taken := p.Delivered - before; !z && taken > limit+slack {
			w.Fail("unbounded", "with a limit of %d the reader took %d bytes before giving up", limit, taken)
		}
		p.CloseRead()
	})
	finish(w, "reading with a line limit")
}
