package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	stub := []string{"transport (simulated byte stream)", "peer (drains the stream; decoded independently with the standard library)", "clock"}
	real := []string{"lineproto.Writer", "nmdc.Writer", "adc.Writer", "compress/zlib"}
	register(&Prop{
		ID: "C05", Quick: 60000, Thorough: 1000000,
		Rule: "A drawn history of line writes, raw writes, protocol messages, flushes, compression switches at drawn levels, misuse and close runs on a writer with a drawn buffer size over a piecewise, windowed transport; after operations the wire is decoded independently and compared with the accepted data; caller buffers are overwritten after every call.",
		Real: real, Stub: stub, Run: func(w *World) { runWriter(w, "C05") },
	})
	register(&Prop{
		ID: "C06", Quick: 150000, Thorough: 1000000,
		Rule: "The same histories with one planned write failure (permanent or once; accepting nothing, a part, or everything of the failing call) at a drawn wire offset; checks that the error sticks, that nothing is handed to the transport after the failure and that the wire decodes to a prefix of the intended stream.",
		Real: real, Stub: stub, Run: func(w *World) { runWriter(w, "C06") },
	})
	register(&Prop{
		ID: "C07", Quick: 120000, Thorough: 1000000,
		Rule: "The same histories with a timeout callback that sets a deadline on the simulated transport, a peer that stalls for drawn periods with a small window, failing arming callbacks and transport failures; every transport write is checked to happen while armed and every operation's simulated duration is bounded by its armings.",
		Real: real, Stub: stub, Run: func(w *World) { runWriter(w, "C07") },
	})
	register(&Prop{
		ID: "C08", Quick: 50000, Thorough: 1000000,
		Rule: "Histories on both directions of a connection with close at a drawn point, repeated closes and further operations afterwards, with and without transport failures before or during the close; transport calls after close are counted, the other direction is checked against its plan.",
		Real: append([]string{"lineproto.Reader"}, real...), Stub: stub, Run: runC08,
	})
}

// sec is a section of the intended output stream.
type sec struct {
	z      bool
	closed bool // a successful switch or close ended it
	data   []byte
}

// decodeWire decodes what a peer would see and compares it with the intended
// sections. It returns how many logical bytes are decodable and whether every
// compressed section marked closed is terminated on the wire.
func decodeWire(wire []byte, secs []sec) (n int, term bool, problem string) {
	rest := wire
	term = true
	for i, s := range secs {
		if !s.z {
			k := min(len(rest), len(s.data))
			if !bytes.Equal(rest[:k], s.data[:k]) {
				d := firstDiff(rest[:k], s.data[:k])
				return n, false, fmt.Sprintf("plain section %d differs from the accepted data at byte %d: %s instead of %s", i, d, q(rest[d:]), q(s.data[d:]))
			}
			n += k
			rest = rest[k:]
			if k < len(s.data) {
				return n, false, ""
			}
			continue
		}
		if len(rest) == 0 {
			if s.closed {
				term = false
			}
			for _, x := range secs[i:] {
				if len(x.data) > 0 {
					return n, false, ""
				}
			}
			return n, term, ""
		}
		br := bytes.NewReader(rest)
		zr, err := zlib.NewReader(br)
		if err != nil {
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				return n, false, ""
			}
			return n, false, fmt.Sprintf("compressed section %d is broken: %v", i, err)
		}
		got, err := io.ReadAll(zr)
		k := min(len(got), len(s.data))
		if len(got) > len(s.data) || !bytes.Equal(got, s.data[:k]) {
			d := firstDiff(got, s.data)
			return n, false, fmt.Sprintf("compressed section %d differs from the accepted data at byte %d of %d/%d", i, d, len(got), len(s.data))
		}
		n += len(got)
		if err == nil {
			if len(got) < len(s.data) {
				return n, false, fmt.Sprintf("compressed section %d ends after %d of %d bytes", i, len(got), len(s.data))
			}
			rest = rest[len(rest)-br.Len():]
			continue
		}
		if err != io.ErrUnexpectedEOF {
			return n, false, fmt.Sprintf("compressed section %d is broken: %v", i, err)
		}
		if s.closed {
			term = false
		}
		for _, x := range secs[i+1:] {
			if len(x.data) > 0 {
				return n, false, ""
			}
		}
		return n, term, ""
	}
	if len(rest) > 0 {
		return n, false, fmt.Sprintf("%d bytes on the wire were never written: %s", len(rest), q(rest))
	}
	return n, term, ""
}

// wop is one operation of a writer history.
type wop struct {
	kind  byte // l line, m protocol messages, r raw, f flush, e enable, d disable, i invalid level, z in-band ZOn, k keep-alive, c close
	level int
	msgs  [][]byte
}

func (o wop) String() string {
	n := 0
	for _, m := range o.msgs {
		n += len(m)
	}
	switch o.kind {
	case 'e', 'z', 'i':
		return fmt.Sprintf("%c%d", o.kind, o.level)
	case 'l', 'r', 'm':
		return fmt.Sprintf("%c%d", o.kind, n)
	}
	return string(o.kind)
}

// wside is a writer under test, plain or through one of the protocols.
type wside struct {
	w     *World
	p     *Pipe
	mode  int // 0 lineproto, 1 nmdc, 2 adc
	lw    *lineproto.Writer
	nw    *nmdc.Writer
	aw    *adc.Writer
	secs  []sec
	total int
	bsz   int
}

func newWside(w *World, p *Pipe) *wside {
	t := w.T
	s := &wside{w: w, p: p, mode: t.Weighted(3, 1, 1)}
	s.bsz = []int{0, 0, 1, 16, 17, 100, 512, 2048, 5000, 70000}[t.Intn(10)]
	switch s.mode {
	case 0:
		if s.bsz == 0 && t.Bool() {
			s.lw = lineproto.NewWriter(p)
		} else {
			s.lw = lineproto.NewWriterSize(p, s.bsz)
		}
	case 1:
		s.nw = nmdc.NewWriterSize(p, s.bsz)
		s.lw = s.nw.Writer
	case 2:
		s.aw = adc.NewWriterSize(p, s.bsz)
		s.lw = s.aw.Writer
	}
	s.secs = []sec{{}}
	return s
}

func (s *wside) zOn() bool { return s.secs[len(s.secs)-1].z }

func (s *wside) add(b []byte) {
	x := &s.secs[len(s.secs)-1]
	x.data = append(x.data, b...)
	s.total += len(b)
}

func drawOps(t *Tape, mode, max int) []wop {
	n := 1 + t.Intn(max)
	var ops []wop
	z := false
	for i := 0; i < n; i++ {
		t.Begin()
		o := wop{}
		// f e d i z k l m r
		switch t.Weighted(4, 2, 2, 1, 1, 1, 8, 3, 3) {
		case 0:
			o.kind = 'f'
		case 1:
			o.kind = 'e'
			if z && t.Intn(4) > 0 {
				o.kind = 'd'
			}
		case 2:
			o.kind = 'd'
			if !z && t.Intn(4) > 0 {
				o.kind = 'e'
			}
		case 3:
			o.kind = 'i'
		case 4:
			o.kind = 'l'
			if mode == 1 && !z {
				o.kind = 'z'
			}
		case 5:
			o.kind = 'l'
			if mode != 0 {
				o.kind = 'k'
			}
		case 6:
			o.kind = 'l'
		case 7:
			o.kind = 'l'
			if mode != 0 {
				o.kind = 'm'
			}
		case 8:
			o.kind = 'r'
		}
		switch o.kind {
		case 'e', 'z':
			o.level = drawLevel(t)
			z = true
		case 'i':
			o.level = []int{10, -3, 100}[t.Intn(3)]
		case 'd':
			z = false
		case 'l', 'r':
			n := drawWLen(t)
			if t.Chance(15) {
				n = 60000 + t.Intn(140000)
			}
			o.msgs = [][]byte{t.Blob(n, "")}
		case 'm':
			k := 1 + t.Intn(4)
			for j := 0; j < k; j++ {
				o.msgs = append(o.msgs, t.Blob(drawWLen(t), "abcdefgh XYZ 0123456789"))
			}
		}
		ops = append(ops, o)
		t.End()
	}
	return ops
}

func drawWLen(t *Tape) int {
	switch t.Weighted(5, 3, 2, 1) {
	case 0:
		return t.Intn(20)
	case 1:
		return t.Intn(300)
	case 2:
		return t.Near(3, 16, 100, 512, 2048, 4096, 5000)
	}
	return t.Intn(20000)
}

func descOps(ops []wop) string {
	var sb strings.Builder
	for i, o := range ops {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(o.String())
	}
	return sb.String()
}

// encoded gives the bytes a message op stands for.
func (s *wside) encoded(m []byte) []byte {
	switch s.mode {
	case 1:
		b := []byte("$Raw")
		if len(m) > 0 {
			b = append(append(b, ' '), m...)
		}
		return append(b, '|')
	case 2:
		b := []byte("IRAW")
		if len(m) > 0 {
			b = append(append(b, ' '), m...)
		}
		return append(b, '\n')
	}
	return m
}

// do runs an operation; ok tells whether the model considers it legal in the
// current state. The intended data is recorded before the call, since the
// transport may see it at any time during the call.
func (s *wside) do(o wop, healthy bool) (err error, legal bool) {
	legal = true
	add := func(b []byte) {
		if healthy {
			s.add(b)
		}
	}
	ruin := func(bs ...[]byte) { // the caller may reuse its buffers
		for _, b := range bs {
			for i := range b {
				b[i] = 0xEE
			}
		}
	}
	switch o.kind {
	case 'l':
		b := append([]byte(nil), o.msgs[0]...)
		add(b)
		err = s.lw.WriteLine(b)
		ruin(b)
	case 'r':
		b := append([]byte(nil), o.msgs[0]...)
		add(b)
		var n int
		n, err = s.lw.Write(b)
		if err == nil && n != len(b) {
			s.w.Fail("short-count", "raw write of %d bytes returned %d without error", len(b), n)
		}
		ruin(b)
	case 'm':
		var bufs [][]byte
		var nm []nmdc.Message
		for _, m := range o.msgs {
			add(s.encoded(m))
			b := append([]byte(nil), m...)
			bufs = append(bufs, b)
			nm = append(nm, &nmdc.RawMessage{Typ: "Raw", Data: b})
		}
		if s.mode == 1 {
			err = s.nw.WriteMsg(nm...)
		} else {
			for i := range bufs {
				if e := s.aw.WriteInfo(&adc.RawMessage{Type: adc.MsgType{'R', 'A', 'W'}, Data: bufs[i]}); e != nil {
					err = e
				}
			}
		}
		ruin(bufs...)
	case 'k':
		if s.mode == 1 {
			add([]byte("|"))
			err = s.nw.WriteKeepAlive()
		} else {
			add([]byte("\n"))
			err = s.aw.WriteKeepAlive()
		}
	case 'f':
		err = s.lw.Flush()
	case 'e':
		if s.zOn() {
			legal = false
			err = s.lw.EnableZlibLevel(o.level)
			return
		}
		if o.level == -1 {
			err = s.lw.EnableZlib()
		} else {
			err = s.lw.EnableZlibLevel(o.level)
		}
		if err == nil {
			s.secs = append(s.secs, sec{z: true})
		}
	case 'z':
		if s.zOn() { // a misuse that would put a stray line on the wire
			return s.lw.Flush(), true
		}
		add([]byte("$ZOn|"))
		if o.level == -1 {
			err = s.nw.ZOn()
		} else {
			err = s.nw.ZOnLevel(o.level)
		}
		if err == nil {
			s.secs = append(s.secs, sec{z: true})
		}
	case 'i':
		legal = false
		err = s.lw.EnableZlibLevel(o.level)
	case 'd':
		if !s.zOn() {
			legal = false
			err = s.lw.DisableZlib()
			return
		}
		err = s.lw.DisableZlib()
		if err == nil {
			s.secs[len(s.secs)-1].closed = true
			s.secs = append(s.secs, sec{})
		}
	case 'c':
		err = s.lw.Close()
		if err == nil && healthy {
			s.secs[len(s.secs)-1].closed = true
		}
	}
	return
}

// settle compares the wire with the model; full demands that everything
// accepted is there.
func (s *wside) settle(full bool, what string) {
	n, term, problem := decodeWire(s.p.Wire, s.secs)
	s.w.Inc("probe.wire_decoded")
	if problem != "" {
		s.w.Fail("wire", "after %s: %s", what, problem)
	}
	if full && n != s.total {
		s.w.Fail("not-flushed", "after %s: only %d of %d accepted bytes can be decoded from the wire", what, n, s.total)
	}
	if full && !term {
		s.w.Fail("not-terminated", "after %s: a compressed section is not terminated on the wire", what)
	}
}

// drain reads the pipe to its end, with optional stalls.
func drain(w *World, p *Pipe, stall bool) {
	w.Go("drain", func() {
		buf := make([]byte, 4096)
		for {
			if stall && w.T.Chance(300) {
				w.Inc("fault.peer_stall")
				w.Sleep(time.Duration(1+w.T.Intn(120)) * 1000 * ms)
			}
			if _, err := p.Read(buf); err != nil {
				return
			}
		}
	})
}

func runWriter(w *World, id string) {
	t := w.T
	prof := w.DrawNet()
	prof.ZeroRead, prof.DataEOF, prof.Scribble = 0, false, false
	if prof.Frag != FragWhole {
		prof.Frag = FragMTU
	}
	if id == "C07" {
		switch t.Weighted(1, 2, 2) {
		case 1:
			prof.Window = 1 + t.Intn(64)
		case 2:
			prof.Window = 200 + t.Intn(4000)
		}
	}
	if prof.Piece > 0 && prof.Piece < 20 && t.Bool() {
		prof.Piece = 200
	}
	p := w.NewPipe(0, prof)
	s := newWside(w, p)
	ops := drawOps(t, s.mode, 14)
	if t.Chance(700) {
		ops = append(ops, wop{kind: 'c'})
	} else {
		ops = append(ops, wop{kind: 'f'})
	}
	sum := 0
	for _, o := range ops {
		for _, m := range o.msgs {
			sum += len(s.encoded(m))
		}
	}
	p.P.Tame(sum)
	var wf *WFault
	if id == "C06" || id == "C07" && t.Chance(200) {
		wf = &WFault{At: t.Intn(sum + 40), Err: []error{ErrReset, ErrDeadline, ErrTransient}[t.Intn(3)]}
		if t.Bool() && sum > 0 { // aim at the boundary of an operation
			k := t.Intn(len(ops) + 1)
			wf.At = 0
			for _, o := range ops[:k] {
				for _, m := range o.msgs {
					wf.At += len(s.encoded(m))
				}
			}
			wf.At = max(0, wf.At+t.Intn(5)-2)
		}
		wf.Once = t.Chance(500)
		wf.Zero = t.Chance(250)
		wf.Lie = !wf.Zero && t.Chance(200)
		p.P.WFault = wf
	}
	var fatal bool // the transport has failed
	p.OnWrite = func(b []byte) {
		if fatal {
			w.Fail("write-after-failure", "%d bytes were handed to the transport after it had reported a failure", len(b))
		}
	}
	p.OnAccept = func(n int, err error) {
		if err != nil {
			fatal = true
		}
	}
	w.Sample = fmt.Sprintf("mode %d buffer %d ops [%s] window %d piece %d fault %+v", s.mode, s.bsz, descOps(ops), prof.Window, p.P.Piece, wf)
	tm := &tmo{w: w, p: p, after: -1}
	w.NoJump = id == "C07"
	if id == "C07" {
		tm.install(s.lw, fatalPtr(&fatal))
	}
	drain(w, p, id == "C07")
	w.Go("writer", func() {
		defer p.CloseWrite()
		reported := false // the failure has been reported to the caller
		armFailed := false
		closed := false
		for i, o := range ops {
			before := fatal
			calls, wire := p.WCalls, len(p.Wire)
			healthy := !fatal && !armFailed && !closed
			if id == "C07" {
				tm.begin()
			}
			err, legal := s.do(o, healthy)
			w.Inc("op")
			w.EvStr("result", fmt.Sprint(o, err))
			what := fmt.Sprintf("operation %d (%v)", i, o)
			if id == "C07" {
				tm.end(what, o, err)
				if tm.failed && !armFailed {
					armFailed = true
					if err == nil {
						w.Fail("arm-error-lost", "%s: the timeout callback failed but the operation succeeded", what)
					}
					s.settle(false, what)
					continue
				}
			}
			if o.kind == 'c' {
				closed = true
			}
			if armFailed {
				if err == nil && o.kind != 'c' {
					w.Fail("error-forgotten", "%s succeeded after the timeout callback had failed", what)
				}
				if o.kind != 'c' && (p.WCalls != calls || len(p.Wire) != wire) {
					w.Fail("write-after-failure", "%s wrote to the transport after the timeout callback had failed", what)
				}
				if o.kind == 'c' {
					break // what a close does once arming works again is not specified
				}
				s.settle(false, what)
				continue
			}
			if before {
				if err == nil && o.kind != 'c' {
					w.Fail("error-forgotten", "%s succeeded after the transport had failed", what)
				}
				if p.WCalls != calls || len(p.Wire) != wire {
					w.Fail("write-after-failure", "%s wrote to the transport after it had failed", what)
				}
				s.settle(false, what)
				continue
			}
			if fatal { // failed during this operation
				w.Inc("probe.failed_in_" + string(o.kind))
				if err == nil && (o.kind == 'f' || o.kind == 'd' || o.kind == 'c') {
					w.Fail("error-lost", "%s succeeded although the transport failed a write during it", what)
				}
				if err != nil {
					reported = true
					if s.lw.Err() == nil {
						w.Fail("error-not-kept", "%s reported %v but Err returns nil", what, err)
					}
				}
				_ = reported
				s.settle(false, what)
				continue
			}
			if legal && err != nil {
				w.Fail("error", "%s failed although the transport works: %v", what, err)
			}
			if !legal && err == nil {
				w.Fail("misuse-accepted", "%s is a misuse but succeeded", what)
			}
			if !legal {
				w.Inc("probe.misuse")
				continue
			}
			if o.kind == 'f' || o.kind == 'd' || o.kind == 'c' {
				s.settle(true, what)
			} else if sum < 3000 || t.Chance(300) {
				s.settle(false, what)
			}
		}
	})
	finish(w, "writing")
}

func fatalPtr(b *bool) *bool { return b }

// tmo is the timeout callback of a writer and what it has seen.
type tmo struct {
	w      *World
	p      *Pipe
	on     bool
	T      time.Duration
	armed  bool
	arms   int
	last   int // 1 last call armed, 2 last call disarmed
	calls  int
	after  int // the arming call that fails, counted from 0; -1 never
	once   bool
	failed bool
	total  int
	start  time.Duration
	lw     *lineproto.Writer
	f      func(bool) error
	late   bool // the callback is changed between operations
	off    bool // no callback now
	gen    int
}

var errArm = errors.New("sim: cannot set the deadline")

func (m *tmo) install(lw *lineproto.Writer, fatal *bool) {
	t := m.w.T
	m.on = true
	m.T = time.Duration(1+t.Intn(30)) * 1000 * ms
	if t.Chance(250) {
		m.after = t.Intn(12)
		m.once = t.Bool()
	}
	m.f = func(enable bool) error {
		m.calls++
		if enable {
			k := m.total
			m.total++
			if m.after >= 0 && (k == m.after || k > m.after && !m.once) {
				m.w.Inc("fault.arm_error")
				m.failed = true
				m.w.Ev("arm-error")
				return errArm
			}
			m.armed = true
			m.arms++
			m.last = 1
			m.p.SetWriteTimeout(m.T)
			m.w.Ev("arm")
			return nil
		}
		m.armed = false
		m.last = 2
		m.p.SetWriteTimeout(0)
		m.w.Ev("disarm")
		return nil
	}
	m.lw = lw
	m.late = t.Chance(200)
	m.configure(!m.late || t.Bool())
	prev := m.p.OnWrite
	m.p.OnWrite = func(b []byte) {
		prev(b)
		if len(b) > 0 && !m.armed && !m.off {
			m.w.Fail("unarmed-write", "%d bytes were handed to the transport while the timeout was not armed", len(b))
		}
	}
}

// configure sets, replaces or removes the callback.
func (m *tmo) configure(on bool) {
	m.gen++
	m.off = !on
	if !on {
		m.lw.Timeout = nil
		return
	}
	gen := m.gen
	m.lw.Timeout = func(enable bool) error {
		if gen != m.gen {
			m.w.Fail("old-callback", "a timeout callback that was replaced or removed is called")
		}
		return m.f(enable)
	}
}

func (m *tmo) begin() {
	if m.late && m.w.T.Chance(300) {
		m.configure(m.w.T.Chance(700))
		m.w.Inc("probe.reconfigured")
	}
	m.arms, m.last = 0, 0
	m.start = m.w.Now()
}

func (m *tmo) end(what string, o wop, err error) {
	if m.armed {
		m.w.Fail("left-armed", "%s returned with the timeout still armed", what)
	}
	if d := m.w.Now() - m.start; d > time.Duration(m.arms)*m.T+ms && !m.off {
		m.w.Fail("blocked-too-long", "%s took %v of simulated time with %d armings of %v", what, d, m.arms, m.T)
	}
}

// runC08 closes readers and writers at drawn points.
func runC08(w *World) {
	t := w.T
	if t.Chance(200) {
		closeInHook(w)
		return
	}
	// outbound direction
	prof := w.DrawNet()
	prof.ZeroRead, prof.DataEOF, prof.Scribble = 0, false, false
	out := w.NewPipe(0, prof)
	s := newWside(w, out)
	ops := drawOps(t, s.mode, 8)
	after := append(drawOps(t, s.mode, 5), wop{kind: 'c'})
	sum := 0
	for _, o := range ops {
		for _, m := range o.msgs {
			sum += len(s.encoded(m))
		}
	}
	out.P.Tame(sum)
	if t.Chance(300) {
		out.P.WFault = &WFault{At: t.Intn(sum + 40), Err: ErrReset, Once: t.Bool(), Zero: t.Chance(300)}
	}
	failed, closed := false, false
	out.OnWrite = func(b []byte) {
		if closed {
			w.Fail("write-after-close", "%d bytes were handed to the transport after the writer was closed", len(b))
		}
	}
	out.OnAccept = func(n int, err error) {
		if err != nil {
			failed = true
		}
	}
	// inbound direction
	delim := drawDelim(t)
	pl := drawZPlan(t, delim, 2, "lrb")
	iprof := w.DrawNet()
	iprof.Tame(len(pl.wire))
	if t.Chance(200) {
		iprof.CutAt = t.Intn(len(pl.wire) + 1)
		iprof.CutErr = []error{io.EOF, ErrReset}[t.Intn(2)]
	}
	in := w.NewPipe(1, iprof)
	stopAt := t.Intn(len(pl.its) + 1)
	w.Sample = fmt.Sprintf("writer mode %d ops [%s] then close then [%s]; reader closed after %d of %d items", s.mode, descOps(ops), descOps(after), stopAt, len(pl.its))
	drain(w, out, false)
	feeder(w, in, pl.wire)
	w.Go("writer", func() {
		defer out.CloseWrite()
		for i, o := range ops {
			before := failed
			err, legal := s.do(o, !failed)
			w.Inc("op")
			if err != nil && legal && !failed {
				w.Fail("error", "operation %d (%v) failed although the transport works: %v", i, o, err)
			}
			if before {
				break
			}
			w.Yield()
		}
		before := failed
		err, _ := s.do(wop{kind: 'c'}, !failed)
		closed = true
		w.Inc("op")
		w.EvStr("closed", fmt.Sprint(err))
		switch {
		case before:
			w.Inc("probe.close_after_failure")
			s.settle(false, "close after a failure")
		case failed:
			w.Inc("probe.failed_in_close")
			if err == nil {
				w.Fail("close-error-lost", "the transport failed a write during close, but close reported success")
			}
			s.settle(false, "failed close")
		default:
			if err != nil {
				w.Fail("close-error", "closing a healthy writer reported %v", err)
			}
			s.settle(true, "close")
		}
		calls := out.WCalls
		for i, o := range after {
			if o.kind == 'z' {
				o.kind = 'f'
			}
			err, _ := s.do(o, false)
			w.Inc("op")
			if err == nil && o.kind != 'c' && !(len(o.msgs) == 1 && len(o.msgs[0]) == 0) {
				w.Fail("used-after-close", "operation %d (%v) after close succeeded", i, o)
			}
			w.Yield()
		}
		if out.WCalls != calls {
			w.Fail("write-after-close", "operations after close wrote to the transport")
		}
	})
	w.Go("reader", func() {
		defer in.CloseRead()
		var r *lineproto.Reader
		var closer io.Closer
		switch {
		case delim == '|' && t.Bool():
			nr := nmdc.NewReader(in)
			r, closer = nr.Reader, nr
		case delim == '\n' && t.Bool():
			ar := adc.NewReader(in)
			r, closer = ar.Reader, ar
		default:
			r = lineproto.NewReader(in, delim)
			closer = r
		}
		r.SetMaxLine(0)
		c := &rcheck{w: w, r: r, pipe: in}
		var held io.ReadCloser
		for i, it := range pl.its[:stopAt] {
			ok := false
			switch it.kind {
			case 'l':
				ok = c.line(i, it.data)
			case 'r':
				ok = c.raw(i, it.data, r)
			case 'b':
				br, err := r.Binary(uint64(len(it.data)))
				if err != nil {
					w.Fail("binary-error", "Binary(%d) reported %v", len(it.data), err)
				}
				if i == stopAt-1 && t.Bool() && len(it.data) > 0 {
					held = br // left open in the middle
					if t.Bool() {
						ok = c.raw(i, it.data[:t.Intn(len(it.data))], br)
					}
					break
				}
				ok = c.raw(i, it.data, br)
				if err := br.Close(); err != nil && ok {
					w.Fail("close-error", "closing a fully read section reported %v", err)
				}
			}
			if held != nil {
				break
			}
			if !ok {
				if iprof.CutErr == nil {
					w.Fail("error", "item %d (%v): reading reported %v although this direction is healthy", i, it, c.errAt)
				}
				break
			}
			if pl.enableAt[i] {
				if err := r.EnableZlib(); err != nil {
					if iprof.CutErr == nil {
						w.Fail("error", "EnableZlib reported %v although this direction is healthy", err)
					}
					break
				}
			}
			w.Yield()
		}
		before := in.RCalls
		cerr := closer.Close()
		if in.RCalls != before {
			w.Fail("read-in-close", "closing a reader read from the transport: it would wait for a silent peer")
		}
		if err := cerr; err != nil && iprof.CutErr == nil {
			w.Fail("close-error", "closing a healthy reader reported %v", err)
		}
		calls := in.RCalls
		w.Inc("op")
		for k, n := 0, 1+t.Intn(6); k < n; k++ {
			what := ""
			var err error
			got := 0
			switch t.Intn(6) {
			case 0:
				var b []byte
				what = "ReadLine"
				b, err = r.ReadLine()
				got = len(b)
			case 1:
				what = "Read"
				got, err = r.Read(make([]byte, 1+t.Intn(10)))
			case 2:
				what = "EnableZlib"
				err = r.EnableZlib()
			case 3:
				what = "Binary"
				var br io.ReadCloser
				br, err = r.Binary(uint64(1 + t.Intn(10)))
				if err == nil {
					got, err = br.Read(make([]byte, 4))
					br.Close()
				}
			case 4:
				r.Close()
				closer.Close()
				continue
			case 5:
				if held == nil {
					continue
				}
				what = "Read of an open binary section"
				got, err = held.Read(make([]byte, 4))
				if t.Bool() {
					held.Close()
				}
			}
			w.Inc("op")
			if err == nil || got != 0 {
				w.Fail("used-after-close", "%s after close returned %d bytes, %v", what, got, err)
			}
		}
		if held != nil {
			held.Close()
		}
		if in.RCalls != calls {
			w.Fail("read-after-close", "operations after close read from the transport")
		}
	})
	finish(w, "closing")
}

// closeInHook closes a writer or a reader from inside one of its own hooks.
func closeInHook(w *World) {
	t := w.T
	w.Inc("probe.closed_in_hook")
	pass := t.Bool() // the hook lets the line through, or drops it
	if t.Bool() {
		hookClosesWriter(w, pass)
	} else {
		hookClosesReader(w, pass)
	}
	finish(w, "closing in a hook")
}

func hookClosesWriter(w *World, pass bool) {
	t := w.T
	prof := w.DrawNet()
	prof.ZeroRead, prof.DataEOF, prof.Scribble = 0, false, false
	prof.Tame(4000)
	out := w.NewPipe(0, prof)
	s := newWside(w, out)
	n := 1 + t.Intn(5)
	k := t.Intn(n)
	var lines [][]byte
	for i := 0; i < n; i++ {
		l := lineData(t, '\n', t.Size(300))
		for j, c := range l {
			if c == '|' {
				l[j] = '.'
			}
		}
		lines = append(lines, append(l, '\n'))
	}
	onMsg := s.mode == 1 && t.Bool()
	others := t.Intn(2)
	w.Sample = fmt.Sprintf("writer mode %d: a hook closes it at line %d of %d (passing %v)", s.mode, k, n, pass)
	at, closed := -1, false
	out.OnWrite = func(b []byte) {
		if closed {
			w.Fail("write-after-close", "%d bytes were handed to the transport after a hook had closed the writer", len(b))
		}
	}
	hook := func() (bool, error) {
		if at != k {
			return true, nil
		}
		if err, _ := s.do(wop{kind: 'c'}, true); err != nil {
			w.Fail("close-error", "closing a healthy writer in a hook reported %v", err)
		}
		closed = true
		s.settle(true, "close in a hook")
		return pass, nil
	}
	if onMsg {
		s.nw.OnMessage(func(nmdc.Message) (bool, error) { return hook() })
	} else {
		s.lw.OnLine(func([]byte) (bool, error) { return hook() })
	}
	if others == 1 {
		s.lw.OnLine(func([]byte) (bool, error) { return true, nil })
	}
	drain(w, out, false)
	w.Go("writer", func() {
		defer out.CloseWrite()
		lvl := drawLevel(t)
		for i, l := range lines {
			if i < k && t.Chance(250) {
				o := wop{kind: 'e', level: lvl}
				if s.zOn() {
					o.kind = 'd'
				}
				if err, _ := s.do(o, true); err != nil {
					w.Fail("error", "switching compression before line %d failed: %v", i, err)
				}
			}
			at = i
			o := wop{kind: 'm', msgs: [][]byte{l[:len(l)-1]}}
			if s.mode == 0 {
				o = wop{kind: 'l', msgs: [][]byte{l}}
			}
			err, _ := s.do(o, i < k)
			w.Inc("op")
			switch {
			case i < k && err != nil:
				w.Fail("error", "line %d failed although the transport works: %v", i, err)
			case i == k && pass && err == nil:
				w.Fail("used-after-close", "line %d was reported as written, but a hook had closed the writer before", i)
			case i > k && err == nil:
				w.Fail("used-after-close", "line %d was accepted after a hook had closed the writer", i)
			}
			if i < k && t.Chance(300) {
				if err, _ := s.do(wop{kind: 'f'}, true); err != nil {
					w.Fail("error", "flush after line %d failed although the transport works: %v", i, err)
				}
			}
			w.Yield()
		}
		for _, o := range []byte("fedrlc") {
			if err, _ := s.do(wop{kind: o, msgs: [][]byte{[]byte("late")}}, false); err == nil && o != 'c' {
				w.Fail("used-after-close", "operation %c succeeded after a hook had closed the writer", o)
			}
		}
	})
}

func hookClosesReader(w *World, pass bool) {
	t := w.T
	kind := t.Intn(5) // a line hook; nmdc raw, message and keep-alive hooks; the adc keep-alive hook
	delim := byte('|')
	if kind == 4 || kind == 0 && t.Bool() {
		delim = '\n'
	}
	n := 1 + t.Intn(5)
	k := t.Intn(n)
	var wire []byte
	var lines [][]byte
	for i := 0; i < n; i++ {
		l := []byte(fmt.Sprintf("$Raw %d", i))
		if delim == '\n' {
			l = []byte(fmt.Sprintf("IRAW %d", i))
		}
		if i == k && kind >= 3 {
			l = nil
		}
		l = append(l, delim)
		lines = append(lines, l)
		wire = append(wire, l...)
	}
	prof := w.DrawNet()
	prof.Tame(len(wire))
	in := w.NewPipe(1, prof)
	w.Sample = fmt.Sprintf("a hook of kind %d closes the reader at line %d of %d (passing %v)", kind, k, n, pass)
	feeder(w, in, wire)
	w.Go("reader", func() {
		defer in.CloseRead()
		var lr *lineproto.Reader
		var closer io.Closer
		at, calls := -1, -1
		hook := func() (bool, error) {
			if at != k {
				return true, nil
			}
			before := in.RCalls
			if err := closer.Close(); err != nil {
				w.Fail("close-error", "closing a healthy reader in a hook reported %v", err)
			}
			if in.RCalls != before {
				w.Fail("read-in-close", "closing a reader in a hook read from the transport")
			}
			calls = in.RCalls
			return pass, nil
		}
		read := func() (string, error) { b, err := lr.ReadLine(); return string(b), err }
		if kind == 0 {
			lr = lineproto.NewReader(in, delim)
			closer = lr
		} else if kind == 4 {
			ar := adc.NewReader(in)
			lr, closer = ar.Reader, ar
			ar.OnKeepAlive = func() error { _, err := hook(); return err }
			read = func() (string, error) {
				m, err := ar.ReadInfo()
				if err != nil {
					return "", err
				}
				return fmt.Sprintf("IRAW %s\n", m.(*adc.RawMessage).Data), nil
			}
		} else {
			nr := nmdc.NewReader(in)
			lr, closer = nr.Reader, nr
			switch kind {
			case 1:
				nr.OnRawMessage(func(_, _ []byte) (bool, error) { return hook() })
			case 2:
				nr.OnMessage(func(nmdc.Message) (bool, error) { return hook() })
			case 3:
				nr.OnKeepAlive = func() error { _, err := hook(); return err }
			}
			read = func() (string, error) {
				m, err := nr.ReadMsg()
				if err != nil {
					return "", err
				}
				return fmt.Sprintf("$Raw %s|", m.(*nmdc.RawMessage).Data), nil
			}
		}
		if kind == 0 {
			lr.OnLine(func([]byte) (bool, error) { return hook() })
		}
		if t.Bool() {
			lr.OnLine(func([]byte) (bool, error) { return true, nil })
		}
		for i := 0; i <= k; i++ {
			at = i
			got, err := read()
			w.Inc("op")
			switch {
			case i < k && err != nil:
				w.Fail("error", "line %d: reading reported %v although nothing went wrong", i, err)
			case i == k && err == nil && (!pass || kind >= 3):
				w.Fail("used-after-close", "a hook closed the reader and dropped line %d, but the call returned %q", i, got)
			case err == nil && got != string(lines[i]):
				w.Fail("line-mismatch", "line %d: read %q, the peer sent %q", i, got, lines[i])
			}
			w.Yield()
		}
		if calls < 0 {
			w.Fail("hook-lost", "the hook for line %d was not called", k)
		}
		for j := 0; j < 2; j++ {
			if got, err := read(); err == nil {
				w.Fail("used-after-close", "after a hook had closed the reader, reading returned %q", got)
			}
			if k, err := lr.Read(make([]byte, 5)); err == nil || k != 0 {
				w.Fail("used-after-close", "after a hook had closed the reader, Read returned %d bytes, %v", k, err)
			}
			if err := lr.EnableZlib(); err == nil {
				w.Fail("used-after-close", "after a hook had closed the reader, EnableZlib succeeded")
			}
			closer.Close()
		}
		if in.RCalls != calls {
			w.Fail("read-after-close", "operations after a hook had closed the reader read from the transport")
		}
	})
}
