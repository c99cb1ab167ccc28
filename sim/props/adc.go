package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/direct-connect/go-dc/adc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C14", Quick: 400000, Thorough: 4000000,
		Rule: "A sender writes a drawn history of ADC packets (all 8 kinds, every registered command, unknown commands, generic and hub forms of INF, keep-alives, packets the encoder must reject, lines of another implementation, compression on and off) through 0 to 2 relays (raw lines, undecoded packets or decoded packets, with their own compression) to a receiver over simulated pipes; a link may be cut at any byte. Uncompressed wires are compared with an independent encoder.",
		Real: []string{"adc.Writer", "adc.Reader", "adc packets and messages", "lineproto", "compress/zlib"},
		Stub: []string{"transport (simulated pipes)", "clock"},
		Run:  runC14,
	})
}

// failMsg fails to encode after some bytes.
type failMsg struct{}

func (failMsg) Cmd() adc.MsgType { return adc.MsgType{'F', 'A', 'L'} }
func (failMsg) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString("partial")
	return errors.New("cannot encode this message")
}

// unsupMsg has a field the encoder does not know, after one it knows.
type unsupMsg struct {
	A string     `adc:"AA,req"`
	B complex128 `adc:"BB,req"`
}

func (unsupMsg) Cmd() adc.MsgType { return adc.MsgType{'U', 'N', 'S'} }

// failVal is a value that may fail to encode after some bytes.
type failVal bool

func (v failVal) MarshalADC(buf *bytes.Buffer) error {
	if v {
		return failMsg{}.MarshalADC(buf)
	}
	buf.WriteByte('v')
	return nil
}

// failList has lists of values that cannot be encoded.
type failList struct {
	A string       `adc:"#"`
	L []failVal    `adc:"LL"`
	C []complex128 `adc:"CC"`
	V *failVal     `adc:"VV"`
	Z []int64      `adc:"ZZ"`
}

func (failList) Cmd() adc.MsgType { return adc.MsgType{'F', 'L', 'S'} }

func badADC(t *Tape) adc.Message {
	m := failList{A: "a", Z: []int64{1, 2}}
	switch t.Intn(5) {
	case 0:
		return failMsg{}
	case 1:
		return unsupMsg{A: "a", B: 1}
	case 2:
		m.L = make([]failVal, 1+t.Intn(3))
		m.L[t.Intn(len(m.L))] = true
	case 3:
		m.C = make([]complex128, 1+t.Intn(2))
	case 4:
		v := failVal(true)
		m.V = &v
	}
	return m
}

type astep struct {
	kind  byte // m packet, a line of another implementation, x rejected packet, k keep-alive, z compression on, d off, f flush
	p     *apkt
	line  []byte
	level int
	to    int // 1 hub info, 2 fields, 3 changes of a user
}

func (g *agen) steps(n int) []astep {
	t := g.t
	var out []astep
	var said astep
	z := false
	for i := 0; i < n; i++ {
		t.Begin()
		s := astep{}
		switch t.Weighted(12, 3, 2, 2, 2, 3, 1) {
		case 0, 1:
			s.kind = 'm'
			switch t.Weighted(14, 1, 1, 2) {
			case 3:
				m, e := g.update()
				s.p = g.wrap(m, e, adcAll)
				s.to = 3
			case 0:
				s.p = g.apacket()
			case 1:
				m, e := g.hubInfo()
				s.p = g.wrap(m, e, "IB")
				s.to = 1
			case 2:
				m, e := g.fields()
				s.p = g.wrap(m, e, adcAll)
				s.to = 2
			}
			if len(out) > 0 && t.Chance(200) {
				s.kind = 'a'
				s.line = s.p.alt(t)
				if s.to == 2 || s.to == 3 {
					s.line = s.p.line()
				}
			}
			if said.p != nil && t.Chance(100) { // the same again
				s = said
			}
			if said.p == nil || t.Chance(700) {
				said = s
			}
		case 2:
			s.kind = 'k'
		case 3:
			s.kind = 'z'
			if z {
				s.kind = 'f'
			}
			z = true
			s.level = drawLevel(t)
		case 4:
			s.kind = 'd'
			if !z {
				s.kind = 'f'
			}
			z = false
		case 5:
			s.kind = 'f'
		case 6:
			s.kind = 'x'
			s.p = g.wrap(badADC(t), aenc{pos: []string{"x"}}, adcAll)
		}
		out = append(out, s)
		t.End()
	}
	return out
}

func descA(steps []astep) string {
	var b bytes.Buffer
	for i, s := range steps {
		if i > 30 {
			b.WriteString("...")
			break
		}
		b.WriteByte(' ')
		b.WriteByte(s.kind)
		if s.p != nil {
			b.WriteString(s.p.head[:4])
		}
	}
	return b.String()
}

// rawWant is a packet whose command was not decoded.
func (a *apkt) rawWant() string {
	rw := &adc.RawMessage{Type: a.want.Message().Cmd(), Data: []byte(a.enc.String())}
	m := a.want.Message()
	a.want.SetMessage(rw)
	s := canon(a.want)
	a.want.SetMessage(m)
	return s
}

// target is an empty message to decode into.
func (s *astep) target() adc.Message {
	switch s.to {
	case 1:
		return &adc.HubInfo{}
	case 2, 3:
		return &adc.UserInfoMod{}
	}
	return nil
}

// reread reads one packet in a drawn way and compares it with the one sent.
func (s *astep) reread(w *World, r *adc.Reader, line []byte, sup *running) error {
	t := w.T
	how := t.Weighted(4, 2, 2, 1)
	if s.to >= 2 || s.to == 1 && how != 1 {
		how = 2
	}
	a := s.p
	var got string
	var dec adc.Message
	want := canon(a.want)
	switch how {
	case 0, 1:
		p, err := r.ReadPacket()
		if err != nil {
			return err
		}
		if s.to != 0 {
			// decoded as the registered form of INF; only the address is compared
			p.SetMessage(a.want.Message())
		}
		got, dec = canon(p), p.Message()
		a.addressed(w, p)
	case 2:
		p, err := r.ReadPacketRaw()
		if err != nil {
			return err
		}
		if line == nil && !a.enc.any {
			if c := canon(p); c != a.rawWant() {
				w.Fail("altered-packet", "undecoded packet: got %s, sent %s", short(c), short(a.rawWant()))
			}
		}
		a.addressed(w, p)
		if t.Chance(150) {
			other := []adc.Message{&adc.ChatMessage{}, &adc.SIDAssign{}, &adc.UserInfoMod{}, &appMsg{}}[t.Intn(4)]
			if other.Cmd() != p.Message().Cmd() {
				if p.DecodeMessageTo(other) == nil {
					w.Fail("wrong-command", "%s was decoded as %T", q(a.line()), other)
				}
				w.Inc("probe.other-command")
			}
		}
		if _, ok := a.want.Message().(adc.Supported); ok && t.Bool() {
			sup.apply(w, p, a.enc.tags)
		}
		sup.reuse(w, p, a, s.to)
		m := s.target()
		if m == nil {
			if _, raw := a.want.Message().(*adc.RawMessage); !raw && t.Bool() {
				m = emptyOf(a.want.Message())
			}
		}
		if m == nil {
			if err := p.DecodeMessage(); err != nil {
				w.Fail("decode-error", "DecodeMessage of a well-formed packet %s: %v", q(a.line()), err)
			}
			got = canon(p)
			break
		}
		if err := p.DecodeMessageTo(m); err != nil {
			w.Fail("decode-error", "DecodeMessageTo of a well-formed packet %s: %v", q(a.line()), err)
		}
		p.SetMessage(valueOf(m))
		got, dec = canon(p), p.Message()
	case 3:
		var m adc.Message
		var err error
		switch a.kind {
		case 'I':
			m, err = r.ReadInfo()
		case 'C':
			m, err = r.ReadClient()
		default:
			p, e := r.ReadPacket()
			if e != nil {
				return e
			}
			m, err = p.Message(), nil
		}
		if err != nil {
			return err
		}
		got, want = canon(m), canon(a.want.Message())
	}
	if got != want {
		i := firstDiff([]byte(got), []byte(want))
		lo := max(0, i-40)
		w.Fail("altered-packet", "near %d: got ...%s, sent ...%s", i, short(got[min(lo, len(got)):]), short(want[min(lo, len(want)):]))
	}
	if dec != nil {
		asked(w, dec, a.enc)
		if how < 2 {
			spoil(w, dec)
		}
	}
	return nil
}

func runC14(w *World) {
	t := w.T
	g := &agen{t: t, big: t.Chance(100)}
	if t.Chance(200) { // few kinds of messages in a row
		for i, n := 0, 1+t.Intn(2); i < n; i++ {
			g.focus = append(g.focus, t.Intn(19))
		}
	}
	steps := g.steps(1 + t.Intn(12))
	var all []*astep
	total := 0
	for i := range steps {
		s := &steps[i]
		if s.kind == 'm' || s.kind == 'a' {
			all = append(all, s)
			total += len(s.p.line()) + 12
		}
	}
	nhop := 1 + t.Weighted(5, 3, 1)
	hops := make([]*hop, nhop)
	cutHop := -1
	if t.Chance(350) {
		cutHop = t.Intn(nhop)
	}
	for i := range hops {
		prof := w.DrawNet()
		prof.CutAt = -1
		prof.Tame(total)
		if i == cutHop {
			prof.CutAt = t.Intn(total + 30)
			prof.CutErr = []error{io.EOF, ErrReset}[t.Intn(2)]
		}
		if t.Chance(150) {
			prof.RFaults = append(prof.RFaults, &RFault{At: t.Intn(total + 1), Pause: time.Duration(1+t.Intn(20000)) * ms})
		}
		hops[i] = &hop{p: w.NewPipe(i, prof), plain: true, delim: '\n'}
	}
	relay := make([]int, nhop) // 0 raw lines, 1 undecoded, 2 decoded
	altered := false           // a relay may write parameters another way than they were sent
	for i := 1; i < nhop; i++ {
		relay[i] = t.Intn(3)
		for _, s := range all {
			if relay[i] == 2 && s.to != 0 {
				relay[i] = 1
			}
		}
		altered = altered || relay[i] == 2
	}
	bsz := []int{0, 0, 1, 16, 200, 4096}
	w.Sample = fmt.Sprintf("hops %d relays %v cut %d [%s]", nhop, relay, cutHop, descA(steps))
	w.Go("sender", func() {
		h := hops[0]
		defer h.p.CloseWrite()
		wr := adc.NewWriterSize(h.p, bsz[t.Intn(6)])
		fail := func(what string, err error) bool {
			if err == nil {
				return false
			}
			if cutHop < 0 {
				w.Fail("write-error", "%s failed although the transport works: %v", what, err)
			}
			return true
		}
		for _, s := range steps {
			w.Inc("op")
			switch s.kind {
			case 'm':
				h.sent = append(h.sent, "")
				if fail("WritePacket", g.write(wr, s.p.pkt)) {
					return
				}
			case 'a':
				h.sent = append(h.sent, "")
				if fail("WriteLine", wr.WriteLine(s.line)) {
					return
				}
			case 'x':
				if g.write(wr, s.p.pkt) == nil {
					w.Fail("bad-message-accepted", "the writer accepted a message that fails to encode")
				}
				w.Inc("probe.rejected")
			case 'k':
				h.kas++
				if fail("WriteKeepAlive", wr.WriteKeepAlive()) {
					return
				}
			case 'z':
				h.plain = false
				if fail("ZON", wr.WriteInfo(adc.ZOn{})) || fail("EnableZlib", wr.EnableZlibLevel(s.level)) {
					return
				}
				h.mark()
			case 'd':
				if fail("DisableZlib", wr.DisableZlib()) {
					return
				}
				h.mark()
			case 'f':
				if fail("Flush", g.flush(wr)) {
					return
				}
				h.mark()
			}
		}
		var err error
		if t.Bool() {
			err = wr.Close()
		} else {
			err = g.flush(wr)
		}
		if !fail("the final flush", err) {
			h.mark()
		}
	})
	isZon := func(line []byte) bool { return string(line) == "IZON\n" }
	for i := 1; i < nhop; i++ {
		in, out := hops[i-1], hops[i]
		i := i
		w.Go(fmt.Sprintf("relay%d", i), func() {
			defer out.p.CloseWrite()
			defer in.p.CloseRead()
			r := adc.NewReader(in.p)
			r.SetMaxLine(0)
			wr := adc.NewWriterSize(out.p, bsz[t.Intn(6)])
			wfail := func(err error) bool {
				if err != nil && cutHop < 0 {
					w.Fail("write-error", "a relay failed to write although the transport works: %v", err)
				}
				return err != nil
			}
			if t.Chance(300) {
				out.plain = false
				if wfail(wr.WriteInfo(adc.ZOn{})) || wfail(wr.EnableZlibLevel(drawLevel(t))) {
					return
				}
			}
			r.OnKeepAlive = func() error { in.readKA++; return nil }
			for {
				var err error
				if relay[i] == 0 {
					line, e := r.ReadLine()
					switch {
					case e != nil:
						err = e
					case isZon(line):
						err = r.EnableZlib()
					default:
						if len(line) > 1 {
							in.read++
							out.sent = append(out.sent, "")
						} else {
							in.readKA++
							out.kas++
						}
						if wfail(wr.WriteLine(line)) {
							return
						}
					}
				} else {
					var p adc.Packet
					var e error
					if relay[i] == 1 {
						p, e = r.ReadPacketRaw()
					} else {
						p, e = r.ReadPacket()
					}
					switch {
					case e != nil:
						err = e
					case p.Kind() == 'I' && p.Message().Cmd() == adc.ZOn{}.Cmd():
						err = r.EnableZlib()
					default:
						in.read++
						if in.read > len(all) {
							w.Fail("invented-packet", "a relay read %s after everything sent", short(canon(p)))
							return
						}
						if s := all[in.read-1]; relay[i] == 2 {
							if c, want := canon(p), canon(s.p.want); c != want {
								w.Fail("altered-packet", "a relay read packet %d as %s, sent %s", in.read-1, short(c), short(want))
							}
						}
						out.sent = append(out.sent, "")
						if wfail(g.write(wr, p)) {
							return
						}
						spoil(w, p)
					}
				}
				if err != nil {
					w.EvStr("relay-end", err.Error())
					if cutHop < 0 && err != io.EOF && err != io.ErrUnexpectedEOF {
						w.Fail("read-error", "a relay failed to read although the transport works: %v", err)
					}
					if wfail(wr.Close()) {
						return
					}
					out.mark()
					return
				}
				if t.Chance(500) {
					if wfail(g.flush(wr)) {
						return
					}
					out.mark()
				}
			}
		})
	}
	last := hops[nhop-1]
	var end error
	w.Go("receiver", func() {
		defer last.p.CloseRead()
		r := adc.NewReader(last.p)
		r.SetMaxLine(0)
		r.OnKeepAlive = func() error { last.readKA++; return nil }
		// the in-band signal comes as a packet of its own: peek with a line hook
		zon := false
		hooked := t.Chance(250) // the hook enables inflating itself
		var sup running
		r.OnLine(func(line []byte) (bool, error) {
			if isZon(line) {
				if hooked {
					return false, r.EnableZlib()
				}
				zon = true
				return false, errZon
			}
			return true, nil
		})
		for {
			zon = false
			var err error
			if last.read < len(all) {
				s := all[last.read]
				line := s.line
				if altered {
					line = []byte{}
				}
				err = s.reread(w, r, line, &sup)
			} else {
				var p adc.Packet
				if p, err = r.ReadPacket(); err == nil {
					w.Fail("invented-packet", "the receiver got %s after everything sent", short(canon(p)))
					return
				}
			}
			w.Inc("op")
			if zon {
				if err := r.EnableZlib(); err != nil {
					end = err
					return
				}
				continue
			}
			if err != nil {
				end = err
				w.EvStr("end", err.Error())
				ended(w, last.p, cutHop < 0, err)
				for j := 0; j < 2; j++ {
					if p, err := r.ReadPacket(); err == nil {
						w.Fail("invented-packet", "after the stream had ended with %v, a packet is read: %s", end, short(canon(p)))
					}
				}
				return
			}
			last.read++
		}
	})
	if !finish(w, "a chain of ADC connections") {
		return
	}
	for i, h := range hops {
		owed := h.owed(h.p.Delivered)
		if cutHop < 0 {
			owed = len(h.sent)
		}
		if i > cutHop && cutHop >= 0 || i == cutHop || cutHop < 0 {
			if h.read < owed {
				w.Fail("lost-packet", "link %d: %d of %d packets were delivered completely, but only %d were read before %v", i, owed, len(h.sent), h.read, end)
			}
		}
		if h.read > len(h.sent) {
			w.Fail("invented-packet", "link %d: %d packets were read, %d sent", i, h.read, len(h.sent))
		}
		if cutHop < 0 && h.readKA != h.kas {
			w.Fail("keep-alive", "link %d: %d keep-alives were sent, %d seen", i, h.kas, h.readKA)
		}
	}
	// the wire of the sender against the independent encoder
	if hops[0].plain {
		k := 0
		for _, l := range bytes.SplitAfter(hops[0].p.Wire, []byte{'\n'}) {
			if len(l) <= 1 || l[len(l)-1] != '\n' {
				continue
			}
			if k >= len(all) {
				w.Fail("wire", "an additional line %s is on the wire", q(l))
				break
			}
			s := all[k]
			want := s.p.line()
			if s.kind == 'a' {
				want = s.line
			}
			if s.p.normal(l) != string(want) && string(l) != string(want) {
				w.Fail("wire", "packet %d is encoded as %s, the protocol says %s", k, q(l), q(want))
			}
			k++
		}
	}
}

var errZon = errors.New("compression signal")

// emptyOf returns a pointer to an empty message of the same type.
func emptyOf(m adc.Message) adc.Message { return newLike(m) }

// ended judges the error that ends the reading of a connection.
func ended(w *World, p *Pipe, intact bool, err error) {
	if intact && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
		w.Fail("read-error", "the receiver failed to read although the transport works: %v", err)
	}
	if p.CutFired() && p.P.CutErr == ErrReset && !errors.Is(err, ErrReset) {
		w.Fail("reset-hidden", "the connection was reset, but the reader reports %v", err)
	}
}
