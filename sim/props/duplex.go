package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 60000, Thorough: 1500000,
		Rule: "Two live endpoints exchange a drawn script of turns (lines, protocol messages, keep-alives, raw blocks, binary sections, compression switched on or off in either direction) and flush before they wait; alternating or with both directions streaming at once. Nobody closes the connection, so a read that needs one byte more than was flushed blocks for ever and the simulator reports the deadlock.",
		Real: []string{"lineproto.Reader", "lineproto.Writer", "nmdc.Reader", "nmdc.Writer", "adc.Reader", "adc.Writer", "compress/zlib"},
		Stub: []string{"transport (simulated connection)", "clock"},
		Run:  runC09,
	})
}

// turn is what one side sends before it waits.
type turn struct {
	who int
	ops []dop
}

type dop struct {
	kind  byte // l line or message, k keep-alive, e enable, d disable, r raw block, b binary section
	level int
	data  []byte
}

// end is one endpoint of a duplex exchange.
type endpoint struct {
	w    *World
	name string
	mode int // 0 lineproto '\n', 1 lineproto '|', 2 nmdc, 3 adc
	r    *lineproto.Reader
	wr   *lineproto.Writer
	nr   *nmdc.Reader
	nw   *nmdc.Writer
	ar   *adc.Reader
	aw   *adc.Writer
	kas  int // keep-alives seen
	zout bool
}

func newEndpoint(w *World, c *Conn, mode, bsz int) *endpoint {
	e := &endpoint{w: w, name: c.Name, mode: mode}
	switch mode {
	case 0, 1:
		e.r = lineproto.NewReader(c, "\n|"[mode])
		e.wr = lineproto.NewWriterSize(c, bsz)
	case 2:
		e.nr, e.nw = nmdc.NewReader(c), nmdc.NewWriterSize(c, bsz)
		e.nr.OnKeepAlive = func() error { e.kas++; return nil }
		e.r, e.wr = e.nr.Reader, e.nw.Writer
	case 3:
		e.ar, e.aw = adc.NewReader(c), adc.NewWriterSize(c, bsz)
		e.ar.OnKeepAlive = func() error { e.kas++; return nil }
		e.r, e.wr = e.ar.Reader, e.aw.Writer
	}
	e.r.SetMaxLine(0)
	return e
}

func (e *endpoint) delim() byte { return "\n||\n"[e.mode] }

func (e *endpoint) chk(err error, what string, args ...any) {
	if err != nil {
		e.w.Fail("error", "%s: %s: %v although the connection is healthy", e.name, fmt.Sprintf(what, args...), err)
	}
}

func (e *endpoint) flush(t *Tape) error {
	if e.mode == 3 && t.Bool() {
		return anyStream(t, e.aw).Flush()
	}
	return e.wr.Flush()
}

func (e *endpoint) send(o dop) {
	e.w.Inc("op")
	switch o.kind {
	case 'l':
		switch e.mode {
		case 2:
			e.chk(e.nw.WriteMsg(&nmdc.RawMessage{Typ: "Raw", Data: o.data}), "WriteMsg")
		case 3:
			e.chk(e.aw.WriteInfo(&adc.RawMessage{Type: adc.MsgType{'R', 'A', 'W'}, Data: o.data}), "WriteInfo")
		default:
			e.chk(e.wr.WriteLine(append(append([]byte(nil), o.data...), e.delim())), "WriteLine")
		}
	case 'k':
		switch e.mode {
		case 2:
			e.chk(e.nw.WriteKeepAlive(), "WriteKeepAlive")
		case 3:
			e.chk(e.aw.WriteKeepAlive(), "WriteKeepAlive")
		}
	case 'e':
		if e.mode == 2 {
			e.chk(e.nw.ZOnLevel(o.level), "ZOnLevel(%d)", o.level)
			return
		}
		if e.mode == 3 {
			e.chk(e.aw.WriteInfo(adc.ZOn{}), "WriteInfo(ZON)")
		} else {
			e.chk(e.wr.WriteLine([]byte{'Z', 'O', 'N', e.delim()}), "WriteLine")
		}
		e.chk(e.wr.EnableZlibLevel(o.level), "EnableZlibLevel(%d)", o.level)
	case 'd':
		e.chk(e.wr.DisableZlib(), "DisableZlib")
	case 'r', 'b':
		n, err := e.wr.Write(o.data)
		e.chk(err, "Write")
		if n != len(o.data) {
			e.w.Fail("short-count", "raw write of %d bytes returned %d", len(o.data), n)
		}
	}
}

func (e *endpoint) recv(i int, o dop) {
	w := e.w
	w.Inc("op")
	w.EvBytes("expect", i, o.data)
	switch o.kind {
	case 'l':
		var got []byte
		switch e.mode {
		case 2:
			m, err := e.nr.ReadMsg()
			e.chk(err, "ReadMsg")
			rm, ok := m.(*nmdc.RawMessage)
			if !ok || rm.Typ != "Raw" {
				w.Fail("wrong-message", "%s: message %d: got %#v", e.name, i, m)
			}
			got = rm.Data
		case 3:
			m, err := e.ar.ReadInfo()
			e.chk(err, "ReadInfo")
			rm, ok := m.(*adc.RawMessage)
			if !ok || rm.Type != (adc.MsgType{'R', 'A', 'W'}) {
				w.Fail("wrong-message", "%s: message %d: got %#v", e.name, i, m)
			}
			got = rm.Data
		default:
			b, err := e.r.ReadLine()
			e.chk(err, "ReadLine")
			if len(b) == 0 || b[len(b)-1] != e.delim() {
				w.Fail("line-mismatch", "%s: line %d has no delimiter: %s", e.name, i, q(b))
			}
			got = b[:len(b)-1]
		}
		if !bytes.Equal(got, o.data) {
			w.Fail("line-mismatch", "%s: line %d: got %s want %s", e.name, i, q(got), q(o.data))
		}
	case 'e':
		switch e.mode {
		case 2:
			m, err := e.nr.ReadMsg()
			e.chk(err, "ReadMsg")
			if _, ok := m.(*nmdc.ZOn); !ok {
				w.Fail("wrong-message", "%s: got %#v instead of ZOn", e.name, m)
			}
		case 3:
			m, err := e.ar.ReadInfo()
			e.chk(err, "ReadInfo")
			if _, ok := m.(adc.ZOn); !ok {
				w.Fail("wrong-message", "%s: got %#v instead of ZON", e.name, m)
			}
		default:
			b, err := e.r.ReadLine()
			e.chk(err, "ReadLine")
			if !bytes.HasPrefix(b, []byte("ZON")) {
				w.Fail("line-mismatch", "%s: got %s instead of the switch", e.name, q(b))
			}
		}
		e.chk(e.r.EnableZlib(), "EnableZlib")
		w.Inc("probe.enabled")
	case 'r':
		c := &rcheck{w: w, r: e.r}
		if !c.raw(i, o.data, e.r) {
			e.chk(c.errAt, "Read")
		}
	case 'b':
		br, err := e.r.Binary(uint64(len(o.data)))
		e.chk(err, "Binary")
		k := len(o.data)
		if w.T.Chance(300) {
			k = w.T.Intn(k + 1)
		}
		c := &rcheck{w: w, r: e.r}
		if !c.raw(i, o.data[:k], br) {
			e.chk(c.errAt, "Read of a binary section")
		}
		e.chk(br.Close(), "closing a binary section")
	}
}

func drawTurn(t *Tape, mode, who int, z *bool) turn {
	tn := turn{who: who}
	k := 1 + t.Intn(4)
	for j := 0; j < k; j++ {
		t.Begin()
		o := dop{kind: 'l'}
		switch t.Weighted(8, 2, 2, 1, 1, 1) {
		case 1:
			if !*z {
				o.kind = 'e'
			}
		case 2:
			if *z {
				o.kind = 'd'
			}
		case 3:
			o.kind = 'r'
		case 4:
			o.kind = 'b'
		case 5:
			if mode >= 2 {
				o.kind = 'k'
			}
		}
		switch o.kind {
		case 'e':
			o.level = drawLevel(t)
			*z = true
		case 'd':
			*z = false
		case 'l':
			o.data = t.Blob(drawLineLen(t), "abcdefgh XYZ 0123456789")
		case 'r', 'b':
			o.data = t.Blob(drawLineLen(t), "")
		}
		tn.ops = append(tn.ops, o)
		t.End()
	}
	return tn
}

func descTurns(ts []turn) string {
	var sb strings.Builder
	for i, tn := range ts {
		if i > 0 {
			sb.WriteString("; ")
		}
		fmt.Fprintf(&sb, "%c:", 'a'+tn.who)
		for _, o := range tn.ops {
			fmt.Fprintf(&sb, " %c%d", o.kind, len(o.data)+o.level)
		}
	}
	return sb.String()
}

func runC09(w *World) {
	t := w.T
	mode := t.Intn(4)
	stream := t.Chance(300) // both directions at once
	n := 1 + t.Intn(8)
	var z [2]bool
	var turns []turn
	total := 0
	for i := 0; i < n; i++ {
		t.Begin()
		tn := drawTurn(t, mode, i%2, &z[i%2])
		for _, o := range tn.ops {
			total += len(o.data)
		}
		turns = append(turns, tn)
		t.End()
	}
	pa, pb := w.DrawNet(), w.DrawNet()
	pa.DataEOF, pb.DataEOF = false, false
	pa.Tame(total)
	pb.Tame(total)
	// the end of a compressed section is read together with what follows it, so
	// it must fit into the window
	for _, p := range []*Profile{&pa, &pb} {
		if p.Window > 0 && p.Window < 256 {
			p.Window = 256
		}
	}
	if t.Chance(200) {
		f := &RFault{At: t.Intn(total + 1), Pause: time.Duration(1+t.Intn(100)) * 1000 * ms}
		pa.RFaults = append(pa.RFaults, f)
	}
	a, b := w.NewConnPair(0, pa, pb)
	bszs := []int{0, 0, 1, 16, 300, 4096}
	ends := [2]*endpoint{newEndpoint(w, a, mode, bszs[t.Intn(6)]), newEndpoint(w, b, mode, bszs[t.Intn(6)])}
	w.Sample = fmt.Sprintf("mode %d streaming %v turns [%s]", mode, stream, descTurns(turns))
	sendTurn := func(e *endpoint, tn turn) {
		last := byte(0)
		for _, o := range tn.ops {
			e.send(o)
			if o.kind != 'k' || true {
				last = o.kind
			}
			if t.Chance(100) {
				e.chk(e.flush(t), "Flush")
			}
		}
		// switching compression off flushes by itself
		if last != 'd' || t.Bool() {
			e.chk(e.flush(t), "Flush")
		}
	}
	recvTurn := func(e *endpoint, tn turn) {
		for i, o := range tn.ops {
			if o.kind == 'd' || o.kind == 'k' {
				continue
			}
			if len(o.data) == 0 && (o.kind == 'r' || o.kind == 'b') {
				continue
			}
			e.recv(i, o)
		}
	}
	// a keep-alive directly in front of raw data cannot be told apart from it
	for _, tn := range turns {
		for i := range tn.ops {
			if tn.ops[i].kind == 'k' {
				for j := i + 1; j <= len(tn.ops); j++ {
					if j == len(tn.ops) {
						tn.ops[i] = dop{kind: 'l', data: []byte("was keep-alive")}
						break
					}
					if k := tn.ops[j].kind; k == 'l' || k == 'e' {
						break
					} else if k == 'r' || k == 'b' || k == 'd' {
						tn.ops[i] = dop{kind: 'l', data: []byte("was keep-alive")}
						break
					}
				}
			}
		}
	}
	want := [2]int{}
	for _, tn := range turns {
		for _, o := range tn.ops {
			if o.kind == 'k' {
				want[1-tn.who]++
			}
		}
	}
	done := 0
	if stream {
		for s := 0; s < 2; s++ {
			e, s := ends[s], s
			w.Go("send-"+e.name, func() {
				for _, tn := range turns {
					if tn.who == s {
						sendTurn(e, tn)
					}
				}
			})
			w.Go("recv-"+e.name, func() {
				for _, tn := range turns {
					if tn.who != s {
						recvTurn(e, tn)
					}
				}
				done++
			})
		}
	} else {
		for s := 0; s < 2; s++ {
			e, s := ends[s], s
			w.Go("end-"+e.name, func() {
				for _, tn := range turns {
					if tn.who == s {
						sendTurn(e, tn)
					} else {
						recvTurn(e, tn)
					}
				}
				done++
			})
		}
	}
	if !finish(w, "an exchange in which every side flushes before it waits") {
		return
	}
	for s := 0; s < 2; s++ {
		if ends[s].kas != want[s] {
			w.Fail("keep-alive", "endpoint %s saw %d keep-alives, the peer sent %d", ends[s].name, ends[s].kas, want[s])
		}
	}
}
