package props

import (
	"bytes"
	"encoding/pem"
	"fmt"
	"io"
	"time"

	"github.com/direct-connect/go-dc/adc"
	atypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 60000, Thorough: 1200000,
		Rule: "2 to 6 connections of drawn protocols, encodings and compression run in one process, with schedule points inside transports, text conversions, hooks and message encoders and, in a part of the runs, before any statement of the code under test; some connections are cut, corrupted, fail to write, or are closed or abandoned in the middle, others come up while the rest is running; tasks that hash, that encode and decode datagrams and that do pure calculations (keys, keyprints, addresses, ids) run beside them. Every undisturbed connection must deliver exactly its own messages, every disturbed one a prefix of its own.",
		Real: []string{"nmdc.Reader", "nmdc.Writer", "adc.Reader", "adc.Writer", "lineproto.Reader", "lineproto.Writer", "nmdc and adc messages", "nmdc.Marshal", "nmdc.Unmarshal", "adc.DecodePacket", "tiger.TreeHash", "compress/zlib", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipes)", "clock"},
		Run:  runC18,
	})
}

// ystep is one action of a sender.
type ystep struct {
	kind byte // m, k keep-alive, z, d, f
	n    nmdc.Message
	a    *apkt
	line []byte
	want string
	lvl  int
}

// yconn is one of several concurrent connections.
type yconn struct {
	id    int
	proto int // 0 nmdc, 1 adc, 2 lines
	cs    *charset
	steps []ystep
	want  []string
	fault int // 0 healthy, 1 cut, 2 bit flips, 3 write failure, 4 receiver closes, 5 sender abandons, 6 sender closes early
	got   int
	stop  int
	p     *Pipe
}

// yieldMsg gives other tasks a turn while it is encoded.
type yieldMsg struct {
	nmdc.Message
	w *World
}

func (y yieldMsg) MarshalNMDC(enc *nmdc.TextEncoder, buf *bytes.Buffer) error {
	y.w.Yield()
	err := y.Message.MarshalNMDC(enc, buf)
	y.w.Yield()
	return err
}

func (y yieldMsg) UnmarshalNMDC(dec *nmdc.TextDecoder, data []byte) error {
	return y.Message.UnmarshalNMDC(dec, data)
}

// yieldADC does the same for an ADC message.
type yieldADC struct {
	adc.Message
	w *World
}

func (y yieldADC) MarshalADC(buf *bytes.Buffer) error {
	y.w.Yield()
	err := adc.Marshal(buf, y.Message)
	y.w.Yield()
	return err
}

func runC18(w *World) {
	t := w.T
	if t.Chance(400) {
		w.Fine([]int{2, 10, 60, 400, 3000}[t.Intn(5)], 3000)
	}
	var conns []*yconn
	for i, n := 0, 2+t.Weighted(5, 3, 2, 1, 1); i < n; i++ {
		t.Begin()
		c := &yconn{id: i, proto: t.Weighted(3, 3, 1), cs: charsets[t.Weighted(2, 1, 1, 1, 1)]}
		ng := &ngen{t: t, cs: c.cs, big: t.Chance(50)}
		ag := &agen{t: t, big: t.Chance(50)}
		z := false
		total := 0
		for j, k := 0, 1+t.Intn(10); j < k; j++ {
			t.Begin()
			s := ystep{kind: 'm'}
			switch t.Weighted(10, 1, 2, 2, 2) {
			case 1:
				s.kind = 'k'
				if c.proto == 2 {
					s.kind = 'f'
				}
			case 2:
				s.kind = 'z'
				if z {
					s.kind = 'f'
				} else {
					z = true
				}
				s.lvl = drawLevel(t)
			case 3:
				s.kind = 'd'
				if !z {
					s.kind = 'f'
				}
				z = false
			case 4:
				s.kind = 'f'
			default:
				switch c.proto {
				case 0:
					s.n = ng.msg()
					if _, is := s.n.(*nmdc.ZOn); is {
						s.n = &nmdc.HubTopic{Text: fmt.Sprintf("topic %d.%d", i, j)}
					}
					s.want = canon(s.n)
					b, _ := nmdc.Marshal(c.cs.encoder(), s.n)
					total += len(b)
					if t.Chance(500) {
						s.n = yieldMsg{s.n, w}
					}
				case 1:
					s.a = ag.apacket()
					if cmd := s.a.pkt.Message().Cmd(); cmd == (adc.MsgType{'Z', 'O', 'N'}) {
						s.a = ag.wrap(adc.ChatMessage{Text: fmt.Sprintf("chat %d.%d", i, j)}, aenc{}, "B")
					}
					s.want = canon(s.a.want)
					total += len(s.a.line())
					if m := s.a.pkt.Message(); t.Chance(500) {
						s.a.pkt.SetMessage(yieldADC{m, w})
					}
				default:
					s.line = append(lineData(t, '\n', drawLineLen(t)%4000), '\n')
					s.want = string(s.line)
					total += len(s.line)
				}
				c.want = append(c.want, s.want)
			}
			c.steps = append(c.steps, s)
			t.End()
		}
		if i > 0 {
			c.fault = t.Weighted(4, 1, 1, 1, 1, 1, 1)
		}
		prof := w.DrawNet()
		prof.CutAt = -1
		// the end of a compressed section may stay unread until the next read
		if prof.Window > 0 && prof.Window < 256 {
			prof.Window = 256
		}
		prof.Tame(total)
		switch c.fault {
		case 1:
			prof.CutAt, prof.CutErr = t.Intn(total+50), ErrReset
		case 2:
			for k := 0; k < 1+t.Intn(3); k++ {
				prof.Flip = append(prof.Flip, t.Intn(total+20))
			}
		case 3:
			prof.WFault = &WFault{At: t.Intn(total + 20), Err: ErrBroken}
		case 4, 5, 6:
			c.stop = t.Intn(len(c.steps) + 1)
		}
		c.p = w.NewPipe(i, prof)
		conns = append(conns, c)
		t.End()
	}
	for _, c := range conns {
		w.Sample += fmt.Sprintf("[%d proto %d %s %d steps fault %d] ", c.id, c.proto, c.cs.name, len(c.steps), c.fault)
	}
	for _, c := range conns {
		c := c
		delay := t.Chance(300)
		w.Go(fmt.Sprintf("send%d", c.id), func() { c.send(w, delay) })
		w.Go(fmt.Sprintf("recv%d", c.id), func() { c.recv(w) })
	}
	for k := t.Weighted(2, 2, 1, 1); k > 0; k-- {
		switch t.Weighted(2, 2, 2, 3) {
		case 3:
			calculations(w)
		case 0: // hashing beside
			data := t.Blob(t.Size(5000), "")
			prof := w.DrawNet()
			prof.CutAt = -1
			p := w.NewPipe(50+k, prof)
			feeder(w, p, data)
			want := refTreeHash(data)
			w.Go("hash", func() {
				defer p.CloseRead()
				h, err := tiger.TreeHash(p)
				if err != nil || [24]byte(h) != want {
					w.Fail("hash", "the tree hash of %d bytes computed beside connections is %x, %v, want %x", len(data), h, err, want)
				}
			})
		case 1:
			ng := &ngen{t: t, cs: charsets[t.Intn(len(charsets))]}
			m := ng.msg()
			w.Go("nmdc datagrams", func() {
				for i := 0; i < 3; i++ {
					b, err := nmdc.Marshal(ng.cs.yieldEncoder(w), yieldMsg{m, w})
					if err != nil {
						w.Fail("datagram", "encoding beside connections failed: %v", err)
					}
					w.Yield()
					m2, err := nmdc.Unmarshal(ng.cs.yieldDecoder(w), b)
					if err != nil {
						w.Fail("datagram", "decoding beside connections failed: %v for %s", err, q(b))
					}
					if d := diffMsg(m2, m); d != "" {
						w.Fail("datagram", "encoded and decoded beside connections: %s", d)
					}
				}
			})
		case 2:
			ag := &agen{t: t}
			a := ag.apacket()
			m := a.pkt.Message()
			a.pkt.SetMessage(yieldADC{m, w})
			w.Go("adc datagrams", func() {
				for i := 0; i < 3; i++ {
					var buf bytes.Buffer
					if err := a.pkt.MarshalPacketADC(&buf); err != nil {
						w.Fail("datagram", "encoding beside connections failed: %v", err)
					}
					w.Yield()
					b := buf.Bytes()
					if len(b) == 0 || b[len(b)-1] != '\n' {
						b = append(b, '\n')
					}
					p2, err := adc.DecodePacket(b)
					if err != nil {
						w.Fail("datagram", "decoding beside connections failed: %v for %s", err, q(b))
					}
					if canon(p2) != canon(a.want) {
						w.Fail("datagram", "encoded and decoded beside connections: %s, want %s", short(canon(p2)), short(canon(a.want)))
					}
				}
			})
		}
	}
	if !finish(w, "concurrent connections") {
		return
	}
	for _, c := range conns {
		if c.fault == 0 && c.got != len(c.want) {
			w.Fail("lost", "connection %d was not disturbed but delivered %d of %d messages", c.id, c.got, len(c.want))
		}
	}
}

// calculations starts a task of pure computations, each of which must give
// what it gave before any other task ran.
func calculations(w *World) {
	t := w.T
	var fs []func() string
	var want []string
	for i := 1 + t.Intn(6); i > 0; i-- {
		blob := t.Blob(t.Size(3000), "")
		text := string(t.Blob(t.Size(60), "ab c\n\\$|&;#0123456789"))
		lock := string(t.Blob(4+t.Intn(60), "EXTENDEDPROTOCOLabc0123456789_()[]"))
		num := uint32(t.Intn(1 << 20))
		var f func() string
		switch t.Intn(14) {
		case 0:
			f = func() string { h := tiger.HashBytes(blob); return h.Base32() + fmt.Sprint(h == refTiger(blob)) }
		case 1:
			f = func() string {
				l, err := tiger.TreeLeaves(bytes.NewReader(blob))
				h := l.TreeHash()
				return fmt.Sprint(h, err, [24]byte(h) == refTreeHash(blob))
			}
		case 2:
			f = func() string {
				l := &nmdc.Lock{Lock: lock, NoExt: true}
				return l.Key().Key + fmt.Sprint(l.Key().Key == refKey(lock, 5))
			}
		case 3:
			f = func() string {
				l := &nmdc.Lock{Lock: lock, PK: text, Ref: lock}
				return l.CustomKey(byte(num), true).Key + l.LockString(true) + fmt.Sprint(l.CustomKey(byte(num), true).Key == refKey(l.LockString(true), byte(num)))
			}
		case 4:
			f = func() string {
				return keyprint.FromBytes(blob) + fmt.Sprint(keyprint.FromBytes(blob) == refKeyPrint(blob))
			}
		case 5:
			f = func() string {
				b, err := nmdc.Marshal(nil, &nmdc.PrivateMessage{To: "to", From: "from", Name: "name", Text: text})
				m, err2 := nmdc.Unmarshal(nil, b)
				return fmt.Sprint(string(b), err, canon(m), err2)
			}
		case 6:
			f = func() string { return string(nmdc.UnescapeBytes([]byte("&#36;" + text + "&#124;"))) }
		case 7:
			f = func() string {
				b := string(adc.MustMarshal(adc.ChatMessage{Text: text}))
				var m adc.ChatMessage
				err := adc.Unmarshal([]byte(b), &m)
				return fmt.Sprint(b, m.Text, m.Text == text, err)
			}
		case 8:
			f = func() string {
				h := refTiger(blob)
				c := adc.CID(h)
				var buf bytes.Buffer
				err := c.MarshalADC(&buf)
				var c2 adc.CID
				err2 := c2.FromBase32(c.Base32())
				return fmt.Sprint(buf.String(), err, err2, c2 == c, c.Base32() == hb32(h), c.Hash())
			}
		case 9:
			f = func() string {
				a, err := adc.NormalizeAddr("adc://Host" + fmt.Sprint(num) + "/")
				b, err2 := nmdc.NormalizeAddr("Host" + fmt.Sprint(num))
				return fmt.Sprint(a, err, b, err2)
			}
		case 10:
			f = func() string {
				s := atypes.SIDFromInt(num)
				return s.String() + fmt.Sprint(s.String() == refSID(num), atypes.SIDFromString(s.String()) == s)
			}
		case 11:
			f = func() string {
				var s adc.SearchRequest
				err := adc.Unmarshal([]byte("AN"+aesc(text)+" TO"+aesc(lock)+" TR"+hb32(refTiger(blob))), &s)
				return canon(s) + fmt.Sprint(err)
			}
		case 12:
			th := refTiger(blob)
			f = func() string {
				m := &nmdc.Search{Address: "1.2.3.4:5", DataType: nmdc.DataTypeTTH, TTH: (*nmdc.TTH)(&th)}
				b, err := nmdc.Marshal(nil, m)
				return fmt.Sprint(string(b), err)
			}
		default:
			file := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: blob})
			f = func() string {
				fs, err := keyprint.FromFile(bytes.NewReader(file))
				return fmt.Sprint(fs, err)
			}
		}
		fs, want = append(fs, f), append(want, f())
	}
	w.Go("calculations", func() {
		for r := 0; r < 3; r++ {
			for i, f := range fs {
				if got := f(); got != want[i] {
					w.Fail("calculation", "a calculation gives %s beside connections and %s alone", short(got), short(want[i]))
				}
				w.Yield()
			}
		}
	})
}

func (c *yconn) send(w *World, delay bool) {
	t := w.T
	defer c.p.CloseWrite()
	if delay {
		w.Sleep(time.Duration(t.Intn(200)) * ms)
	}
	var lw *lineproto.Writer
	var nw *nmdc.Writer
	var aw *adc.Writer
	switch c.proto {
	case 0:
		nw = nmdc.NewWriterSize(c.p, 16+t.Intn(300))
		lw = nw.Writer
		nw.SetEncoder(c.cs.yieldEncoder(w))
		if t.Chance(200) {
			nw.OnMessage(func(m nmdc.Message) (bool, error) { w.Yield(); return true, nil })
		}
	case 1:
		aw = adc.NewWriterSize(c.p, 16+t.Intn(300))
		lw = aw.Writer
	default:
		lw = lineproto.NewWriterSize(c.p, 16+t.Intn(300))
	}
	if t.Chance(400) {
		lw.OnLine(func(line []byte) (bool, error) {
			was := string(line)
			w.Yield()
			if string(line) != was {
				w.Fail("leak", "connection %d: the line given to a writer hook changed while the hook ran: %s, was %s", c.id, q(line), q([]byte(was)))
			}
			return true, nil
		})
	}
	fail := func(err error, what string) bool {
		if err == nil {
			return false
		}
		if c.fault == 0 || c.fault == 5 || c.fault == 6 {
			w.Fail("foreign-error", "connection %d (fault %d): %s: %v although its transport is healthy", c.id, c.fault, what, err)
		}
		w.Inc("probe.failed_conn")
		return true
	}
	for i, s := range c.steps {
		w.Inc("op")
		if c.fault == 6 && i == c.stop {
			break
		}
		if c.fault == 5 && i == c.stop {
			w.Inc("fault.abandoned")
			return
		}
		var err error
		switch s.kind {
		case 'm':
			switch c.proto {
			case 0:
				err = nw.WriteMsg(s.n)
			case 1:
				err = aw.WritePacket(s.a.pkt)
			default:
				err = lw.WriteLine(s.line)
			}
		case 'k':
			if c.proto == 0 {
				err = nw.WriteKeepAlive()
			} else {
				err = aw.WriteKeepAlive()
			}
		case 'z':
			if c.proto == 0 {
				err = nw.ZOnLevel(s.lvl)
			} else {
				if c.proto == 1 {
					err = aw.WriteInfo(adc.ZOn{})
				} else {
					err = lw.WriteLine([]byte("!ZON\n"))
				}
				if err == nil {
					err = lw.EnableZlibLevel(s.lvl)
				}
			}
		case 'd':
			err = lw.DisableZlib()
		case 'f':
			err = lw.Flush()
		}
		if fail(err, string(s.kind)) {
			if t.Bool() {
				_ = lw.Close()
			}
			return
		}
		if t.Chance(300) {
			w.Yield()
		}
	}
	fail(lw.Close(), "Close")
}

func (c *yconn) recv(w *World) {
	t := w.T
	defer c.p.CloseRead()
	var lr *lineproto.Reader
	var nr *nmdc.Reader
	var ar *adc.Reader
	switch c.proto {
	case 0:
		nr = nmdc.NewReader(c.p)
		lr = nr.Reader
		nr.SetDecoder(c.cs.yieldDecoder(w))
		if t.Chance(300) {
			nr.OnRawMessage(func(cmd, args []byte) (bool, error) {
				a, b := string(cmd), string(args)
				w.Yield()
				if string(cmd) != a || string(args) != b {
					w.Fail("leak", "connection %d: the arguments of a hook changed while it ran", c.id)
				}
				return true, nil
			})
		}
		if t.Chance(300) {
			nr.OnMessage(func(m nmdc.Message) (bool, error) { w.Yield(); return true, nil })
		}
	case 1:
		ar = adc.NewReader(c.p)
		lr = ar.Reader
	default:
		lr = lineproto.NewReader(c.p, '\n')
	}
	lr.SetMaxLine(0)
	if t.Chance(400) {
		lr.OnLine(func(line []byte) (bool, error) {
			was := string(line)
			w.Yield()
			if string(line) != was {
				w.Fail("leak", "connection %d: the line given to a reader hook changed while the hook ran", c.id)
			}
			return true, nil
		})
	}
	var held []any
	var heldWant []string
	for {
		if c.fault == 4 && c.got >= c.stop {
			w.Inc("fault.receiver_closed")
			_ = lr.Close()
			return
		}
		w.Inc("op")
		var err error
		var v any
		zon := false
		switch c.proto {
		case 0:
			v, err = nr.ReadMsg()
			_, zon = v.(*nmdc.ZOn)
		case 1:
			var pk adc.Packet
			if pk, err = ar.ReadPacket(); err == nil {
				v = pk
				_, zon = pk.Message().(adc.ZOn)
			}
		default:
			var b []byte
			if b, err = lr.ReadLine(); err == nil {
				zon = string(b) == "!ZON\n"
				v = string(b)
			}
		}
		if err != nil {
			if c.fault == 0 && err != io.EOF {
				w.Fail("foreign-error", "connection %d: reading message %d: %v although its transport is healthy", c.id, c.got, err)
			}
			if c.fault == 2 && err != io.EOF && c.got < 50 { // corrupted: keep going while messages remain
				c.got++
				continue
			}
			break
		}
		if zon {
			if err := lr.EnableZlib(); err != nil {
				if c.fault == 0 {
					w.Fail("foreign-error", "connection %d: EnableZlib: %v although its transport is healthy", c.id, err)
				}
				break
			}
			continue
		}
		if c.fault == 2 {
			c.got++
			continue
		}
		got := canon(v)
		if c.proto == 2 {
			got = v.(string)
		}
		if c.got >= len(c.want) {
			w.Fail("leak", "connection %d delivered %s after its %d messages", c.id, short(got), len(c.want))
		}
		if got != c.want[c.got] {
			w.Fail("leak", "connection %d (fault %d): message %d is %s, sent was %s", c.id, c.fault, c.got, short(got), short(c.want[c.got]))
		}
		if c.proto < 2 {
			held, heldWant = append(held, v), append(heldWant, got)
		}
		c.got++
	}
	for i, v := range held {
		if canon(v) != heldWant[i] {
			w.Fail("leak", "connection %d: message %d changed after delivery: %s, was %s", c.id, i, short(canon(v)), short(heldWant[i]))
		}
	}
	_ = lr.Close()
}
