package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 120000, Thorough: 3000000,
		Rule: "Three families of runs. A peer sends text in a drawn encoding to a reader whose encoding hook supplies the right decoder, another one, none or an error. A reader gets messages in several encodings while other tasks and its own hooks switch the decoder, at any point of a message (decoders yield to the scheduler). A writer encodes batches while other tasks and its own hooks switch the encoder (encoders yield).",
		Real: []string{"nmdc.Reader", "nmdc.Writer", "nmdc messages", "lineproto", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipe)", "clock", "peer (recorded wire bytes)"},
		Run: func(w *World) {
			switch w.T.Weighted(3, 3, 2) {
			case 0:
				runEncHook(w)
			case 1:
				runEncReader(w)
			case 2:
				runEncWriter(w)
			}
		},
	})
}

// yieldT gives other tasks a turn inside a conversion.
type yieldT struct {
	transform.Transformer
	w *World
}

func (y yieldT) Transform(dst, src []byte, eof bool) (int, int, error) {
	y.w.Yield()
	n, m, err := y.Transformer.Transform(dst, src, eof)
	y.w.Yield()
	return n, m, err
}

func (c *charset) yieldDecoder(w *World) *nmdc.TextDecoder {
	if c.enc == nil {
		return nil
	}
	return &encoding.Decoder{Transformer: yieldT{c.enc.NewDecoder().Transformer, w}}
}

func (c *charset) yieldEncoder(w *World) *nmdc.TextEncoder {
	if c.enc == nil {
		return nil
	}
	return &encoding.Encoder{Transformer: yieldT{c.enc.NewEncoder().Transformer, w}}
}

// textOnly draws a message all bytes of which are text or ASCII.
func (g *ngen) textOnly() nmdc.Message {
	for {
		m := g.msg()
		switch m := m.(type) {
		case *nmdc.RawMessage, *nmdc.Key:
			continue
		case *nmdc.MyINFO:
			m.Flag &= 0x7f
			if m.Flag == 0 || m.Flag == '$' || m.Flag == '|' {
				m.Flag = 1
			}
		}
		return m
	}
}

// encPipe sends a wire, compressed or not, to a reader task.
func encPipe(w *World, wire []byte, f func(p *Pipe, r *nmdc.Reader)) {
	t := w.T
	z := t.Chance(250)
	if z {
		wire = compressSection(t, wire, drawLevel(t))
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	feeder(w, p, wire)
	w.Go("receiver", func() {
		defer p.CloseRead()
		r := nmdc.NewReader(p)
		r.SetMaxLine(0)
		if z {
			if err := r.EnableZlib(); err != nil {
				w.Fail("zlib", "EnableZlib: %v", err)
			}
		}
		f(p, r)
		if m, err := r.ReadMsg(); err == nil {
			w.Fail("invented-message", "after everything sent: %s", short(canon(m)))
		} else if err != io.EOF && err != io.ErrUnexpectedEOF {
			w.Fail("end", "the stream ended, but the error is %v", err)
		}
	})
}

func runEncHook(w *World) {
	t := w.T
	cs := charsets[1+t.Intn(len(charsets)-1)]
	g := &ngen{t: t, cs: cs, big: t.Chance(50)}
	var msgs []nmdc.Message
	var lines [][]byte
	var wire []byte
	for i, n := 0, 1+t.Intn(8); i < n; i++ {
		m := g.textOnly()
		b := g.encode(m)
		if t.Chance(150) { // malformed, in whatever encoding
			k := t.Intn(len(b))
			bad := append([]byte(nil), b[:k]...)
			if n := t.Intn(4); n > 0 {
				bad = append(bad, b[min(k+n, len(b)-1):]...)
			} else {
				bad = append(bad, '|')
			}
			if len(bad) > 1 {
				if _, err := alone(cs, 32, bad); err != nil {
					m, b = nil, bad
				}
			}
		}
		msgs = append(msgs, m)
		lines = append(lines, b)
		wire = append(wire, b...)
		if t.Chance(100) {
			wire = append(wire, '|')
		}
	}
	w.Sample = fmt.Sprintf("hook: charset %s, %d messages", cs.name, len(lines))
	herr := errors.New("error of the encoding hook")
	encPipe(w, wire, func(p *Pipe, r *nmdc.Reader) {
		var cur *charset // nil: UTF-8
		at, calls, act := 0, 0, 0
		var gave *nmdc.TextDecoder
		r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			calls++
			w.Inc("op")
			if cur != nil {
				w.Fail("hook-called", "the encoding hook is called although it supplied a decoder (message %d)", at)
				return nil, herr
			}
			if utf8.Valid(text) {
				w.Fail("hook-text", "the encoding hook is called with %s, which is valid text (message %d)", q(text), at)
			}
			u := nmdc.UnescapeBytes(append([]byte(nil), lines[at]...))
			if _, se := msgs[at].(*nmdc.Search); !se && msgs[at] != nil && !bytes.Contains(u, text) && !bytes.Contains(lines[at], text) {
				w.Fail("hook-text", "the encoding hook is called with %s, which is not in message %d: %s", q(text), at, q(lines[at]))
			}
			act = t.Weighted(4, 3, 2, 1)
			switch act {
			case 0:
				cur = cs
			case 1:
				return nil, nil
			case 2:
				return nil, herr
			case 3:
				cur = charsets[1+t.Intn(len(charsets)-1)]
			}
			gave = cur.decoder()
			return gave, nil
		}
		for at = range lines {
			l := lines[at]
			calls, act = 0, -1
			before := cur
			m, err := r.ReadMsg()
			w.Inc("op")
			if before == nil && !utf8.Valid(l) {
				if calls == 0 && msgs[at] != nil {
					w.Fail("hook-not-called", "message %d: the encoding hook was not called for %s", at, q(l))
				}
			} else if calls != 0 {
				w.Fail("hook-called", "message %d: the encoding hook was called for %s", at, q(l))
			}
			if act >= 0 {
				w.Inc(fmt.Sprintf("probe.hook_act%d", act))
			}
			switch act {
			case 1:
				if err == io.EOF || err == io.ErrUnexpectedEOF {
					w.Fail("lost-message", "message %d was not read", at)
				}
				// delivered with the unreadable characters replaced
				want, werr := alone(charsets[0], 32, []byte(string([]rune(string(l)))))
				encCompare(w, at, l, "no encoding", m, err, want, werr)
				continue
			case 2:
				if err != herr {
					w.Fail("hook-error", "message %d: the hook returned an error, the read %v", at, err)
				}
				continue
			}
			dec := charsets[0]
			if cur != nil {
				dec = cur
				if r.Decoder() != gave {
					w.Fail("decoder", "the decoder the hook supplied is not in use after message %d", at)
				}
			}
			want, werr := alone(dec, 32, l)
			if cur == cs && msgs[at] != nil {
				want, werr = msgs[at], nil
			}
			encCompare(w, at, l, dec.name, m, err, want, werr)
		}
	})
	finish(w, "reading text in another encoding")
}

func encCompare(w *World, i int, l []byte, dec string, m nmdc.Message, err error, want nmdc.Message, werr error) {
	if (err == nil) != (werr == nil) {
		w.Fail("altered-message", "message %d %s in %s: result %v instead of %v", i, q(l), dec, err, werr)
		return
	}
	if err == nil {
		if d := diffMsg(m, want); d != "" {
			w.Fail("altered-message", "message %d in %s: %s", i, dec, d)
		}
	}
}

func runEncReader(w *World) {
	t := w.T
	var list []*charset
	for i, n := 0, 2+t.Intn(2); i < n; i++ {
		list = append(list, charsets[t.Intn(len(charsets))])
	}
	type rline struct {
		b    []byte
		kind byte // m message, k keep-alive that switches, d dropped message that switches
		to   int
		want []string // canonical message or "error" per encoding
	}
	var lines []rline
	var wire []byte
	for i, n := 0, 1+t.Intn(8); i < n; i++ {
		l := rline{kind: "mkd"[t.Weighted(6, 1, 1)], to: t.Intn(len(list))}
		switch l.kind {
		case 'k':
			l.b = []byte("|")
		case 'd':
			l.b = []byte("$DropThis \xc6 now|")
		default:
			g := &ngen{t: t, cs: list[t.Intn(len(list))]}
			l.b = g.encode(g.textOnly())
			for _, c := range list {
				m, err := alone(c, 32, l.b)
				if err != nil {
					l.want = append(l.want, "error")
				} else {
					l.want = append(l.want, canon(m))
				}
			}
		}
		lines = append(lines, l)
		wire = append(wire, l.b...)
	}
	names := ""
	for _, c := range list {
		names += c.name + " "
	}
	w.Sample = fmt.Sprintf("reader: %s, %d lines", names, len(lines))
	decs := make([]*nmdc.TextDecoder, len(list))
	for i, c := range list {
		decs[i] = c.yieldDecoder(w)
	}
	log := []int{t.Intn(len(list))}
	var rd *nmdc.Reader
	set := func(k int) {
		rd.SetDecoder(decs[k])
		log = append(log, k)
		w.Ev("switch", k)
		w.Inc("probe.switch")
	}
	done := false
	var swTask *Task
	encPipe(w, wire, func(p *Pipe, r *nmdc.Reader) {
		rd = r
		r.SetDecoder(decs[log[0]])
		if swTask != nil {
			w.Wake(swTask)
		}
		at, lineVer := 0, 0
		r.OnLine(func(line []byte) (bool, error) {
			lineVer = len(log) - 1
			return true, nil
		})
		r.OnKeepAlive = func() error {
			for at < len(lines) && lines[at].kind == 'm' {
				w.Fail("order", "a keep-alive is seen before message %d", at)
				at++
			}
			if at < len(lines) {
				set(lines[at].to)
				at++
			}
			return nil
		}
		r.OnRawMessage(func(cmd, args []byte) (bool, error) {
			if string(cmd) != "DropThis" {
				return true, nil
			}
			if at >= len(lines) || lines[at].kind != 'd' {
				w.Fail("order", "a dropped message is seen at %d", at)
				return false, nil
			}
			set(lines[at].to)
			at++
			return false, nil
		})
		n := 0
		for _, l := range lines {
			if l.kind == 'm' {
				n++
			}
		}
		for i := 0; i < n; i++ {
			m, err := r.ReadMsg()
			w.Inc("op")
			end := len(log) - 1
			if err == io.EOF || err == io.ErrUnexpectedEOF || at >= len(lines) || lines[at].kind != 'm' {
				w.Fail("lost-message", "read %d of %d (line %d): %v", i, n, at, err)
				break
			}
			l := lines[at]
			at++
			got := "error"
			if err == nil {
				got = canon(m)
			}
			ok := false
			in := ""
			for v := lineVer; v <= end; v++ {
				ok = ok || l.want[log[v]] == got
				in += list[log[v]].name + " "
			}
			if end > lineVer {
				w.Inc("probe.switch_inside")
			}
			if !ok {
				w.Fail("mixed-encoding", "message %d: %s with decoder %swas read as %s (%v), in one encoding it is %s", at-1, q(l.b), in, short(got), err, short(l.want[log[lineVer]]))
			}
		}
		done = true
	})
	w.Go("switcher", func() {
		if rd == nil {
			swTask = w.Cur()
			w.Park("the reader")
		}
		for k := 0; k < 1+t.Intn(10) && !done; k++ {
			if t.Bool() {
				w.Sleep(time.Duration(t.Intn(200)) * ms)
			} else {
				w.Yield()
			}
			set(t.Intn(len(list)))
		}
	})
	finish(w, "switching decoders while reading")
}

// cyr is text several legacy encodings can represent.
var cyr = &charset{name: "cyrillic", extra: []string{"Ж", "ёж", "привет", "лл", "ЯШ"}}

func runEncWriter(w *World) {
	t := w.T
	pool := []*charset{charsets[0], charsets[1], charsets[3], charsets[4]}
	list := []*charset{pool[t.Intn(4)], pool[t.Intn(4)], pool[t.Intn(4)]}
	g := &ngen{t: t, cs: cyr, big: t.Chance(50)}
	type call struct {
		msgs []nmdc.Message
		lo   int
		hi   int
		uni  bool // the last message can be written in UTF-8 only
		err  error
	}
	var calls []*call
	total := 0
	for i, n := 0, 1+t.Intn(6); i < n; i++ {
		c := &call{}
		for j, k := 0, 1+t.Intn(3); j < k; j++ {
			m := g.msg()
			c.msgs = append(c.msgs, m)
			total += 2 * len(g.encode(m))
		}
		if t.Chance(150) {
			s := strings.Repeat("x", t.Intn(30)) + "\U0001f600"
			n := nmdc.Names{"a", s, "Ж"}
			c.msgs = append(c.msgs, []nmdc.Message{
				&nmdc.ChatMessage{Name: "a", Text: s}, &nmdc.ChatMessage{Name: s, Text: "a"}, &nmdc.HubName{String: nmdc.String(s)}, &nmdc.MyNick{Name: nmdc.Name(s)},
				&nmdc.OpList{Names: n}, &nmdc.MCTo{To: "a", From: "b", Text: s}, &nmdc.UserIP{List: []nmdc.UserAddress{{Name: s, IP: "1.2.3.4"}}},
			}[t.Intn(7)])
			c.uni = true
			total += 200
		}
		calls = append(calls, c)
	}
	w.Sample = fmt.Sprintf("writer: %s %s %s, %d calls", list[0].name, list[1].name, list[2].name, len(calls))
	encs := make([]*nmdc.TextEncoder, 3)
	for i, c := range list {
		encs[i] = c.yieldEncoder(w)
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	prof.Tame(total)
	p := w.NewPipe(0, prof)
	log := []int{t.Intn(3)}
	wr := nmdc.NewWriterSize(p, []int{0, 1, 30, 4096}[t.Intn(4)])
	wr.SetEncoder(encs[log[0]])
	set := func(k int) {
		wr.SetEncoder(encs[k])
		log = append(log, k)
		w.Ev("switch", k)
		w.Inc("probe.switch")
	}
	done := false
	inHook := t.Chance(300)
	w.Go("writer", func() {
		defer p.CloseWrite()
		if inHook {
			wr.OnMessage(func(m nmdc.Message) (bool, error) {
				if t.Chance(300) {
					set(t.Intn(3))
				}
				return true, nil
			})
		}
		for i, c := range calls {
			if t.Chance(300) {
				set(t.Intn(3))
			}
			c.lo = len(log) - 1
			err := wr.WriteMsg(c.msgs...)
			c.hi = len(log) - 1
			w.Inc("op")
			if c.hi > c.lo {
				w.Inc("probe.switch_inside")
			}
			if c.err = err; err != nil && !c.uni {
				w.Fail("write-error", "call %d: %v", i, err)
			}
			if err != nil {
				w.Inc("probe.unencodable")
			}
			if t.Chance(400) {
				if err := wr.Flush(); err != nil {
					w.Fail("write-error", "flush: %v", err)
				}
			}
		}
		done = true
		if err := wr.Close(); err != nil {
			w.Fail("write-error", "close: %v", err)
		}
	})
	w.Go("switcher", func() {
		for k := 0; k < 1+t.Intn(10) && !done; k++ {
			if t.Bool() {
				w.Sleep(time.Duration(t.Intn(100)) * ms)
			} else {
				w.Yield()
			}
			set(t.Intn(3))
		}
	})
	drain(w, p, false)
	if !finish(w, "switching encoders while writing") {
		return
	}
	rest := p.Wire
	for i, c := range calls {
		for j, m := range c.msgs {
			if c.uni && c.err != nil && j == len(c.msgs)-1 {
				ok := false
				for v := c.lo; v <= c.hi; v++ {
					ok = ok || list[log[v]].enc != nil
				}
				if !ok {
					w.Fail("write-error", "message %d of call %d: %v", j, i, c.err)
				}
				continue
			}
			e := bytes.IndexByte(rest, '|')
			if e < 0 {
				w.Fail("lost-message", "message %d of call %d is not on the wire", j, i)
				return
			}
			l := rest[:e+1]
			rest = rest[e+1:]
			ok := false
			in := ""
			for v := c.lo; v <= c.hi; v++ {
				cs := list[log[v]]
				if c.uni && j == len(c.msgs)-1 && cs.enc != nil {
					continue // cannot be written in it
				}
				b, err := nmdc.Marshal(cs.encoder(), m)
				ok = ok || err == nil && bytes.Equal(b, l) && matchWire(l, [][][]byte{nref(cs, m)}, false) == ""
				in += list[log[v]].name + " "
			}
			if !ok {
				w.Fail("mixed-encoding", "message %d of call %d, %s, is on the wire as %s, which is not its form in one of the encodings %s", j, i, short(canon(m)), q(l), in)
			}
		}
	}
	if len(rest) > 0 {
		w.Fail("invented-message", "additional bytes are on the wire: %s", q(rest))
	}
}
