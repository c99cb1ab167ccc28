package props

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 250000, Thorough: 4000000,
		Rule: "A sender writes a drawn history of NMDC messages (every registered type, chat, unknown commands, batches, keep-alives, messages the writer must reject, compression on and off by the in-band signal) through 0 to 2 relays (raw, or decoding and re-encoding, transcoding the text, with their own compression) to a receiver over simulated pipes with drawn delays, windows and fragmentation; a link may be cut at any byte.",
		Real: []string{"nmdc.Writer", "nmdc.Reader", "nmdc messages", "lineproto", "compress/zlib", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipes)", "clock"},
		Run:  runC10,
	})
}

// nstep is one action of an NMDC sender.
type nstep struct {
	kind  byte // m messages, x rejected message, k keep-alive, z compression on, d off, f flush
	msgs  []nmdc.Message
	level int
}

func descN(steps []nstep) string {
	var b bytes.Buffer
	for i, s := range steps {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 30 {
			b.WriteString("...")
			break
		}
		b.WriteByte(s.kind)
		for _, m := range s.msgs {
			fmt.Fprintf(&b, "(%s)", m.Type())
		}
	}
	return b.String()
}

// badMsg draws a message the writer cannot encode.
func (g *ngen) badMsg() nmdc.Message {
	t := g.t
	if t.Chance(700) {
		if m := g.badText(); m != nil {
			return m
		}
	}
	switch t.Intn(10) {
	case 6:
		return &nmdc.ConnectToMe{Targ: g.name(), Kind: nmdc.CTMPassiveReq, Address: "1.2.3.4:5", Secure: t.Bool()}
	case 7:
		return &nmdc.ConnectToMe{Targ: g.name(), Src: g.name(), Kind: []nmdc.CTMKind{nmdc.CTMActive, nmdc.CTMPassiveResp}[t.Intn(2)], Address: "1.2.3.4:5", Secure: t.Bool()}
	case 8:
		return &nmdc.ConnectToMe{Targ: g.name(), Kind: nmdc.CTMPassiveResp + nmdc.CTMKind(1+t.Intn(3)), Address: "1.2.3.4:5"}
	case 0:
		return &nmdc.ChatMessage{Name: "a$b", Text: "x"}
	case 1:
		return &nmdc.PrivateMessage{To: g.name(), From: g.name(), Name: "n", Text: "nul\x00nul"}
	case 2:
		return &nmdc.Search{User: g.name(), DataType: nmdc.DataTypeTTH, IsMaxSize: true}
	case 3:
		return &nmdc.SR{From: g.name()}
	case 4:
		return &nmdc.ConnectToMe{Address: "1.2.3.4:5"}
	case 5:
		return &nmdc.OpList{Names: nmdc.Names{g.name(), "bad\nname", g.name()}}
	}
	return &nmdc.MyINFO{Name: g.name(), Desc: "d", Email: "nul\x00"}
}

func (g *ngen) steps(n int) []nstep {
	t := g.t
	var out []nstep
	var said nmdc.Message
	z := false
	for i := 0; i < n; i++ {
		t.Begin()
		s := nstep{}
		switch t.Weighted(14, 2, 2, 2, 3, 1) {
		case 0:
			s.kind = 'm'
			for j, c := 0, []int{1, 1, 1, 2, 3, 0}[t.Intn(6)]; j < c; j++ {
				m := g.msg()
				if said != nil && t.Chance(100) { // the same again
					m = said
				}
				s.msgs = append(s.msgs, m)
				if said == nil || t.Chance(700) {
					said = m
				}
			}
		case 1:
			s.kind = 'k'
		case 2:
			s.kind = 'z'
			if z {
				s.kind = 'f'
			}
			z = true
			s.level = drawLevel(t)
		case 3:
			s.kind = 'd'
			if !z {
				s.kind = 'f'
			}
			z = false
		case 4:
			s.kind = 'f'
		case 5:
			s.kind = 'x'
			s.msgs = []nmdc.Message{g.badMsg()}
		}
		out = append(out, s)
		t.End()
	}
	return out
}

// hop is one link of a chain, with what crossed it.
type hop struct {
	p      *Pipe
	sent   []string // canonical accepted messages
	marks  [][2]int // wire length and messages accepted at each completed flush
	plain  bool     // never compressed
	delim  byte     // '|' when 0
	kas    int
	read   int // messages the reading side got
	readKA int
	ref    [][][]byte // forms each written line may have on the wire, when plain
}

func (h *hop) mark() { h.marks = append(h.marks, [2]int{len(h.p.Wire), len(h.sent)}) }

// owed is the number of messages the reader of the hop must get when the
// stream ends after n delivered bytes.
func (h *hop) owed(n int) int {
	k := 0
	if h.plain {
		d := h.delim
		if d == 0 {
			d = '|'
		}
		for _, l := range bytes.SplitAfter(h.p.Wire[:min(n, len(h.p.Wire))], []byte{d}) {
			if len(l) > 1 && l[len(l)-1] == d {
				k++
			}
		}
		return k
	}
	for _, m := range h.marks {
		if m[0] <= n && m[1] > k {
			k = m[1]
		}
	}
	return k
}

func nmsgLess(m nmdc.Message) bool { _, ok := m.(*nmdc.ZOn); return ok }

// nread reads one message the way the mode says.
func nread(w *World, r *nmdc.Reader, mode int, next nmdc.Message) (nmdc.Message, error) {
	switch {
	case mode == 1 && next != nil:
		if _, raw := next.(*nmdc.RawMessage); !raw {
			m := nmdc.NewMessage(next.Type())
			if next.Type() == "" {
				m = &nmdc.ChatMessage{}
			}
			err := r.ReadMsgTo(m)
			if err != nil {
				return nil, err
			}
			return m, nil
		}
	case mode == 2 && next != nil:
		if _, raw := next.(*nmdc.RawMessage); !raw {
			l := []nmdc.Message{&nmdc.Hello{}, &nmdc.MyINFO{}, &nmdc.ChatMessage{}, &nmdc.ZOn{}}
			l = append(l, nmdc.NewMessage(next.Type()))
			return r.ReadMsgToAny(l...)
		}
	}
	return r.ReadMsg()
}

var refKeepAlive = [][]byte{{'|'}}

// sendRef sends the history the way another implementation does.
func sendRef(w *World, h *hop, cs *charset, steps []nstep, cut bool) {
	t := w.T
	var buf bytes.Buffer
	var zw *zlib.Writer
	flush := func() bool {
		if zw != nil {
			zw.Flush()
		}
		b := buf.Bytes()
		buf = bytes.Buffer{}
		if len(b) > 0 {
			if _, err := h.p.Write(b); err != nil {
				if !cut {
					w.Fail("write-error", "the simulated pipe failed: %v", err)
				}
				return false
			}
		}
		h.mark()
		return true
	}
	put := func(b []byte) {
		if zw != nil {
			zw.Write(b)
		} else {
			buf.Write(b)
		}
	}
	for _, s := range steps {
		w.Inc("op")
		switch s.kind {
		case 'm':
			for _, m := range s.msgs {
				h.sent = append(h.sent, canon(m))
				f := nref(cs, m)
				put(f[t.Intn(len(f))])
			}
		case 'k':
			h.kas++
			put(refKeepAlive[0])
		case 'z':
			h.plain = false
			put([]byte("$ZOn|"))
			zw, _ = zlib.NewWriterLevel(&buf, s.level)
			if !flush() {
				return
			}
		case 'd':
			zw.Close()
			zw = nil
			if !flush() {
				return
			}
		case 'f':
			if !flush() {
				return
			}
		}
	}
	if zw != nil && t.Bool() {
		zw.Close()
		zw = nil
	}
	flush()
}

func runC10(w *World) {
	t := w.T
	if t.Chance(2) {
		registry(w)
	}
	cs := charsets[t.Weighted(4, 2, 1, 1, 1)]
	g := &ngen{t: t, cs: cs, big: t.Chance(100)}
	if t.Chance(200) { // few kinds of messages in a row
		for i, n := 0, 1+t.Intn(2); i < n; i++ {
			g.few = append(g.few, ntypes[t.Intn(len(ntypes))])
		}
	}
	steps := g.steps(1 + t.Intn(12))
	var all []nmdc.Message
	total := 0
	noz := true
	for _, s := range steps {
		noz = noz && s.kind != 'z'
		if s.kind == 'm' {
			all = append(all, s.msgs...)
		}
		for _, m := range s.msgs {
			b, _ := nmdc.Marshal(nil, m)
			total += len(b)
		}
	}
	nhop := 1 + t.Weighted(5, 3, 1)
	hops := make([]*hop, nhop)
	hcs := make([]*charset, nhop)
	cutHop := -1
	if t.Chance(350) {
		cutHop = t.Intn(nhop)
	}
	for i := range hops {
		prof := w.DrawNet()
		prof.CutAt = -1
		prof.Tame(total)
		if i == cutHop {
			prof.CutAt = t.Intn(total + 30)
			prof.CutErr = []error{nil, ErrReset}[t.Intn(2)]
			if prof.CutErr == nil {
				prof.CutErr = io.EOF
			}
		}
		if t.Chance(150) {
			prof.RFaults = append(prof.RFaults, &RFault{At: t.Intn(total + 1), Pause: time.Duration(1+t.Intn(20000)) * ms})
		}
		hops[i] = &hop{p: w.NewPipe(i, prof), plain: true}
		hcs[i] = cs
		if i > 0 && t.Chance(300) {
			hcs[i] = charsets[0]
		}
	}
	rawRelay := make([]bool, nhop)
	for i := 1; i < nhop; i++ {
		rawRelay[i] = t.Bool()
		if rawRelay[i] {
			hcs[i] = hcs[i-1]
		}
	}
	bsz := []int{0, 0, 1, 16, 200, 4096}
	refSender := t.Chance(250)
	w.Sample = fmt.Sprintf("charset %s hops %d raw %v cut %d ref %v [%s]", cs.name, nhop, rawRelay, cutHop, refSender, descN(steps))

	// the sender
	w.Go("sender", func() {
		h := hops[0]
		defer h.p.CloseWrite()
		if refSender {
			sendRef(w, h, cs, steps, cutHop >= 0)
			return
		}
		wr := nmdc.NewWriterSize(h.p, bsz[t.Intn(6)])
		wr.SetEncoder(cs.encoder())
		kept := map[reflect.Type]nmdc.Message{} // messages the application fills again for each call
		fail := func(what string, err error) bool {
			if err == nil {
				return false
			}
			if cutHop < 0 {
				w.Fail("write-error", "%s failed although the transport works: %v", what, err)
			}
			w.Ev("sender-stops")
			return true
		}
		for _, s := range steps {
			w.Inc("op")
			switch s.kind {
			case 'm':
				// messages may reach the wire even when the call fails later
				for _, m := range s.msgs {
					h.sent = append(h.sent, canon(m))
					h.ref = append(h.ref, nref(cs, m))
				}
				out := append([]nmdc.Message(nil), s.msgs...)
				for i, m := range out {
					rv := reflect.ValueOf(m)
					if rv.Kind() != reflect.Ptr || !t.Chance(200) {
						continue
					}
					old := kept[rv.Type()]
					if old == nil {
						old = reflect.New(rv.Type().Elem()).Interface().(nmdc.Message)
					}
					delete(kept, rv.Type()) // once in a call
					reflect.ValueOf(old).Elem().Set(rv.Elem())
					out[i] = old
				}
				err := wr.WriteMsg(out...)
				for i, m := range out {
					if m != s.msgs[i] {
						kept[reflect.TypeOf(m)] = m
					}
				}
				if fail("WriteMsg", err) {
					return
				}
			case 'x':
				err := wr.WriteMsg(s.msgs[0])
				if err == nil {
					w.Fail("bad-message-accepted", "the writer accepted %s", short(canon(s.msgs[0])))
				}
				w.Inc("probe.rejected")
				if wr.Err() != nil && fail("the transport", wr.Err()) {
					return
				}
			case 'k':
				h.kas++
				h.ref = append(h.ref, refKeepAlive)
				if fail("WriteKeepAlive", wr.WriteKeepAlive()) {
					return
				}
			case 'z':
				h.plain = false
				if fail("ZOn", wr.ZOnLevel(s.level)) {
					return
				}
				h.mark()
			case 'd':
				if fail("DisableZlib", wr.DisableZlib()) {
					return
				}
				h.mark()
			case 'f':
				if fail("Flush", wr.Flush()) {
					return
				}
				h.mark()
			}
		}
		var err error
		if t.Bool() {
			err = wr.Close()
		} else {
			err = wr.Flush()
		}
		if !fail("the final flush", err) {
			h.mark()
		}
	})
	// relays
	for i := 1; i < nhop; i++ {
		in, out := hops[i-1], hops[i]
		i := i
		w.Go(fmt.Sprintf("relay%d", i), func() {
			defer out.p.CloseWrite()
			defer in.p.CloseRead()
			r := nmdc.NewReader(in.p)
			r.SetMaxLine(0)
			r.SetDecoder(hcs[i-1].decoder())
			wr := nmdc.NewWriterSize(out.p, bsz[t.Intn(6)])
			wr.SetEncoder(hcs[i].encoder())
			wfail := func(err error) bool {
				if err != nil && cutHop < 0 {
					w.Fail("write-error", "a relay failed to write although the transport works: %v", err)
				}
				return err != nil
			}
			if t.Chance(300) {
				out.plain = false
				if wfail(wr.ZOnLevel(drawLevel(t))) {
					return
				}
			}
			r.OnKeepAlive = func() error { in.readKA++; return nil }
			for {
				var err error
				if rawRelay[i] {
					line, e := r.ReadLine()
					switch {
					case e != nil:
						err = e
					case string(line) == "$ZOn|":
						err = r.EnableZlib()
					default:
						if len(line) > 1 {
							in.read++
							out.sent = append(out.sent, in.sent[min(in.read, len(in.sent))-1])
						} else {
							in.readKA++
							out.kas++
						}
						if wfail(wr.WriteLine(line)) {
							return
						}
					}
				} else {
					m, e := r.ReadMsg()
					switch {
					case e != nil:
						err = e
					case nmsgLess(m):
						err = r.EnableZlib()
					default:
						in.read++
						if in.read > len(in.sent) {
							w.Fail("invented-message", "a relay read %s after everything sent", short(canon(m)))
							return
						}
						if c := canon(m); c != in.sent[in.read-1] {
							w.Fail("altered-message", "a relay read message %d as %s, sent %s", in.read-1, short(c), short(in.sent[in.read-1]))
						}
						out.sent = append(out.sent, canon(m))
						out.ref = append(out.ref, nref(hcs[i], m))
						if wfail(wr.WriteMsg(m)) {
							return
						}
						spoil(w, m)
					}
				}
				if err != nil {
					w.EvStr("relay-end", err.Error())
					if cutHop < 0 && err != io.EOF && err != io.ErrUnexpectedEOF {
						w.Fail("read-error", "a relay failed to read although the transport works: %v", err)
					}
					if wfail(wr.Close()) {
						return
					}
					out.mark()
					return
				}
				if t.Chance(500) {
					if wfail(wr.Flush()) {
						return
					}
					out.mark()
				}
			}
		})
	}
	// the receiver
	last := hops[nhop-1]
	var end error
	w.Go("receiver", func() {
		defer last.p.CloseRead()
		r := nmdc.NewReader(last.p)
		r.SetMaxLine(0)
		r.SetDecoder(hcs[nhop-1].decoder())
		r.OnKeepAlive = func() error { last.readKA++; return nil }
		mode := t.Weighted(3, 1, 1)
		limit := len(all) + len(steps) + 20
		olds, reuse := map[string]nmdc.Message{}, t.Chance(700) // messages that are read into again
		hooked := t.Chance(250)
		if hooked { // a hook enables inflating and drops the signal
			w.Inc("probe.enabled_in_hook")
			if t.Bool() {
				mode = 0
				r.OnMessage(func(m nmdc.Message) (bool, error) {
					if !nmsgLess(m) {
						return true, nil
					}
					return false, r.EnableZlib()
				})
			} else {
				r.OnRawMessage(func(cmd, _ []byte) (bool, error) {
					if string(cmd) != "ZOn" {
						return true, nil
					}
					return false, r.EnableZlib()
				})
			}
		}
		for i := 0; ; i++ {
			if i > limit {
				w.Fail("invented-message", "the receiver reads on after everything sent")
			}
			var next nmdc.Message
			if last.read < len(all) {
				next = all[last.read]
			}
			md := mode
			if md == 1 {
				md = 0
				if hooked && next != nil || noz && nhop == 1 {
					md = 1
				}
			}
			var m nmdc.Message
			var err error
			if old := olds[typeName(next)]; md == 1 && reuse && old != nil {
				w.Inc("probe.read_again")
				m, err = old, r.ReadMsgTo(old)
			} else {
				m, err = nread(w, r, md, next)
			}
			if err != nil {
				end = err
				w.EvStr("end", err.Error())
				ended(w, last.p, cutHop < 0, err)
				for j := 0; j < 2; j++ {
					if m, err := r.ReadMsg(); err == nil {
						w.Fail("invented-message", "after the stream had ended with %v, a message is read: %s", end, short(canon(m)))
					}
				}
				return
			}
			w.Inc("op")
			if nmsgLess(m) {
				if err := r.EnableZlib(); err != nil {
					end = err
					return
				}
				continue
			}
			if next == nil {
				w.Fail("invented-message", "the receiver got %s after everything sent", short(canon(m)))
				return
			}
			if d := diffMsg(m, next); d != "" {
				w.Fail("altered-message", "message %d: %s", last.read, d)
			}
			spoil(w, m)
			if _, raw := m.(*nmdc.RawMessage); !raw && md == 1 {
				olds[typeName(m)] = m
			}
			last.read++
		}
	})
	if !finish(w, "a chain of NMDC connections") {
		return
	}
	for i, h := range hops {
		if h.plain && !rawRelay[i] && !(i == 0 && refSender) {
			w.Inc("probe.wire-checked")
			if d := matchWire(h.p.Wire, h.ref, cutHop >= 0); d != "" {
				w.Fail("wire-form", "link %d: %s", i, d)
			}
		}
		owed := h.owed(h.p.Delivered)
		if cutHop < 0 {
			owed = len(h.sent)
		}
		if i > cutHop && cutHop >= 0 || i == cutHop || cutHop < 0 {
			if h.read < owed {
				w.Fail("lost-message", "link %d: %d of %d messages were delivered completely, but only %d were read before %v", i, owed, len(h.sent), h.read, end)
			}
		}
		if h.read > len(h.sent) {
			w.Fail("invented-message", "link %d: %d messages were read, %d sent", i, h.read, len(h.sent))
		}
		if cutHop < 0 && h.readKA != h.kas {
			w.Fail("keep-alive", "link %d: %d keep-alives were sent, %d seen", i, h.kas, h.readKA)
		}
	}
}

// registry asks for the types of messages the library knows.
func registry(w *World) {
	listed := map[string]bool{}
	for _, typ := range nmdc.RegisteredTypes() {
		listed[typ] = true
		if !nmdc.IsRegistered(typ) || !nmdc.IsRegisteredBytes([]byte(typ)) {
			w.Fail("registry", "%q is listed as registered, but not known", typ)
		}
	}
	for _, typ := range ntypes {
		m := nmdc.NewMessage(typ)
		if _, raw := m.(*nmdc.RawMessage); raw || m.Type() != typ || !listed[typ] || !nmdc.IsRegistered(typ) || !nmdc.IsRegisteredBytes([]byte(typ)) {
			w.Fail("registry", "the type %q of messages is not known: %T", typ, m)
		}
	}
	typ := "X" + ntypes[w.T.Intn(len(ntypes))]
	if m, raw := nmdc.NewMessage(typ).(*nmdc.RawMessage); !raw || m.Typ != typ || listed[typ] || nmdc.IsRegistered(typ) || nmdc.IsRegisteredBytes([]byte(typ)) {
		w.Fail("registry", "the unknown type %q is known", typ)
	}
	w.Inc("probe.registry")
}

func typeName(m nmdc.Message) string { return fmt.Sprintf("%T", m) }
