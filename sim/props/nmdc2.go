package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 250000, Thorough: 4000000,
		Rule: "A peer sends a drawn sequence of well-formed, malformed, mutated and unexpected NMDC messages, plain or compressed, over a fragmenting pipe; the receiver reads with ReadMsg, ReadMsgTo or ReadMsgToAny (fresh or reused targets), with or without an error hook that skips, replaces or passes on the error.",
		Real: []string{"nmdc.Reader", "nmdc messages", "lineproto.Reader", "compress/zlib", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipe)", "peer (recorded wire bytes)", "clock"},
		Run:  runC11,
	})
}

// badLines are malformed NMDC messages: a bad frame or name, or missing or
// malformed mandatory fields.
var badLines = []string{
	"$", "$ foo", "$ ", "$" + strings.Repeat("N", 33), "$" + strings.Repeat("N", 33) + " x", "$\xd0\xa4\xd1\x83 x", "$a$b x", "$a~ x", "$To\t: x",
	"$Hello a\x00b", "\x00", "some \x00 text", "<nul\x00> hi", "$Foo \x00",
	"<nobody", "<", "<a\rb> text", "<nobody\r\n> text", "<" + strings.Repeat("n", 257) + "> hi",
	"$Hello " + strings.Repeat("n", 257), "$Quit a$b", "$Hello a\tb", "$MyNick a\nb", "$Kick \r",
	"$MaxedOut x", "$GetPass x", "$HubIsFull 1", "$ZOn 1", "$GetNickList x",
	"$To: bob", "$To: bob From: x", "$To: a From: b $<c", "$To: a From: b <c> d", "$To: a$ From: b $<c> d",
	"$MCTo a", "$MCTo a $b", "$MCTo a b c",
	"$UserCommand x", "$UserCommand 1", "$UserCommand x 1", "$UserCommand 1 x", "$UserCommand 1 1 foo", "$UserCommand 1 1 $cmd",
	"$ConnectToMe foo", "$ConnectToMe a\r 1.2.3.4:5", "$ConnectToMe a 1.2.3.4:5N b\r", "$RevConnectToMe foo", "$RevConnectToMe a\r b", "$RevConnectToMe a b$c",
	"$ADCGET", "$ADCGET file", "$ADCGET file a", "$ADCGET file a 0", "$ADCGET file a x 1", "$ADCGET file a 0 -2", "$ADCGET file a 0 1 ZL1 DBx", "$ADCGET file a 18446744073709551616 1",
	"$ADCSND file", "$ADCSND file a 0", "$ADCSND file a 0 x", "$ADCSND file a x 0", "$ADCSND file a 0 1 FOO",
	"$Direction Down 1", "$Direction Upload", "$Direction Upload 0", "$Direction Upload 32768", "$Direction Upload -1", "$Direction Upload x",
	"$Search foo", "$Search 1.2.3.4:5 F?T?0?1", "$Search 1.2.3.4:5 F?T?x?1?p", "$Search 1.2.3.4:5 X?T?0?1?p", "$Search 1.2.3.4:5 F??0?1?p", "$Search 1.2.3.4:5 F?T?0?9?foo", "$Search 1.2.3.4:5 F?T?0?9?TTH:ABC", "$Search 1.2.3.4:5 F?T?0?x?p", "$Search Hub:a$ F?T?0?1?p",
	"$SR foo", "$SR foo bar", "$SR a p\x05x 1/2\x05h (a)", "$SR a p\x055 12\x05h (a)", "$SR a p\x055 1/2\x05h (a", "$SR a p\x055 1/2\x05h", "$SR a p\x055 1/2\x05TTH:ABC (a)", "$SR a p\x055 1/2\x05h (a)x", "$SR a p\x055 1/2\x05h (a)\x05", "$SR a p\x055", "$SR a p\x055 x/2\x05h (a)", "$SR a p\x055 1/2\x05h (a)\x05b\x0a",
	"$SA ABC x", "$SA " + strings.Repeat("A", 39), "$SA " + strings.Repeat("A", 39) + "x", "$SA " + strings.Repeat("1", 39) + " a", "$SP " + strings.Repeat("A", 39), "$SP " + strings.Repeat("A", 39) + " a$",
	"$MyINFO", "$MyINFO foo", "$MyINFO $ALL x", "$MyINFO $ALL x y$ $", "$MyINFO $ALL n d<$ $\x01$$0$", "$MyINFO $ALL n d<++ V:1,S:x>$ $\x01$$0$", "$MyINFO $ALL n d<++ V:1,H:1/2>$ $\x01$$0$", "$MyINFO $ALL n d<++ V:1,H:1/x/3>$ $\x01$$0$", "$MyINFO $ALL n d<++ V:1,:x>$ $\x01$$0$", "$MyINFO $ALL n d<++ V:1,M:A>$  $\x01$$0$", "$MyINFO $ALL n$ d$ $\x01$$0$",
	"$HubINFO n$h$d$x$0$0$0$s$o$s$e", "$HubINFO n$h$d$1$1$1$$s$o$s$e", "$OpList a$$b\r$$", "$OpList a$b$$", "$BotList \t$$", "$UserIP a\t 1.2.3.4$$",
	"$Direction Upload 1:", "$Direction Upload 1/", "$ADCGET file a 0: 1", "$ADCGET file a 0 1/ ZL1", "$ADCSND file a 0 1:", "$SR a p\x055 1:/2\x05h (a)", "$SR a p\x055: 1/2\x05h (a)", "$HubINFO n$h$d$1:$0$0$0$s$o$s$e", "$Search 1.2.3.4:5 F?T?1:?1?p", "$MyINFO $ALL n d<++ V:1,H:1/2:/3>$ $\x01$$0$", "$UserCommand 1: 1 a$b", "$MaxedOut 1:",
	"bad text \xff\xfe", "<\xff\xff> hi", "$HubTopic \xff", "$Hello \xc3",
}

// nline is one message of a peer and what reading it must give.
type nline struct {
	b     []byte // with the delimiter
	want  nmdc.Message
	typ   string // command name and payload, for unexpected messages
	args  []byte
	bad   bool // must be reported
	proto bool // bad before its type is known
}

func splitCmd(b []byte) (typ string, args []byte) {
	b = b[:len(b)-1]
	if len(b) == 0 || b[0] != '$' {
		return "", b
	}
	b = b[1:]
	if i := bytes.IndexByte(b, ' '); i >= 0 {
		return string(b[:i]), b[i+1:]
	}
	return string(b), nil
}

// alone decodes one message in isolation.
func alone(cs *charset, maxCmd int, b []byte) (nmdc.Message, error) {
	r := nmdc.NewReader(bytes.NewReader(b))
	r.SetMaxLine(0)
	r.SetDecoder(cs.decoder())
	r.SetMaxCmdName(maxCmd)
	return r.ReadMsg()
}

// encode is a form of m another implementation sends.
func (g *ngen) encode(m nmdc.Message) []byte {
	f := nref(g.cs, m)
	return f[g.t.Intn(len(f))]
}

func (g *ngen) mutate(b []byte) []byte {
	t := g.t
	b = append([]byte(nil), b...)
	n := 1 + t.Intn(3)
	if len(b) > 1 && t.Chance(300) {
		b, n = mutateBytes(t, b, '|', " $<>\x05/?&,:-T9"), 0
	}
	for k := 0; k < n && len(b) > 1; k++ {
		i := t.Intn(len(b) - 1)
		switch t.Intn(5) {
		case 0:
			b[i] = byte(t.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{" $<>\x05/?&,:-T9"[t.Intn(13)]}, b[i:]...)...)
		case 3:
			b = append(b[:i], '|')
		case 4:
			j := t.Intn(len(b) - 1)
			b[i], b[j] = b[j], b[i]
		}
	}
	for i := range b[:len(b)-1] {
		if b[i] == '|' {
			b[i] = '!'
		}
	}
	b[len(b)-1] = '|'
	if len(b) == 1 {
		b = []byte("mutated|")
	}
	return b
}

func runC11(w *World) {
	t := w.T
	cs := charsets[t.Weighted(4, 1, 1, 1, 1)]
	if t.Chance(100) {
		cs = strictUTF8
	}
	maxCmd := 32
	if t.Chance(200) {
		maxCmd = []int{33, 40, 14, 200}[t.Intn(4)]
	}
	g := &ngen{t: t, cs: cs, big: t.Chance(50)}
	mode := t.Weighted(3, 2, 2) // ReadMsg, ReadMsgTo, ReadMsgToAny
	var accept []string
	pool := []string{"", "ADCGET", "ConnectToMe", "Search", "SR", "MyINFO", "UserCommand", "Hello", "Error", "Direction", "HubINFO", "To:"}
	if mode > 0 {
		for i := 0; i < []int{0, 1, 1 + t.Intn(4)}[mode]; i++ {
			if mode == 1 || t.Chance(800) {
				accept = append(accept, pool[t.Intn(len(pool))])
			} else {
				accept = append(accept, ntypes[t.Intn(len(ntypes))])
			}
		}
	}
	var lines []nline
	for i, n := 0, 1+t.Intn(10); i < n; i++ {
		t.Begin()
		var l nline
		switch t.Weighted(6, 4, 3) {
		case 0:
			if len(accept) > 0 && t.Chance(600) {
				l.want = g.of(accept[t.Intn(len(accept))])
			}
			if l.want == nil {
				l.want = g.msg()
			}
			if t.Chance(400) {
				l.b, l.want = g.dialect(l.want)
				w.Inc("probe.dialect")
			} else {
				l.b = g.encode(l.want)
			}
		case 1:
			l.b = []byte(badLines[t.Intn(len(badLines))] + "|")
			if t.Chance(600) {
				typ := ntypes[t.Intn(len(ntypes))]
				if len(accept) > 0 && t.Chance(600) {
					typ = accept[t.Intn(len(accept))]
				}
				if b := g.badField(typ); b != nil {
					l.b = b
					w.Inc("probe.bad_field")
				}
			} else if len(accept) > 0 && t.Chance(500) {
				for k := 0; k < 30; k++ {
					if typ, _ := splitCmd(l.b); typ == accept[0] {
						break
					}
					l.b = []byte(badLines[t.Intn(len(badLines))] + "|")
				}
			}
			l.bad = true
			if cs.enc != nil && !bytes.Contains(l.b, []byte{0}) && bytes.IndexFunc(l.b, func(r rune) bool { return r == 0xfffd }) >= 0 {
				l.b = []byte("$|") // not malformed in this charset
			}
		case 2:
			m := g.msg()
			if len(accept) > 0 && t.Chance(500) {
				if m2 := g.of(accept[t.Intn(len(accept))]); m2 != nil {
					m = m2
				}
			}
			l.b = g.mutate(g.encode(m))
			m, err := alone(cs, maxCmd, l.b)
			if err != nil {
				l.bad = true
				w.Inc("probe.mutated_bad")
			} else {
				l.want = m
				w.Inc("probe.mutated_ok")
				if _, args := splitCmd(l.b); bytes.IndexByte(l.b, '|') == len(l.b)-1 {
					if d := ownNMDC(string(args), m); d != "" {
						w.Fail("misread", "%s gives %s: %s", q(l.b), short(canon(m)), d)
						return
					}
				}
			}
		}
		l.typ, l.args = splitCmd(l.b)
		if l.b[0] == '$' && l.typ != "" && strings.Trim(l.typ, "N") == "" {
			l.bad = l.bad && len(l.typ) > maxCmd
			if !l.bad {
				l.want = &nmdc.RawMessage{Typ: l.typ, Data: l.args}
			}
		} else if len(l.typ) > maxCmd {
			l.bad, l.want = true, nil
		}
		l.proto = bytes.IndexByte(l.b, 0) >= 0 || l.b[0] == '$' && (l.typ == "" || len(l.typ) > maxCmd || strings.Trim(l.typ, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/-_.:") != "")
		if n := len(lines); n > 0 && t.Chance(70) { // the same again
			l = lines[max(0, n-1-t.Intn(2))]
		}
		lines = append(lines, l)
		t.End()
	}
	var wire []byte
	for _, l := range lines {
		wire = append(wire, l.b...)
	}
	z := t.Chance(250)
	if z {
		wire = compressSection(t, wire, drawLevel(t))
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	hook := t.Weighted(3, 3, 2) // none, skip, mixed
	reuse := t.Bool()
	w.Sample = fmt.Sprintf("charset %s mode %d accept %q hook %d %d lines %d bytes", cs.name, mode, accept, hook, len(lines), len(wire))
	feeder(w, p, wire)
	ok := func(l nline) bool { // the type is accepted
		if mode == 0 {
			return true
		}
		for _, a := range accept {
			if a == l.typ && (l.b[0] == '$') == (a != "") {
				return true
			}
		}
		return false
	}
	type kept struct {
		e    *nmdc.ErrUnexpectedCommand
		want string
	}
	var retained []kept
	w.Go("receiver", func() {
		r := nmdc.NewReader(p)
		r.SetMaxLine(0)
		r.SetDecoder(cs.decoder())
		if maxCmd != 32 {
			r.SetMaxCmdName(maxCmd)
		}
		at := 0
		errHook := errors.New("error of the hook")
		hooked := false
		if hook > 0 {
			r.OnUnmarshalError = func(text []byte, err error) (bool, error) {
				w.Inc("op")
				if at >= len(lines) || !lines[at].bad {
					w.Fail("false-error", "the error hook was called with %s (%v), which is not the next malformed message (%d)", q(text), err, at)
					return true, err
				}
				l := lines[at]
				if !bytes.Equal(bytes.TrimSuffix(text, []byte("|")), l.b[:len(l.b)-1]) {
					w.Fail("hook-text", "the error hook was called with %s instead of %s", q(text), q(l.b))
				}
				if err == nil {
					w.Fail("hook-text", "the error hook was called without an error for %s", q(text))
				}
				if hook == 1 || t.Bool() {
					at++
					w.Inc("probe.skipped")
					return false, nil
				}
				hooked = true
				return true, errHook
			}
		}
		if z {
			if err := r.EnableZlib(); err != nil {
				w.Fail("zlib", "EnableZlib: %v", err)
			}
		}
		fresh := func() (l []nmdc.Message) {
			for _, a := range accept {
				if a == "" {
					l = append(l, &nmdc.ChatMessage{})
				} else {
					l = append(l, nmdc.NewMessage(a))
				}
			}
			return l
		}
		targets := fresh()
		for n := 0; n < len(lines)+3; n++ {
			var m nmdc.Message
			var err error
			if !reuse {
				targets = fresh()
			}
			hooked = false
			switch mode {
			case 0:
				m, err = r.ReadMsg()
			case 1:
				m = targets[0]
				err = r.ReadMsgTo(m)
			case 2:
				m, err = r.ReadMsgToAny(targets...)
			}
			w.Inc("op")
			if err != nil {
				w.EvStr("error", fmt.Sprint(err))
			}
			if at >= len(lines) {
				if err == nil {
					w.Fail("invented-message", "a message is read after everything sent: %s", short(canon(m)))
				} else if !errors.Is(err, io.EOF) && err != io.ErrUnexpectedEOF {
					w.Fail("end", "the stream ended, but the error is %v", err)
				}
				break
			}
			l := lines[at]
			at++
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				w.Fail("early-end", "message %d: the end of the stream is reported before %s", at-1, q(l.b))
			}
			if err == nil {
				if l.bad {
					w.Fail("malformed-accepted", "message %d: %s was accepted as %s", at-1, q(l.b), short(canon(m)))
				}
				if !ok(l) {
					w.Fail("unexpected-accepted", "message %d: %s was accepted although only %q are expected", at-1, q(l.b), accept)
				}
				if d := diffMsg(m, l.want); d != "" {
					w.Fail("altered-message", "message %d: %s", at-1, d)
				}
				if mode == 2 {
					in := false
					for _, x := range targets {
						in = in || x == m
					}
					if !in {
						w.Fail("target", "message %d was not decoded into one of the accepted messages", at-1)
					}
				}
				continue
			}
			if hooked && err != errHook {
				w.Fail("hook-error", "the error hook returned %v, the read %v", errHook, err)
			}
			if ue, is := err.(*nmdc.ErrUnexpectedCommand); is {
				if ok(l) || l.proto {
					w.Fail("false-error", "message %d: %s was reported as unexpected, accepted are %q", at-1, q(l.b), accept)
				}
				if ue.Received == nil || ue.Received.Typ != l.typ || !bytes.Equal(ue.Received.Data, l.args) {
					w.Fail("unexpected-payload", "message %d: %s was reported as %#v", at-1, q(l.b), ue.Received)
				}
				if ue.Expected != accept[0] {
					w.Fail("unexpected-payload", "message %d: the error expects %q instead of %q", at-1, ue.Expected, accept[0])
				}
				w.Inc("probe.unexpected")
				retained = append(retained, kept{ue, canon(ue)})
				continue
			}
			if !l.bad && ok(l) {
				w.Fail("false-error", "message %d: %s is well-formed but was reported: %v", at-1, q(l.b), err)
			}
			if !ok(l) && !l.proto {
				w.Fail("unexpected-unreported", "message %d: %s is not one of the accepted %q, but the error is %v", at-1, q(l.b), accept, err)
			}
		}
		for _, k := range retained {
			if canon(k.e) != k.want {
				w.Fail("altered-error", "an error changed after later reads: %s, was %s", short(canon(k.e)), short(k.want))
			}
		}
	})
	finish(w, "reading malformed messages")
}
