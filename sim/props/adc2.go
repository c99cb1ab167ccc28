package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C15", Quick: 400000, Thorough: 6000000,
		Rule: "A peer sends a drawn sequence of well-formed, malformed and mutated ADC packets, plain or compressed, over a fragmenting pipe; the receiver reads decoded or undecoded packets, or only info or client commands, and keeps what it got. Addresses and payloads are compared with an independent parser of the packet header.",
		Real: []string{"adc.Reader", "adc packets and messages", "lineproto.Reader", "compress/zlib"},
		Stub: []string{"transport (simulated pipe)", "peer (recorded wire bytes)", "clock"},
		Run:  runC15,
	})
}

var a39 = strings.Repeat("A", 39)

// badPackets have a bad header, or miss or malform a mandatory field.
var badPackets = []string{
	"X", "I", "IM", "IMS", "MSG", "Xfoo bar", "XMSG AAAA hi", "bMSG AAAA hi", "\xffMSG hi", "0INF", " INF NIx", "MMSG hello",
	"IMSGhello", "IMSG\thello", "HSUPADTIGR", "CSTA\x01000 x",
	"BMSG", "BMSG ", "BMSG A", "BMSG AAA", "BMSG AAA hello", "BMSG AAAAA hello", "BMSG AA h hello", "BMSG  AAA hello", "BMSG A    hello", "BINF AAAAx", "BMSG AAAA\thello", "BMSGAAAA hello",
	"DMSG", "DMSG AAAA", "DMSG AAAA ", "DMSG AAAA BBB", "DMSG AAAA BBB x", "DMSG AAAA BBBBB x", "DMSG AAAABBBB x", "DMSG AAA BBBB x", "DMSG AAAAA BBBB x", "DMSG AAAA  BBB x", "DMSG A AA BBBB x", "DMSG AAAA B BB x", "DMSG AAAA-BBBB x", "DMSG AAAA BBBB-x",
	"EMSG", "EMSG AAAA", "EMSG AAAA BBB", "EMSG AAAA BBB x", "EMSG AAAA BBBBB x", "EMSG AAAABBBB x", "EMSG AAA BBBB x", "EMSG AAAA  BBB x", "EMSG A AA BBBB x", "EMSG AAAA B BB x",
	"FSCH", "FSCH AAA", "FSCH AAA +TCP4 ANx", "FSCH AAAAA ANx", "FSCH AA A ANx", "FSCH AAAA +TCP", "FSCH AAAA +", "FSCH AAAA -NAT", "FSCH AAAA +TCP4 -", "FSCH AAAA +TCP4 -NA", "FSCH AAAA +TCP ANx", "FSCH AAAA +TCP4x ANx", "FSCH AAAA -TCP4ANx", "FSCH AAAA +TC ANx", "FSCH AAAA+TCP4 ANx", "FSCH AAAA +TCP4-NA ANx",
	"URES", "URES AAAA TOx", "URES " + a39[1:], "URES " + a39[1:] + " TOx", "URES " + a39 + "A TOx", "URES " + a39 + "xTOy", "URES " + a39[1:] + "1 TOx", "URES " + a39[1:] + "a TOx", "URES " + a39[2:] + " A TOx",
	"IMSG a\x00b", "BMSG AAAA \x00", "\x00INF NIx", "HINF NI\x00",
	"ISTA", "ISTA x", "ISTA 1x msg", "ISTA -", "ISID", "ISID AAA", "ISID AAAAA", "ISID A A ", "IQUI", "IQUI AAA", "IQUI AAAAA MSx", "IQUI AAAA IDBBB", "IQUI AAAA TLx",
	"HINF SSx", "HINF IDAAA", "HINF ID" + a39 + "A", "HINF ID" + a39[1:] + "1", "HINF PDAAA", "HINF SUAB", "HINF SUADC0,TC", "HINF SUADC0,,TCP4", "HINF SS1.5", "HINF SL0x10", "HINF NIa HN1 HRb", "HINF SS99999999999999999999", "HINF SSinf", "HINF SSNaN", "HINF CTx",
	"HSUP ADTIG", "HSUP ADTIGRX", "HSUP RMAB", "HSUP ADBASE AD", "HPAS", "HPAS AAAA", "HPAS " + a39[1:] + "1", "HPAS " + a39 + "A", "IGPA 1",
	"CGET", "CGET file", "CGET file a", "CGET file a 0", "CGET file a x 1", "CGET file a 0 x", "CGET file a 0 1 ZL2", "CGET file a 0 1 x", "CSND file a 0 1 1", "CGET file a 0: 1", "CGET file a 0 1: ZL1", "CGET file a 0 1 ZL1 x", "CGET file a  1", "CSND", "CSND file", "CSND file a 0", "CSND file a x 1", "CSND file a 0 1.5",
	"DRCM AAAA BBBB ADC/1.0", "DRCM AAAA BBBB", "DCTM AAAA BBBB ADC/1.0", "DCTM AAAA BBBB ADC/1.0 1", "DCTM AAAA BBBB ADC/1.0 x tok", "CGFI file", "CGFI",
	"CGET file a 9223372036854775808 1", "CGET file a 0 9223372036854775808", "CSND file a 9223372036854775808 1", "CSND file a 0 18446744073709551615", "CSND file a 0 18446744073709551617", "HINF SS9223372036854775808", "HINF SS-9223372036854775809", "HINF SS9223372036854775999", "HINF SF18446744073709551617", "HINF HN9223372036854775808", "HINF SS9223372036854775808.0", "BSCH AAAA LE18446744073709551616", "BSCH AAAA EQ9223372036854775808", "DRES AAAA BBBB SI9223372036854775808", "ISTA 9223372036854775808 x", "ISTA 18446744073709551716 x", "DCTM AAAA BBBB ADC/1.0 9223372036854775808 tok", "ICMD a CT9223372036854775808", "HINF CT18446744073709551617",
	"IZAP 0 0  AAAA  IA2147483648 IB0", "IZAP 0 0  AAAA  IA-1e10 IB0", "IZAP 0 0  AAAA  IA0 IB32768", "IZAP 0 0  AAAA  IA0 IB-32769.0", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF NM1 NMx", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF NMx NM2", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF FL1 FL12", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF SIAAAA SIAA", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF PNx", "IZAP 0 0  AAAA  IA0 IB0 BQ0 QF0 PA EF PBxx", "BSCH AAAA TRABC", "BSCH AAAA LEx", "BSCH AAAA TYa", "BSCH AAAA TR" + a39 + "A", "DRES AAAA BBBB TRAAA", "DRES AAAA BBBB SIx", "DMSG AAAA BBBB hi PMAAA", "DMSG AAAA BBBB hi ME10", "BMSG AAAA hi TSx", "ICMD a CTx",
}

// ahead is what an independent parser finds in a packet line.
type ahead struct {
	bad    bool // certainly malformed
	unsure bool // nothing is claimed
	kind   byte
	cmd    string
	ids    []string
	sel    []adc.FeatureSel
	pay    string
}

func parseHead(line string) (h ahead) {
	if len(line) < 5 || line[len(line)-1] != '\n' || strings.IndexByte(line, 0) >= 0 {
		h.bad = true
		return
	}
	line = line[:len(line)-1]
	h.kind, h.cmd = line[0], line[1:4]
	nid := map[byte]int{'I': 0, 'H': 0, 'C': 0, 'B': 1, 'F': 1, 'D': 2, 'E': 2, 'U': 1}
	n, ok := nid[h.kind]
	rest := line[4:]
	if !ok || rest != "" && rest[0] != ' ' {
		h.bad = true
		return
	}
	if strings.ContainsAny(h.cmd, " \n") {
		h.unsure = true
		return
	}
	tok := func() (string, bool) {
		if rest == "" || rest[0] != ' ' {
			return "", false
		}
		rest = rest[1:]
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			i = len(rest)
		}
		s := rest[:i]
		rest = rest[i:]
		return s, true
	}
	for i := 0; i < n; i++ {
		s, ok := tok()
		l := 4
		if h.kind == 'U' {
			l = 39
		}
		if !ok || len(s) != l {
			h.bad = true
			return
		}
		if h.kind == 'U' {
			if b, err := b32.DecodeString(s); err != nil || len(b) != 24 {
				h.bad = true
				return
			}
			if b, _ := b32.DecodeString(s); b32.EncodeToString(b) != s {
				h.unsure = true
			}
		}
		h.ids = append(h.ids, s)
	}
	if h.kind == 'F' {
		for len(rest) > 1 && (rest[1] == '+' || rest[1] == '-') {
			s, _ := tok()
			for len(s) >= 5 && (s[0] == '+' || s[0] == '-') {
				h.sel = append(h.sel, adc.FeatureSel{Fea: adc.Feature([]byte(s[1:5])), Sel: s[0] == '+'})
				s = s[5:]
			}
			if s != "" {
				h.bad = true
				return
			}
		}
		if len(rest) > 1 && rest[1] == ' ' {
			h.unsure = true
		}
	}
	if rest != "" {
		h.pay = rest[1:]
	}
	return
}

// packet builds the undecoded packet an independent parser found.
func (h *ahead) packet() adc.Packet {
	var cmd adc.MsgType
	copy(cmd[:], h.cmd)
	m := &adc.RawMessage{Type: cmd, Data: []byte(h.pay)}
	sid := func(i int) (s adc.SID) { copy(s[:], h.ids[i]); return }
	switch h.kind {
	case 'I':
		return &adc.InfoPacket{Msg: m}
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'B':
		return &adc.BroadcastPacket{ID: sid(0), Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: sid(0), To: sid(1), Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: sid(0), To: sid(1), Msg: m}
	case 'F':
		return &adc.FeaturePacket{ID: sid(0), Sel: h.sel, Msg: m}
	}
	u := &adc.UDPPacket{Msg: m}
	b, _ := b32.DecodeString(h.ids[0])
	copy(u.ID[:], b)
	return u
}

// warp doubles, drops or moves whole fields and separators of a line.
func warp(t *Tape, b []byte) []byte {
	d := b[len(b)-1]
	b = b[:len(b)-1]
	for k := 0; k < 1+t.Intn(2); k++ {
		type span struct{ lo, hi int }
		var seps []span // runs of equal characters that are no letters or digits
		for i := 0; i < len(b); i++ {
			c := b[i]
			if c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= 0x80 {
				continue
			}
			j := i + 1
			for j < len(b) && b[j] == c {
				j++
			}
			seps = append(seps, span{i, j})
			i = j - 1
		}
		if len(seps) == 0 {
			break
		}
		x := t.Intn(len(seps))
		if t.Chance(300) {
			x = len(seps) - 1
		}
		s := seps[x]
		end := len(b) // of the field behind the separator
		if x+1 < len(seps) {
			end = seps[x+1].lo
		}
		sep := append([]byte(nil), b[s.lo:s.hi]...)
		cat := func(parts ...[]byte) {
			var out []byte
			for _, p := range parts {
				out = append(out, p...)
			}
			b = out
		}
		switch t.Intn(8) {
		case 0: // an empty field
			cat(b[:s.hi], sep, b[s.hi:])
		case 1, 7: // the field is gone, or blank
			cat(b[:s.hi], bytes.Repeat([]byte{' '}, t.Weighted(4, 1, 1)), b[end:])
		case 2: // ends behind the separator
			b = b[:s.hi]
		case 3:
			cat(b[:s.hi], sep)
		case 4:
			cat(b, sep)
		case 5: // the same field again
			cat(b[:end], b[s.lo:])
		case 6: // no separator
			cat(b[:s.lo], b[s.hi:])
		}
	}
	return append(b, d)
}

// findHash gives the place of the first hash in a line, or -1.
func findHash(b []byte) int {
	n := 0
	for i, c := range b {
		if c >= 'A' && c <= 'Z' || c >= '2' && c <= '7' {
			n++
		} else {
			if n >= 39 {
				return i - 39
			}
			n = 0
		}
	}
	return -1
}

func mutateBytes(t *Tape, b []byte, delim byte, near string) []byte {
	b = append([]byte(nil), b...)
	if h := findHash(b); h >= 0 && t.Chance(350) {
		i := h + t.Intn(40)
		c := "ABIQYZ27abyz018=- /"[t.Intn(19)]
		switch t.Intn(4) {
		case 0:
			return append(b[:i:i], append([]byte{c}, b[i:]...)...)
		case 1:
			i = min(i, h+38)
			return append(b[:i:i], b[i+1:]...)
		case 2:
			b[min(i, h+38)] = c
			return b
		case 3: // a longer one
			return append(b[:i:i], append(bytes.Repeat([]byte{c}, 1+t.Intn(40)), b[i:]...)...)
		}
	}
	if t.Chance(400) {
		b = warp(t, b)
		if t.Bool() {
			return b
		}
	} else if t.Chance(300) {
		b = refill(t, b)
		for i := range b[:len(b)-1] {
			if b[i] == delim {
				b[i] = '!'
			}
		}
		return b
	}
	for k := 0; k < 1+t.Intn(3) && len(b) > 1; k++ {
		n := len(b) - 1
		if t.Bool() {
			n = min(n, 16)
		}
		i := t.Intn(n)
		switch t.Intn(5) {
		case 0:
			b[i] = byte(t.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{near[t.Intn(len(near))]}, b[i:]...)...)
		case 3:
			b[i] = near[t.Intn(len(near))]
		case 4:
			j := t.Intn(len(b) - 1)
			b[i], b[j] = b[j], b[i]
		}
	}
	for i := range b[:len(b)-1] {
		if b[i] == delim {
			b[i] = '!'
		}
	}
	b[len(b)-1] = delim
	return b
}

type aline struct {
	b    []byte
	bad  bool
	want string // canonical decoded packet
	head ahead
	note string
}

func runC15(w *World) {
	t := w.T
	g := &agen{t: t, big: t.Chance(50)}
	mode := t.Weighted(4, 4, 1, 1) // ReadPacket, ReadPacketRaw, ReadInfo, ReadClient
	var lines []aline
	var wire []byte
	for i, n := 0, 1+t.Intn(10); i < n; i++ {
		t.Begin()
		var l aline
		switch t.Weighted(6, 4, 3) {
		case 0:
			a := g.apacket()
			if a.kind == 'I' && a.want.Message().Cmd() == (adc.MsgType{'Z', 'O', 'N'}) {
				a = g.apacket()
			}
			l.b = a.alt(t)
			l.want = canon(a.want)
		case 1:
			l.b = []byte(badPackets[t.Intn(len(badPackets))] + "\n")
			l.bad = true
		case 2:
			a := g.apacket()
			src := a.line()
			if t.Chance(300) {
				src = []byte(badPackets[t.Intn(len(badPackets))] + "\n")
			}
			l.b = mutateBytes(t, src, '\n', " +-\\sABX0")
			if len(l.b) < 2 {
				l.b = []byte("mut\n")
			}
			p, err := adc.DecodePacket(append([]byte(nil), l.b...))
			if err != nil {
				l.bad = true
				w.Inc("probe.mutated_bad")
			} else {
				l.want = canon(p)
				w.Inc("probe.mutated_ok")
				if h := parseHead(string(l.b)); !h.bad && !h.unsure {
					if d := ownADC(h.pay, p.Message()); d != "" {
						w.Fail("misread", "%s gives %s: %s", q(l.b), short(l.want), d)
						return
					}
				}
			}
		}
		l.head = parseHead(string(l.b))
		if l.head.bad && !l.bad {
			w.Fail("malformed-accepted", "%s is accepted as %s", q(l.b), short(l.want))
			return
		}
		if n := len(lines); n > 0 && t.Chance(70) { // the same again
			l = lines[max(0, n-1-t.Intn(2))]
		}
		lines = append(lines, l)
		wire = append(wire, l.b...)
		if t.Chance(100) {
			wire = append(wire, '\n')
		}
		t.End()
	}
	z := t.Chance(250)
	if z {
		wire = compressSection(t, wire, drawLevel(t))
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	w.Sample = fmt.Sprintf("mode %d %d lines %d bytes", mode, len(lines), len(wire))
	feeder(w, p, wire)
	type kept struct {
		v    any
		want string
	}
	var retained []kept
	keep := func(v any) { retained = append(retained, kept{v, canon(v)}) }
	w.Go("receiver", func() {
		r := adc.NewReader(p)
		r.SetMaxLine(0)
		if z {
			if err := r.EnableZlib(); err != nil {
				w.Fail("zlib", "EnableZlib: %v", err)
			}
		}
		for i := range lines {
			l := &lines[i]
			w.Inc("op")
			end := func(err error) bool { return errors.Is(err, io.EOF) || err == io.ErrUnexpectedEOF }
			var got string
			var err error
			kindBad := false
			switch mode {
			case 0:
				var pk adc.Packet
				if pk, err = r.ReadPacket(); err == nil {
					got = canon(pk)
					keep(pk)
				}
			case 1:
				var pk adc.Packet
				if pk, err = r.ReadPacketRaw(); err == nil {
					if !l.head.unsure {
						if l.head.bad {
							w.Fail("malformed-accepted", "packet %d: %s is accepted undecoded as %s", i, q(l.b), short(canon(pk)))
						}
						if want := canon(l.head.packet()); canon(pk) != want {
							w.Fail("altered-packet", "packet %d: %s is read undecoded as %s", i, q(l.b), short(canon(pk)))
						}
					}
					if err = pk.DecodeMessage(); err == nil {
						got = canon(pk)
						keep(pk)
					}
				}
			default:
				var m adc.Message
				if mode == 2 {
					m, err = r.ReadInfo()
					kindBad = l.b[0] != 'I'
				} else {
					m, err = r.ReadClient()
					kindBad = l.b[0] != 'C'
				}
				if err == nil {
					if !kindBad {
						if mode == 2 {
							got = canon(&adc.InfoPacket{Msg: m})
						} else {
							got = canon(&adc.ClientPacket{Msg: m})
						}
					}
					keep(m)
				}
			}
			switch {
			case end(err):
				w.Fail("early-end", "packet %d: the end of the stream is reported before %s", i, q(l.b))
			case err == nil && kindBad:
				w.Fail("unexpected-accepted", "packet %d: %s was accepted as an expected command", i, q(l.b))
			case err == nil && l.bad:
				w.Fail("malformed-accepted", "packet %d: %s was accepted as %s", i, q(l.b), short(got))
			case err != nil && !l.bad && !kindBad:
				w.Fail("false-error", "packet %d: %s is well-formed but was reported: %v", i, q(l.b), err)
			case err == nil && got != l.want:
				w.Fail("altered-packet", "packet %d: %s was read as %s, want %s", i, q(l.b), short(got), short(l.want))
			}
			if err != nil {
				keep(err)
			}
		}
		if pk, err := r.ReadPacket(); err == nil {
			w.Fail("invented-packet", "a packet is read after everything sent: %s", short(canon(pk)))
		} else if !errors.Is(err, io.EOF) && err != io.ErrUnexpectedEOF {
			w.Fail("end", "the stream ended, but the error is %v", err)
		}
		for _, k := range retained {
			if canon(k.v) != k.want {
				w.Fail("altered-later", "a returned value changed after later reads: %s, was %s", short(canon(k.v)), short(k.want))
			}
		}
	})
	finish(w, "reading malformed packets")
}
