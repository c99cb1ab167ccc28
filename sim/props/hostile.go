package props

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 400000, Thorough: 5000000,
		Rule: "A hostile peer sends a drawn mix of valid, malformed and mutated messages, random bytes, compression signals with valid, corrupted, truncated, nested or highly inflating sections, binary headers with lying lengths, and then mutates the whole stream and cuts it; the victim reads in every mode with drawn hooks, limits and encodings, switches to inflating when told to, answers lock challenges, reads announced binary sections, re-encodes and inspects what it got, and must come to an end.",
		Real: []string{"nmdc.Reader", "adc.Reader", "lineproto.Reader", "nmdc and adc messages", "nmdc.Writer", "adc.Writer", "Lock.Key", "compress/zlib", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipes)", "peer (recorded wire bytes)", "clock"},
		Run:  runC16,
	})
}

var lockPool = []string{
	"$Lock ", "$Lock  Pk=", "$Lock a", "$Lock ab Pk=x", "$Lock a Pk=", "$Lock EXTENDEDPROTOCOL", "$Lock EXTENDEDPROTOCOL Pk=", "$Lock EXTENDEDPROTOCOLabc Pk=verRef=1.2.3.4", "$Lock _ Pk=",
	"$Lock \xff\x00 Pk=", "$Lock /%DCN000%/ Pk=b", "$Lock x Pk=yRef=", "$Lock Ref= Pk=Ref=", "$Lock NoExt Pk=Ref=", "$Lock abcRef=d", "$Lock Pk= Pk= Pk=", "$Lock   ", "$Lock Pk=",
}

var hugeNums = []string{"0", "-1", "1", "18446744073709551615", "9223372036854775807", "9223372036854775808", "99999999999999999999", "4294967296", "007", "1e9", ""}

// hostile builds one hostile stream.
type hostile struct {
	t     *Tape
	proto int // 0 nmdc, 1 adc
	n     *ngen
	a     *agen
	depth int
}

func (h *hostile) delim() byte { return "|\n"[h.proto] }

func (h *hostile) valid() []byte {
	if h.proto == 0 {
		m := h.n.msg()
		b, err := nmdc.Marshal(h.n.cs.encoder(), m)
		if err != nil {
			return []byte("$x|")
		}
		return b
	}
	return h.a.apacket().alt(h.t)
}

// refill puts something else into one field of a line.
func refill(t *Tape, b []byte) []byte {
	var at []int // field borders
	for i, c := range b[:len(b)-1] {
		if strings.IndexByte(",:$ /<>?=\x05+-", c) >= 0 {
			at = append(at, i+1)
		}
	}
	if len(at) == 0 {
		return b
	}
	x := t.Intn(len(at))
	lo, hi := at[x], len(b)-1
	if x+1 < len(at) {
		hi = at[x+1] - 1
	}
	if hi > lo && t.Chance(100) { // one character of it
		lo += t.Intn(hi - lo)
		hi = lo + 1
	}
	with := []string{"", "", " ", "  ", "-", "-1", "0", "18446744073709551616", "99999999999999999999999999", "9223372036854775808", "4294967297", "x", "\x00", "+", ":", ",", "<", ">", "\xff", string(b[lo:hi]) + string(b[lo:hi])}
	out := append([]byte(nil), b[:lo]...)
	out = append(out, with[t.Intn(len(with))]...)
	return append(out, b[hi:]...)
}

// fields counts what looks like separators.
func fields(b []byte) (n int) {
	for _, c := range b {
		if strings.IndexByte(",:$ /<", c) >= 0 {
			n++
		}
	}
	return
}

func (h *hostile) segment() []byte {
	t := h.t
	d := h.delim()
	near := "$|<> \x05/?&,:-T9\r\n\x00\\+"
	switch t.Weighted(5, 4, 4, 3, 3, 3, 2, 2, 1) {
	case 0:
		return h.valid()
	case 1:
		if h.proto == 0 {
			return append([]byte(badLines[t.Intn(len(badLines))]), d)
		}
		return append([]byte(badPackets[t.Intn(len(badPackets))]), d)
	case 2:
		b := h.valid()
		for k := t.Weighted(2, 2, 0, 1); k > 0; k-- { // the one with most fields of a few
			if c := h.valid(); fields(c) > fields(b) {
				b = c
			}
		}
		if t.Bool() {
			return refill(t, b)
		}
		return mutateBytes(t, b, d, near)
	case 3: // noise
		return t.Blob(1+t.Intn(60), []string{"", near, "AZ09 \\\n", "$MyINFO |<>HV:1,/"}[t.Intn(4)])
	case 4: // compression
		if h.depth > 2 {
			return []byte{d}
		}
		h.depth++
		var in []byte
		switch t.Weighted(6, 1, 1) {
		case 0:
			in = h.stream(1 + t.Intn(4))
		case 1:
			in = bytes.Repeat([]byte{"a\x00|\n"[t.Intn(4)]}, 1<<(8+t.Intn(9)))
		case 2:
			in = nil
		}
		z := compressSection(t, in, drawLevel(t))
		switch t.Weighted(4, 2, 2, 1) {
		case 1:
			z[t.Intn(len(z))] ^= byte(1 + t.Intn(255))
		case 2:
			z = z[:t.Intn(len(z)+1)]
		case 3:
			z = append(z[:2:2], t.Blob(1+t.Intn(30), "")...)
		}
		h.depth--
		sig := "$ZOn|"
		if h.proto == 1 {
			sig = []string{"IZON\n", "CZON\n", "HZON\n"}[t.Intn(3)]
		}
		return append([]byte(sig), z...)
	case 5: // announced binary
		n := t.Intn(50)
		ann := fmt.Sprint(n)
		if t.Bool() {
			ann = hugeNums[t.Intn(len(hugeNums))]
		}
		s := fmt.Sprintf([]string{"$ADCSND file f %s %s|", "CSND file f %s %s\n"}[h.proto], hugeNums[t.Intn(3)], ann)
		return append([]byte(s), t.Blob(n, "")...)
	case 6: // lock challenge
		if h.proto == 1 {
			return []byte([]string{"IGPA \n", "IGPA AAAA\n", "IGPA " + a39 + "\n", "ISUP ADBASE ADTIGR ADZLIF\n", "IINF\n", "ISTA 000\n", "ISTA 2\n"}[t.Intn(7)])
		}
		b := []byte(lockPool[t.Intn(len(lockPool))])
		for k := t.Intn(4); k > 0; k-- {
			b = append(b, byte(t.Intn(256)))
		}
		return append(b, d)
	case 7: // long line
		n := []int{100, 2047, 2048, 2049, 5000, 32767, 32768, 32769, 70000}[t.Intn(9)]
		b := bytes.Repeat([]byte{near[t.Intn(len(near))]}, n)
		pre := []string{"$MyINFO $ALL ", "<", "$SR a ", "$", ""}[t.Intn(5)]
		if h.proto == 1 {
			pre = []string{"BINF AAAA ", "IMSG ", "FSCH AAAA +TCP4", "ISUP ", ""}[t.Intn(5)]
		}
		b = append([]byte(pre), b...)
		if t.Bool() {
			b = append(b, d)
		}
		return b
	default: // keep-alives
		return bytes.Repeat([]byte{d}, 1+t.Intn(5))
	}
}

func (h *hostile) stream(n int) (out []byte) {
	for i := 0; i < n; i++ {
		h.t.Begin()
		out = append(out, h.segment()...)
		h.t.End()
	}
	return
}

// inspect does with a message what applications do.
func (h *hostile) inspect(w *World, v any, reply func(any)) {
	_ = canon(v)
	switch m := v.(type) {
	case *nmdc.Lock:
		w.Inc("probe.lock")
		_ = m.LockString(true)
		_ = m.LockString(false)
		if k := m.Key(); k != nil {
			reply(k)
		}
		if k := m.CustomKey(byte(w.T.Intn(256)), w.T.Bool()); k != nil {
			reply(k)
		}
	case *nmdc.ChatMessage:
		_ = m.String()
	case *nmdc.Supports:
		s := m.Intersect(&nmdc.Supports{Ext: []string{"TTHSearch", "ZPipe0"}})
		reply(&s)
	case *nmdc.MyINFO:
		_ = m.Flag.IsSet(nmdc.FlagTLSDownload)
	case adc.UserInfo:
		m.Normalize()
		_ = m.Features.Has(adc.FeaTCP4)
	case *adc.UserInfo:
		m.Normalize()
	case adc.Supported:
		f := m.Features.Clone()
		_ = f.Join()
		_ = f.Intersect(adc.ModFeatures{adc.FeaBASE: true})
		_ = f.SetFrom(m.Features)
	case adc.Status:
		_, _, _ = m.Err(), m.Ok(), m.Recoverable()
	case adc.SearchRequest:
		_ = m.Group.Matches("mp3")
	case *adc.RawMessage:
		_, _ = m.Decode()
	}
	reply(v)
}

func runC16(w *World) {
	t := w.T
	h := &hostile{t: t, proto: t.Intn(2)}
	cs := charsets[t.Weighted(4, 1, 1, 1, 1)]
	h.n = &ngen{t: t, cs: cs, big: t.Chance(30)}
	h.a = &agen{t: t, big: t.Chance(30)}
	focus := t.Chance(300) // one kind of message, damaged in one place at a time
	var wire []byte
	sweep := focus && t.Chance(120) // one message, cut or changed at every place
	if sweep {
		b := h.valid()
		if h.proto == 0 {
			if m := h.n.of(ntypes[t.Intn(len(ntypes))]); m != nil {
				if c, err := nmdc.Marshal(cs.encoder(), m); err == nil {
					b = c
				}
			}
		}
		b = bytes.TrimRight(b, string([]byte{h.delim()}))
		if len(b) > 200 {
			b = b[:200]
		}
		how, c := t.Intn(4), byte(t.Intn(256))
		for i := range b {
			switch how {
			case 0: // every beginning
				wire = append(wire, b[:i]...)
			case 1: // one byte missing
				wire = append(append(wire, b[:i]...), b[i+1:]...)
			case 2: // one byte replaced
				wire = append(append(append(wire, b[:i]...), c), b[i+1:]...)
			case 3: // one byte too many
				wire = append(append(append(wire, b[:i]...), b[i]), b[i:]...)
			}
			wire = append(wire, h.delim())
		}
		w.Inc("fault.sweep")
	} else if focus {
		typ := ntypes[t.Intn(len(ntypes))]
		for i, n := 0, 2+t.Intn(14); i < n; i++ {
			t.Begin()
			b := h.valid()
			if h.proto == 0 {
				if m := h.n.of(typ); m != nil {
					if c, err := nmdc.Marshal(cs.encoder(), m); err == nil {
						b = c
					}
				}
			}
			for k := 1 + t.Weighted(6, 1); k > 0; k-- {
				b = refill(t, b)
			}
			wire = append(wire, b...)
			t.End()
		}
	} else {
		wire = h.stream(1 + t.Intn(8))
	}
	if !focus && t.Chance(400) { // whole-stream mutation
		for k := 0; k < 1+t.Intn(6) && len(wire) > 0; k++ {
			i := t.Intn(len(wire))
			n := min(len(wire)-i, 1+t.Intn(8))
			switch t.Intn(5) {
			case 0:
				wire[i] ^= byte(1 << t.Intn(8))
			case 1:
				wire[i] = byte(t.Intn(256))
			case 2:
				wire = append(wire[:i], wire[i+n:]...)
			case 3:
				wire = append(wire[:i+n:i+n], wire[i:]...)
			case 4:
				wire = append(wire[:i:i], append(t.Blob(n, ""), wire[i:]...)...)
			}
			w.Inc("fault.stream_mutation")
		}
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	if t.Chance(300) {
		prof.CutAt, prof.CutErr = t.Intn(len(wire)+1), []error{ErrReset, io.ErrUnexpectedEOF, ErrDeadline}[t.Intn(3)]
	}
	if t.Chance(150) {
		prof.RFaults = append(prof.RFaults, &RFault{At: t.Intn(len(wire) + 1), Err: ErrTransient})
	}
	prof.Tame(len(wire))
	p := w.NewPipe(0, prof)
	out := w.NewPipe(1, Profile{CutAt: -1})
	mode := t.Intn(6) // 5: a mix
	if focus && t.Chance(800) {
		mode = 0
	}
	hooks := t.Weighted(2, 1, 1, 1)
	limit := []int{-1, -1, 0, 1, 64, 2048, 1 << 20}[t.Intn(7)]
	w.Sample = fmt.Sprintf("proto %d charset %s mode %d hooks %d limit %d %s", h.proto, cs.name, mode, hooks, limit, q(wire))
	feeder(w, p, wire)
	drain(w, out, false)
	bound := 1100*len(wire) + 1000
	w.Go("victim", func() {
		defer p.CloseRead()
		defer out.CloseWrite()
		lines := 0
		var lr *lineproto.Reader
		var nr *nmdc.Reader
		var ar *adc.Reader
		nw, aw := nmdc.NewWriter(out), adc.NewWriter(out)
		if h.proto == 0 {
			nr = nmdc.NewReader(p)
			lr = nr.Reader
			nr.SetDecoder(cs.decoder())
			nw.SetEncoder(cs.encoder())
			nr.OnKeepAlive = func() error { return nil }
			if t.Chance(100) {
				nr.SetMaxCmdName(1 + t.Intn(40))
			}
			if hooks > 0 {
				nr.OnRawMessage(func(cmd, args []byte) (bool, error) { return !t.Chance(50), nil })
				nr.OnMessage(func(m nmdc.Message) (bool, error) { _ = canon(m); return !t.Chance(50), nil })
			}
			if hooks > 1 {
				nr.OnUnmarshalError = func(text []byte, err error) (bool, error) {
					_ = err.Error()
					return t.Bool(), err
				}
			}
			if hooks > 2 {
				nr.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
					if t.Chance(300) {
						return nil, nil
					}
					return charsets[t.Intn(len(charsets))].decoder(), nil
				}
			}
		} else {
			ar = adc.NewReader(p)
			lr = ar.Reader
			if hooks > 0 {
				ar.OnKeepAlive = func() error { return nil }
			}
		}
		if limit >= 0 {
			lr.SetMaxLine(limit)
		}
		lr.OnLine(func(line []byte) (bool, error) {
			lines++
			return hooks == 0 || lines > 150000 || !t.Chance(20), nil
		})
		reply := func(v any) {
			var err error
			switch m := v.(type) {
			case nmdc.Message:
				if err = nw.WriteMsg(m); err != nil {
					w.Inc("probe.unencodable")
				}
			case adc.Packet:
				err = aw.WritePacket(m)
			case adc.Message:
				err = aw.WriteInfo(m)
			}
			if err == nil && t.Chance(200) {
				nw.Flush()
				aw.Flush()
			}
		}
		binary := func(n uint64) {
			if h.depth = h.depth + 1; h.depth > 20 {
				return
			}
			rc, err := lr.Binary(n)
			if err != nil {
				return
			}
			w.Inc("probe.binary")
			if t.Bool() {
				buf := make([]byte, 1+t.Intn(200))
				for k := t.Intn(6); k >= 0; k-- {
					if m, err := rc.Read(buf); m < 0 || m > len(buf) {
						w.Fail("bad-count", "a read of a binary section returned %d bytes for a buffer of %d", m, len(buf))
					} else if err != nil {
						break
					}
				}
			}
			_ = rc.Close()
		}
		zon := func() {
			if err := lr.EnableZlib(); err != nil {
				w.Inc("probe.zlib_refused")
			} else {
				w.Inc("probe.zlib_on")
			}
		}
		use := func(v any) {
			switch m := v.(type) {
			case *nmdc.ZOn:
				zon()
				return
			case *nmdc.ADCSnd:
				binary(m.Length)
			case adc.ZOn:
				zon()
				return
			case adc.GetResponse:
				if m.Bytes >= 0 {
					binary(uint64(m.Bytes))
				}
			case adc.Packet:
				switch x := m.Message().(type) {
				case adc.ZOn:
					zon()
					return
				case adc.GetResponse:
					if x.Bytes >= 0 {
						binary(uint64(x.Bytes))
					}
				}
				h.inspect(w, m.Message(), func(any) {})
			}
			h.inspect(w, v, reply)
		}
		last, same, lastLines := "", 0, 0
		var targets []nmdc.Message
		for calls := 0; ; calls++ {
			if calls > bound {
				w.Fail("endless", "reading a stream of %d bytes has not ended after %d calls; last error %s", len(wire), calls, last)
			}
			if calls > 150000 { // an inflated flood; shorter streams decide that reading ends
				w.Inc("probe.flood")
				return
			}
			w.Inc("op")
			k := mode
			if k == 5 {
				k = t.Intn(5)
			}
			var v any
			var err error
			switch {
			case k == 4:
				var b []byte
				b, err = lr.ReadLine()
				if err == nil {
					if len(b) == 0 || b[len(b)-1] != h.delim() {
						w.Fail("bad-line", "ReadLine returned %s without an error", q(b))
					}
					v = string(b)
					if bytes.HasPrefix(b, []byte("$ZOn")) || len(b) > 3 && string(b[1:4]) == "ZON" {
						zon()
					}
				}
			case h.proto == 0 && k == 0 || h.proto == 0 && k == 3:
				v, err = nr.ReadMsg()
			case h.proto == 0:
				if len(targets) == 0 || t.Chance(300) {
					targets = nil
					n := 1
					if k == 2 {
						n = 1 + t.Intn(4)
					}
					for i := 0; i < n; i++ {
						if i == 0 && t.Bool() {
							targets = append(targets, &nmdc.Lock{})
						} else if t.Chance(200) {
							targets = append(targets, &nmdc.ChatMessage{})
						} else {
							targets = append(targets, nmdc.NewMessage(ntypes[t.Intn(len(ntypes))]))
						}
					}
				}
				if k == 1 && len(targets) > 0 {
					v, err = targets[0], nr.ReadMsgTo(targets[0])
				} else {
					v, err = nr.ReadMsgToAny(targets...)
				}
			case k == 0:
				v, err = ar.ReadPacket()
			case k == 1:
				var pk adc.Packet
				if pk, err = ar.ReadPacketRaw(); err == nil {
					v = pk
					if t.Bool() {
						err = pk.DecodeMessage()
					} else if t.Bool() {
						_ = pk.DecodeMessageTo(newLike(h.a.apacket().want.Message()))
					}
				}
			case k == 2:
				v, err = ar.ReadInfo()
			default:
				v, err = ar.ReadClient()
			}
			if err == nil {
				if v == nil || fmt.Sprint(v) == "<nil>" {
					w.Fail("nothing", "a read (mode %d) returned neither a message nor an error", k)
				}
				w.Inc("probe.read_ok")
				use(v)
				last, same = "", 0
				continue
			}
			msg := err.Error()
			_ = canon(err)
			var ue *nmdc.ErrUnexpectedCommand
			if errors.As(err, &ue) && ue.Received != nil {
				h.inspect(w, ue.Received, reply)
			}
			if msg == last && lines == lastLines {
				same++
			} else {
				same = 0
			}
			last, lastLines = msg, lines
			if errors.Is(err, io.EOF) || same >= 5 {
				break
			}
			if errors.Is(err, zlib.ErrChecksum) || errors.Is(err, zlib.ErrHeader) || strings.HasPrefix(msg, "flate") {
				w.Inc("probe.zlib_error")
			}
			var ce flate.CorruptInputError
			if errors.As(err, &ce) {
				w.Inc("probe.flate_corrupt")
			}
		}
		w.Inc("probe.ended")
		// the end is final
		if last == "EOF" {
			for i := 0; i < 3; i++ {
				if b, err := lr.ReadLine(); err == nil {
					w.Fail("after-end", "after the end of the stream ReadLine returned %s", q(b))
				}
			}
		}
		_ = lr.Close()
		if _, err := lr.ReadLine(); err == nil {
			w.Fail("after-close", "a line was read from a closed reader")
		}
		_ = nw.Close()
		_ = aw.Close()
	})
	finish(w, "reading a hostile stream")
}
