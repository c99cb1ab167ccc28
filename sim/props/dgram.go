package props

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: 150000, Thorough: 4000000,
		Rule: "1 to 4 senders put search, result and other messages of both protocols, one per datagram, on a simulated datagram network that delays, reorders, loses, duplicates, truncates, corrupts and merges datagrams; 1 or 2 sockets receive into one reused buffer each, decode (twice now and then, with decoders that yield) and keep what they got. Intact datagrams must give the message sent, whatever happened to others; strict prefixes must be errors; damaged ones must give the same as when decoded alone, agree with an independent parser of the packet header and change nothing else.",
		Real: []string{"nmdc.Marshal", "nmdc.Unmarshal", "nmdc messages", "adc.DecodePacket", "adc.DecodePacketRaw", "adc packets and messages", "golang.org/x/text"},
		Stub: []string{"datagram network", "clock"},
		Run:  runC19,
	})
}

// gram is one datagram in flight.
type gram struct {
	proto  int
	cs     *charset
	data   []byte
	want   string // canonical message sent
	damage byte   // 0 none, t truncated, c corrupted, m followed by other bytes
}

func runC19(w *World) {
	t := w.T
	loss, dup, reord, trunc, corr := 0, 0, 0, 0, 0
	if t.Bool() {
		loss = t.Intn(400)
	}
	if t.Bool() {
		dup = t.Intn(400)
	}
	if t.Bool() {
		reord = t.Intn(600)
	}
	if t.Bool() {
		trunc = t.Intn(300)
	}
	if t.Bool() {
		corr = t.Intn(300)
	}
	socks := 1 + t.Intn(2)
	type sock struct {
		q    []*gram
		wait *Task
	}
	var ss []*sock
	for i := 0; i < socks; i++ {
		ss = append(ss, &sock{})
	}
	pending := 0 // senders and datagrams in flight
	wake := func() {
		for _, s := range ss {
			if s.wait != nil {
				w.Wake(s.wait)
				s.wait = nil
			}
		}
	}
	deliver := func(g *gram, to *sock) {
		d := time.Duration(0)
		if t.Chance(reord) {
			d = time.Duration(1+t.Intn(50)) * ms
			w.Inc("fault.reorder")
		}
		pending++
		w.After(d, func() {
			pending--
			to.q = append(to.q, g)
			wake()
		})
	}
	total := 0
	for i, n := 0, 1+t.Intn(4); i < n; i++ {
		t.Begin()
		proto := t.Intn(2)
		cs := charsets[t.Weighted(3, 1, 1, 1, 1)]
		ng := &ngen{t: t, cs: cs, big: t.Chance(50)}
		ag := &agen{t: t, big: t.Chance(50)}
		var gs []*gram
		for j, k := 0, 1+t.Intn(8); j < k; j++ {
			t.Begin()
			g := &gram{proto: proto, cs: cs}
			if proto == 0 {
				m := nmdc.Message(nil)
				if t.Chance(700) {
					m = ng.of([]string{"SR", "Search", "SA", "SP"}[t.Intn(4)])
				}
				if m == nil {
					m = ng.msg()
				}
				g.data = ng.encode(m)
				if t.Bool() {
					b, err := nmdc.Marshal(cs.encoder(), m)
					if err != nil {
						w.Fail("encode", "encoding %s failed: %v", short(canon(m)), err)
						return
					}
					if d := matchWire(b, [][][]byte{nref(cs, m)}, false); d != "" {
						w.Fail("encode", "%s", d)
					}
					g.data = b
				}
				g.want = canon(m)
			} else {
				var a *apkt
				if t.Chance(700) {
					m, e := ag.msg(t.Intn(18))
					a = ag.wrap(m, e, "U")
				} else {
					a = ag.apacket()
				}
				if t.Bool() {
					g.data = a.alt(t)
				} else {
					var buf bytes.Buffer
					if err := a.pkt.MarshalPacketADC(&buf); err != nil {
						w.Fail("encode", "encoding %s failed: %v", short(canon(a.pkt)), err)
						return
					}
					g.data = buf.Bytes()
					if len(g.data) == 0 || g.data[len(g.data)-1] != '\n' {
						g.data = append(g.data, '\n')
					}
				}
				g.want = canon(a.want)
			}
			if len(g.data) > 30000 { // over the default line limit
				ng.big, ag.big = false, false
				j--
			} else {
				gs = append(gs, g)
			}
			t.End()
		}
		total += len(gs)
		t.End()
		pending++
		w.Go(fmt.Sprintf("sender%d", i), func() {
			for _, g := range gs {
				to := ss[t.Intn(socks)]
				for c := 0; c < 3; c++ {
					x := *g
					switch {
					case t.Chance(loss):
						w.Inc("fault.loss")
					case t.Chance(trunc):
						x.damage = 't'
						end := x.data[len(x.data)-1]
						cut := t.Intn(len(x.data))
						if t.Chance(400) { // at a border between fields
							var at []int
							for i, c := range x.data {
								if c == ' ' || c == 5 || c == '?' {
									at = append(at, i, i+1)
								}
							}
							if len(at) > 0 {
								cut = at[t.Intn(len(at))]
							}
						}
						x.data = x.data[:cut]
						w.Inc("fault.truncate")
						if t.Chance(400) {
							// a sender that fits its text to the size of a datagram
							x.damage = 'p'
							x.data = append(x.data[:len(x.data):len(x.data)], end)
							w.Inc("fault.shorten")
							if bytes.Equal(x.data, g.data) {
								x.damage = 0
							}
						}
						deliver(&x, to)
					case t.Chance(corr):
						x.damage = 'c'
						if t.Chance(200) {
							x.damage = 'm'
							x.data = append(append([]byte(nil), x.data...), gs[t.Intn(len(gs))].data...)
							w.Inc("fault.merge")
						} else {
							x.data = append([]byte(nil), x.data...)
							if end := x.data[len(x.data)-1]; len(x.data) > 1 && t.Chance(400) {
								// bytes lost, repeated and made up
								x.data = mutateBytes(t, x.data, end, "0A?$: -\x05")
							} else {
								for k := 0; k < 1+t.Intn(3); k++ {
									x.data[t.Intn(len(x.data))] ^= byte(1 << t.Intn(8))
								}
							}
							if bytes.Equal(x.data, g.data) {
								x.damage = 0
							}
							w.Inc("fault.corrupt")
						}
						deliver(&x, to)
					default:
						deliver(&x, to)
					}
					if !t.Chance(dup) {
						break
					}
					w.Inc("fault.duplicate")
				}
				if t.Chance(300) {
					w.Sleep(time.Duration(t.Intn(20)) * ms)
				} else {
					w.Yield()
				}
			}
			pending--
			wake()
		})
	}
	w.Sample = fmt.Sprintf("%d datagrams, %d sockets, permille loss %d dup %d reorder %d truncate %d corrupt %d", total, socks, loss, dup, reord, trunc, corr)
	for i, s := range ss {
		s := s
		yield := t.Bool()
		w.Go(fmt.Sprintf("socket%d", i), func() {
			buf := make([]byte, 1<<17)
			k := &keeper{w: w}
			for {
				for len(s.q) == 0 {
					if pending == 0 {
						k.check("after the last datagram")
						return
					}
					s.wait = w.Cur()
					w.Park("datagram")
				}
				g := s.q[0]
				s.q = s.q[1:]
				n := copy(buf, g.data)
				w.EvBytes("datagram", i, g.data)
				w.Inc("op")
				for rep := 0; rep < 1+t.Weighted(3, 1); rep++ {
					v := judgeGram(w, g, buf[:n], yield)
					if !owned(v) || !spoil(w, v) {
						k.keep(v)
					}
				}
				for i := range buf[:n] {
					buf[i] = 0xA5
				}
				if t.Chance(200) {
					k.check("after later datagrams")
				}
			}
		})
	}
	finish(w, "exchanging datagrams")
}

// judgeGram decodes a received datagram and compares the result with what the
// property allows. It returns the decoded value or error.
func judgeGram(w *World, g *gram, b []byte, yield bool) any {
	var got, alone2 string
	var err, err2 error
	var v any
	fresh := append([]byte(nil), b...)
	if g.proto == 0 {
		dec := g.cs.decoder()
		if yield {
			dec = g.cs.yieldDecoder(w)
		}
		var m nmdc.Message
		if m, err = nmdc.Unmarshal(dec, b); err == nil {
			v, got = m, canon(m)
		}
		if m, err2 = alone(g.cs, 32, fresh); err2 == nil {
			alone2 = canon(m)
		}
	} else {
		var p adc.Packet
		if p, err = adc.DecodePacket(b); err == nil {
			v, got = p, canon(p)
		}
		if p, err2 = adc.DecodePacketRaw(fresh); err2 == nil {
			if err2 = p.DecodeMessage(); err2 == nil {
				alone2 = canon(p)
			}
		}
	}
	switch {
	case g.damage == 0 || g.damage == 'm' && g.proto == 0:
		if err != nil {
			w.Fail("intact-rejected", "the intact datagram %s is rejected: %v", q(b), err)
		}
		if got != g.want {
			w.Fail("intact-altered", "the intact datagram %s gives %s, sent was %s", q(b), short(got), short(g.want))
		}
	case g.damage == 't':
		if err == nil {
			w.Fail("truncated-accepted", "the truncated datagram %s is accepted as %s, sent was %s", q(b), short(got), short(g.want))
		}
		w.Inc("probe.truncated_rejected")
	default:
		if (err == nil) != (err2 == nil) || got != alone2 {
			w.Fail("inconsistent", "the damaged datagram %s gives %s (%v), on its own it gives %s (%v)", q(fresh), short(got), err, short(alone2), err2)
		}
		// a line end inside a datagram is neither required to be an error nor
		// to be part of a parameter
		if err == nil && g.proto == 1 && bytes.IndexByte(fresh, '\n') == len(fresh)-1 {
			h := parseHead(string(fresh))
			if h.bad {
				w.Fail("damaged-accepted", "the damaged datagram %s has a malformed header but is accepted as %s", q(fresh), short(got))
			}
			if u, ok := v.(*adc.UDPPacket); ok && !h.unsure {
				if d := ownADC(h.pay, u.Msg); d != "" {
					w.Fail("damaged-altered", "the damaged datagram %s gives %s: %s", q(fresh), short(got), d)
				}
			}
			if !h.unsure {
				p := h.packet()
				if e := p.DecodeMessage(); e != nil || canon(p) != got {
					w.Fail("damaged-altered", "the damaged datagram %s gives %s, its bytes say %s (%v)", q(fresh), short(got), short(canon(p)), e)
				}
			}
		}
		if err == nil && g.proto == 0 {
			checkNMDCBytes(w, fresh, v)
		}
		if err == nil {
			w.Inc("probe.damaged_accepted")
		} else {
			w.Inc("probe.damaged_rejected")
		}
	}
	if err != nil {
		return err
	}
	return v
}

// checkNMDCBytes compares the kind of a decoded message with the received bytes.
func checkNMDCBytes(w *World, b []byte, v any) {
	i := bytes.IndexByte(b, '|')
	if i < 0 {
		w.Fail("damaged-accepted", "the datagram %s has no end but is accepted", q(b))
		return
	}
	for i == 0 { // keep-alives before the message
		b = b[1:]
		if i = bytes.IndexByte(b, '|'); i < 0 {
			return
		}
	}
	typ, args := splitCmd(b[:i+1])
	m := v.(nmdc.Message)
	if b[0] != '$' {
		typ = ""
	}
	if m.Type() != typ {
		w.Fail("damaged-altered", "the datagram %s is decoded as a %q message", q(b), m.Type())
	}
	if rm, ok := m.(*nmdc.RawMessage); ok && (!bytes.Equal(rm.Data, args) || strings.ContainsAny(rm.Typ, " |")) {
		w.Fail("damaged-altered", "the datagram %s is decoded as %s", q(b), short(canon(m)))
	}
	if d := ownNMDC(string(args), m); d != "" {
		w.Fail("damaged-altered", "the datagram %s is decoded as %s: %s", q(b), short(canon(m)), d)
	}
}

// digits parses a plain number.
func digits(s string) (uint64, bool) {
	if s == "" || len(s) > 9 || strings.Trim(s, "0123456789") != "" {
		return 0, false
	}
	n, err := strconv.ParseUint(s, 10, 64)
	return n, err == nil
}

func isTTH(s string) bool {
	return len(s) == 39 && strings.ContainsRune("AIQY", rune(s[38])) && strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567") == ""
}

// ownNMDC parses a search or result on its own and tells how an accepted
// message differs from the text; it gives no answer on doubtful text.
func ownNMDC(args string, m nmdc.Message) string {
	if sr, ok := m.(*nmdc.SR); ok && sr.TTH != nil {
		// hashes mean the same in all encodings
		for _, p := range strings.Split(args, "\x05") {
			if h, _, ok := strings.Cut(p, " ("); ok && strings.HasPrefix(h, "TTH:") && len(h) != 4+39 && strings.Count(args, "TTH:") == 1 {
				return fmt.Sprintf("the hash is %s, the text %q is none", refBase32(sr.TTH[:]), h)
			}
		}
	}
	for i := 0; i < len(args); i++ {
		if args[i] < ' ' && args[i] != 5 || args[i] > '~' || args[i] == '&' {
			return ""
		}
	}
	if strings.Contains(args, "/%DCN") {
		return ""
	}
	bad := ""
	is := func(what string, got, want any) {
		if got != want && bad == "" {
			bad = fmt.Sprintf("%s is %v, the text says %v", what, got, want)
		}
	}
	num := func(what string, got uint64, text string) {
		if n, ok := digits(text); ok {
			is(what, got, n)
		}
	}
	whole := func(what string, got uint64, text string) { // nothing but a number
		n, err := strconv.ParseUint(text, 10, 64)
		if err != nil {
			is(what, got, fmt.Sprintf("%q, which is no such number", text))
		} else {
			is(what, got, n)
		}
	}
	hash := func(what string, got *nmdc.TTH, text string) {
		if got != nil && len(text) != 39 && text != "" && bad == "" {
			bad = fmt.Sprintf("%s is %s, the text %q is none", what, refBase32(got[:]), text)
		}
		if isTTH(text) {
			if got == nil {
				is(what, "missing", text)
			} else {
				is(what, refBase32(got[:]), text)
			}
		}
	}
	switch m := m.(type) {
	case *nmdc.SR:
		nick, rest, ok := strings.Cut(args, " ")
		parts := strings.Split(rest, "\x05")
		if !ok || len(parts) < 2 {
			return "a result without a name, path or hub was accepted"
		}
		is("the name", m.From, nick)
		path, slots := parts[0], ""
		i := strings.LastIndexByte(path, ' ')
		tail := path[i+1:]
		fr, tot, cut := strings.Cut(tail, "/")
		_, ok1 := digits(fr)
		_, ok2 := digits(tot)
		switch {
		case i > 0 && cut && ok1 && ok2:
			is("the kind", m.IsDir, true)
			path, slots = path[:i], tail
			is("the size", m.Size, uint64(0))
			parts = parts[1:]
		case path == "" || !strings.ContainsAny(path[len(path)-1:], "0123456789/"):
			is("the kind", m.IsDir, false)
			if len(parts) < 3 {
				return "a file without a size or hub was accepted"
			}
			sz, sl, ok := strings.Cut(parts[1], " ")
			if !ok {
				return "a file without slots was accepted"
			}
			num("the size", m.Size, sz)
			slots = sl
			parts = parts[2:]
		default:
			return bad
		}
		is("the path", strings.Join(m.Path, "\\"), path)
		fr, tot, _ = strings.Cut(slots, "/")
		num("free slots", uint64(m.FreeSlots), fr)
		num("total slots", uint64(m.TotalSlots), tot)
		hub := parts[0]
		o := strings.LastIndex(hub, " (")
		if o < 0 || strings.IndexByte(hub[o:], ')') != len(hub)-1-o || strings.HasPrefix(hub, "TTH:") && strings.Index(hub, " (") != o || len(parts) > 2 {
			return bad
		}
		c := len(hub) - 1
		is("the hub address", m.HubAddress, hub[o+2:c])
		if strings.HasPrefix(hub, "TTH:") {
			hash("the hash", m.TTH, hub[4:o])
			is("the hub name", m.HubName, "")
		} else {
			is("the hub name", m.HubName, hub[:o])
			is("the hash", m.TTH == nil, true)
		}
		to := ""
		if len(parts) > 1 {
			to = parts[1]
		}
		is("the target", m.To, to)
	case *nmdc.Search:
		who, rest, ok := strings.Cut(args, " ")
		f := strings.SplitN(rest, "?", 5)
		if !ok || len(f) < 5 {
			return "a partial search was accepted"
		}
		if strings.HasPrefix(who, "Hub:") {
			is("the user", m.User, who[4:])
			is("the address", m.Address, "")
		} else {
			is("the address", m.Address, who)
			is("the user", m.User, "")
		}
		if !strings.HasPrefix(f[2], "-") {
			is("the size flag", m.SizeRestricted, f[0] == "T")
			num("the size", m.Size, f[2])
		}
		is("the limit flag", m.IsMaxSize, f[1] == "T")
		n, ok := digits(f[3])
		if !ok {
			return bad
		}
		is("the type", wireOf(dataTypes, int(m.DataType)), int(n))
		if n == 9 {
			if strings.HasPrefix(f[4], "TTH:") {
				hash("the hash", m.TTH, strings.TrimSuffix(f[4][4:], "$"))
			}
			is("the hash", m.TTH != nil, true)
		} else {
			is("the pattern", m.Pattern, strings.ReplaceAll(f[4], "$", " "))
		}
	case *nmdc.TTHSearchActive:
		h, a, ok := strings.Cut(args, " ")
		if !ok {
			return "a partial search was accepted"
		}
		hash("the hash", &m.TTH, h)
		is("the address", m.Address, a)
	case *nmdc.ADCGet:
		f := strings.Split(args, " ")
		if len(f) < 4 {
			return "a partial request was accepted"
		}
		is("the type", string(m.ContentType), f[0])
		is("the identifier", string(m.Identifier), f[1])
		whole("the start", m.Start, f[2])
		if f[3] == "-1" {
			is("the length", m.Length, int64(-1))
		} else {
			whole("the length", uint64(m.Length), f[3])
			is("a length below zero", m.Length < 0, false)
		}
		zl, db := 0, []string{}
		for _, x := range f[4:] {
			if x == "ZL1" {
				zl++
			} else if strings.HasPrefix(x, "DB") {
				db = append(db, x[2:])
			}
		}
		is("compression", m.Compressed, zl > 0)
		if len(db) == 0 {
			is("the downloaded part", m.DownloadedBytes == nil, true)
		} else if len(db) == 1 {
			if m.DownloadedBytes == nil {
				is("the downloaded part", "missing", db[0])
			} else {
				whole("the downloaded part", *m.DownloadedBytes, db[0])
			}
		}
	case *nmdc.ADCSnd:
		f := strings.Split(args, " ")
		if len(f) < 4 {
			return "a partial answer was accepted"
		}
		is("the type", string(m.ContentType), f[0])
		is("the identifier", string(m.Identifier), f[1])
		whole("the start", m.Start, f[2])
		whole("the length", m.Length, f[3])
		if rest := strings.Join(f[4:], " "); rest != "" && rest != "ZL1" {
			is("the rest", "accepted", rest)
		} else {
			is("compression", m.Compressed, rest != "")
		}
	case *nmdc.Direction:
		d, n, ok := strings.Cut(args, " ")
		if !ok || d != "Upload" && d != "Download" {
			return "a wrong direction was accepted"
		}
		is("the direction", m.Upload, d == "Upload")
		if n = strings.Trim(n, " "); n == "" || len(n) > 9 {
			return bad
		}
		whole("the number", uint64(m.Number), n)
		is("a number out of range", m.Number < 1 || m.Number > 32767, false)
	case *nmdc.TTHSearchPassive:
		h, a, ok := strings.Cut(args, " ")
		if !ok {
			return "a partial search was accepted"
		}
		hash("the hash", &m.TTH, h)
		is("the user", m.User, a)
	}
	return bad
}

// ownADC does the same for the commands of the other protocol.
func ownADC(args string, m adc.Message) string {
	pos := 0
	switch m.(type) {
	case adc.ChatMessage, adc.SIDAssign, adc.UserCommand, adc.GetPassword, adc.Password, adc.Disconnect:
		pos = 1
	case adc.GetInfoRequest, adc.RevConnectRequest:
		pos = 2
	case adc.ConnectRequest:
		pos = 3
	case adc.GetRequest, adc.GetResponse:
		pos = 4
	case adc.Status, adc.UserInfo, adc.Supported, adc.SearchRequest, adc.SearchResult:
	default:
		return ""
	}
	fs := strings.Split(args, " ")
	if len(fs) < pos {
		return fmt.Sprintf("%d mandatory parameters are missing", pos-len(fs))
	}
	named := map[string][]string{}
	doubtful := false
	for _, p := range fs[pos:] {
		if len(p) < 2 {
			doubtful = true
			continue
		}
		named[p[:2]] = append(named[p[:2]], p[2:])
	}
	bad := ""
	is := func(what string, got, want any) {
		if got != want && bad == "" {
			bad = fmt.Sprintf("%s is %v, the text says %v", what, got, want)
		}
	}
	str := func(tag, got string) {
		if v := named[tag]; len(v) == 1 {
			is(tag, got, aunesc(v[0]))
		} else if v == nil {
			is(tag, got, "")
		}
	}
	number := func(what string, got int64, text string) {
		n, err := strconv.ParseInt(text, 10, 64)
		if text == "" {
			n, err = 0, nil
		}
		if err == nil {
			is(what, got, n)
			return
		}
		f, err := strconv.ParseFloat(text, 64)
		if err != nil || f != math.Trunc(f) || f >= 1<<63 || f < -1<<63 {
			is(what, got, fmt.Sprintf("%q, which is no such number", text))
		} else if math.Abs(f) < 1<<53 {
			is(what, got, int64(f))
		}
	}
	num := func(tag string, got int64) {
		if v := named[tag]; v == nil {
			is(tag, got, int64(0))
		} else if len(v) == 1 {
			number(tag, got, v[0])
		}
	}
	list := func(tag string, got []string) {
		var want []string
		for _, s := range named[tag] {
			want = append(want, aunesc(s))
		}
		is(tag, strings.Join(got, "\n\x00"), strings.Join(want, "\n\x00"))
	}
	digest := func(what string, got *adc.TTH, text string) {
		if got != nil && len(text) != 39 && text != "" && bad == "" {
			bad = fmt.Sprintf("%s is %s, the text %q is none", what, refBase32(got[:]), text)
		} else if isTTH(text) {
			if got == nil {
				is(what, "missing", text)
			} else {
				is(what, refBase32(got[:]), text)
			}
		}
	}
	hash := func(tag string, got *adc.TTH) {
		if v := named[tag]; v == nil {
			is(tag, got == nil, true)
		} else if len(v) == 1 {
			digest(tag, got, v[0])
		}
	}
	sid := func(what string, got adc.SID, text string) {
		if len(text) != 4 {
			is(what, string(got[:]), fmt.Sprintf("%q, which is no session id", text))
		} else {
			is(what, string(got[:]), text)
		}
	}
	switch m := m.(type) {
	case adc.ChatMessage:
		is("the text", m.Text, aunesc(fs[0]))
		if v := named["PM"]; v == nil {
			is("PM", m.PM == nil, true)
		} else if len(v) == 1 && v[0] != "" {
			if m.PM == nil {
				is("PM", "missing", v[0])
			} else {
				sid("PM", *m.PM, v[0])
			}
		}
		if v := named["ME"]; v == nil {
			is("ME", m.Me, false)
		} else if len(v) == 1 && (v[0] == "0" || v[0] == "1") {
			is("ME", m.Me, v[0] == "1")
		}
		num("TS", m.TS)
	case adc.UserInfo:
		for _, tag := range sortedKeys(infoStr) {
			str(tag, *infoStr[tag](&m))
		}
		for _, tag := range sortedKeys(infoNum) {
			v := named[tag]
			n := int64(0)
			switch {
			case len(v) == 1:
				x, ok := digits(v[0])
				if !ok || tag == "CT" && x > 127 || tag == "AW" && x > 2 {
					continue
				}
				n = int64(x)
			case v != nil:
				continue
			}
			x := m
			infoNum[tag](&x, n)
			if bad == "" && canon(x) != canon(m) {
				bad = fmt.Sprintf("%s is not %d in %s", tag, n, short(canon(m)))
			}
		}
		hash("PD", (*adc.TTH)(m.Pid))
		if v := named["ID"]; v == nil {
			is("ID", m.Id, adc.CID{})
		} else if len(v) == 1 {
			digest("ID", (*adc.TTH)(&m.Id), v[0])
		}
		if v := named["SU"]; v == nil || len(v) == 1 {
			var got, want []string
			for _, f := range m.Features {
				got = append(got, string(f[:]))
			}
			if v != nil && v[0] != "" {
				want = strings.Split(v[0], ",")
			}
			is("SU", strings.Join(got, ","), strings.Join(want, ","))
		}
	case adc.Supported:
		want := map[string]bool{}
		for _, s := range named["RM"] {
			want[s] = false
		}
		for _, s := range named["AD"] {
			if _, ok := want[s]; ok {
				return "" // added and removed at once
			}
			want[s] = true
		}
		is("the number of features", len(m.Features), len(want))
		for _, f := range sortedKeys(want) {
			if len(f) != 4 {
				is("a feature", "accepted", fmt.Sprintf("%q", f))
				break
			}
			got, ok := m.Features[adc.Feature([]byte(f))]
			is(f, fmt.Sprint(got, ok), fmt.Sprint(want[f], true))
		}
	case adc.Status:
		code, text, _ := strings.Cut(args, " ")
		if n, err := strconv.Atoi(code); err != nil {
			is("the code", m.Code, fmt.Sprintf("%q, which is no such number", code))
		} else if n >= 0 && n < 300 {
			is("the severity", int(m.Sev), n/100)
			is("the code", m.Code, n%100)
		}
		is("the text", m.Msg, aunesc(text))
	case adc.SIDAssign:
		if len(fs) == 1 {
			sid("the id", m.SID, fs[0])
		}
	case adc.UserCommand:
		if fs[0] != "" && !strings.HasPrefix(fs[0], "/") && !strings.HasSuffix(fs[0], "/") && !strings.Contains(fs[0], "//") {
			var want []string
			for _, s := range strings.Split(fs[0], "/") {
				want = append(want, aunesc(s))
			}
			is("the path", strings.Join(m.Path, "\n\x00"), strings.Join(want, "\n\x00"))
		}
		str("TT", m.Command)
		num("RM", int64(m.Remove))
		num("CO", int64(m.Constrained))
		num("SP", int64(m.Separator))
	case adc.GetPassword:
		if want, err := b32.DecodeString(args); err == nil && b32.EncodeToString(want) == args {
			is("the salt", string(m.Salt), string(want))
		}
	case adc.Password:
		digest("the hash", &m.Hash, fs[0])
	case adc.Disconnect:
		if fs[0] != "" { // an empty value is no id
			sid("the id", m.ID, fs[0])
		}
		str("MS", m.Message)
		str("RD", m.Redirect)
		num("TL", int64(m.Duration))
		if v := named["ID"]; v == nil {
			is("ID", m.By, adc.SID{})
		} else if len(v) == 1 && v[0] != "" {
			sid("ID", m.By, v[0])
		}
	case adc.GetInfoRequest:
		is("the type", m.Type, aunesc(fs[0]))
		is("the path", m.Path, aunesc(fs[1]))
	case adc.RevConnectRequest:
		is("the protocol", m.Proto, aunesc(fs[0]))
		is("the token", m.Token, aunesc(fs[1]))
	case adc.ConnectRequest:
		is("the protocol", m.Proto, aunesc(fs[0]))
		number("the port", int64(m.Port), fs[1])
		is("the token", m.Token, aunesc(fs[2]))
	case adc.GetRequest:
		bad = ownGet(fs, m)
	case adc.GetResponse:
		bad = ownGet(fs, adc.GetRequest(m))
	case adc.SearchResult:
		str("TO", m.Token)
		str("FN", m.Path)
		num("SI", m.Size)
		num("SL", int64(m.Slots))
		hash("TR", m.TTH)
	case adc.SearchRequest:
		str("TO", m.Token)
		list("AN", m.And)
		list("NO", m.Not)
		list("EX", m.Ext)
		list("RX", m.NoExt)
		num("LE", m.Le)
		num("GE", m.Ge)
		num("EQ", m.Eq)
		hash("TR", m.TTH)
	}
	if doubtful && pos == 0 {
		return ""
	}
	return bad
}

func ownGet(fs []string, m adc.GetRequest) string {
	rest := ""
	if len(fs) > 4 {
		rest = strings.Join(fs[4:], " ")
	}
	want := adc.GetRequest{Type: aunesc(fs[0]), Path: aunesc(fs[1]), Compressed: rest == "ZL1"}
	var err error
	if want.Start, err = strconv.ParseInt(fs[2], 10, 64); err != nil {
		return fmt.Sprintf("the start is %d, the text is %q", m.Start, fs[2])
	}
	if want.Bytes, err = strconv.ParseInt(fs[3], 10, 64); err != nil {
		return fmt.Sprintf("the size is %d, the text is %q", m.Bytes, fs[3])
	}
	if want != m {
		return fmt.Sprintf("the request is %s, the text gives %s", short(canon(m)), short(canon(want)))
	}
	return ""
}
