package props

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"reflect"
	"slices"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C17", Quick: 300000, Thorough: 3000000,
		Rule: "Two families of runs. Readers of both protocols on one or two connections keep every message, packet and error they return or hand to a message hook and compare them again while more is read, after the end and after close; the transport scribbles over the spare part of read buffers. Several writers, scheduled against each other inside conversions and blocked transports, encode shared messages whose slices have poisoned spare capacity, and private messages and raw buffers that the caller overwrites as soon as the call returned; messages and spare capacity must stay untouched and every wire must hold the bytes of the original values.",
		Real: []string{"nmdc.Reader", "nmdc.Writer", "adc.Reader", "adc.Writer", "nmdc and adc messages", "lineproto", "compress/zlib", "golang.org/x/text"},
		Stub: []string{"transport (simulated pipes)", "clock", "peer (recorded wire bytes)"},
		Run: func(w *World) {
			switch w.T.Weighted(4, 4, 1) {
			case 0:
				runRetainRead(w)
			case 1:
				runRetainWrite(w)
			default:
				runRetainBuffer(w)
			}
		},
	})
}

// keeper holds values handed out by the library with a snapshot of each.
type keeper struct {
	w    *World
	v    []any
	want []string
	from int
}

func (k *keeper) keep(v any) {
	if v == nil || len(k.v) > 60 {
		return
	}
	k.v = append(k.v, v)
	k.want = append(k.want, canon(v))
	if e, ok := v.(*nmdc.ErrUnexpectedCommand); ok { // its text does not show the message
		k.keep(e.Received)
	}
}

// owned says that a kept value is a message or packet that can be told apart.
func owned(v any) bool {
	switch v.(type) {
	case nmdc.Message, adc.Packet, adc.Message:
		return reflect.ValueOf(v).Kind() == reflect.Ptr
	}
	return false
}

func (k *keeper) check(when string) {
	if len(k.v) > 0 && k.w.T.Chance(100) {
		consult(reflect.ValueOf(k.v[k.w.T.Intn(len(k.v))]), 0)
		k.w.Inc("probe.consulted")
	}
	if n := len(k.v); n > 0 {
		if x := k.v[k.w.T.Intn(n)]; owned(x) && spoil(k.w, x) {
			for i := n - 1; i >= 0; i-- { // a hook may have been given it too
				e, ok := k.v[i].(*nmdc.ErrUnexpectedCommand) // names the message's command
				if k.v[i] == x || ok && e.Received == x {
					k.v, k.want = slices.Delete(k.v, i, i+1), slices.Delete(k.want, i, i+1)
				}
			}
		}
	}
	for i, v := range k.v {
		if got := canon(v); got != k.want[i] {
			k.w.Fail("altered-later", "%s: value %d of %d is now %s, it was %s", when, i, len(k.v), short(got), short(k.want[i]))
		}
	}
	k.w.Add("probe.rechecks", int64(len(k.v)))
}

func runRetainRead(w *World) {
	t := w.T
	for c, n := 0, 1+t.Weighted(3, 1); c < n; c++ {
		t.Begin()
		retainSession(w, c)
		t.End()
	}
	finish(w, "reading")
}

func retainSession(w *World, id int) {
	t := w.T
	h := &hostile{t: t, proto: t.Intn(2)}
	cs := charsets[t.Weighted(4, 1, 1, 1, 1)]
	h.n = &ngen{t: t, cs: cs, big: t.Chance(50)}
	h.a = &agen{t: t, big: t.Chance(50)}
	var wire, said []byte
	for i, n := 0, 2+t.Intn(12); i < n; i++ {
		t.Begin()
		var b []byte
		switch t.Weighted(6, 2, 2) {
		case 0:
			b = h.valid()
		case 1:
			if h.proto == 0 {
				b = append([]byte(badLines[t.Intn(len(badLines))]), '|')
			} else {
				b = append([]byte(badPackets[t.Intn(len(badPackets))]), '\n')
			}
		case 2:
			b = mutateBytes(t, h.valid(), h.delim(), " $<>\\:/,|")
		}
		if i > 0 && t.Chance(100) { // the same again
			b = said
		}
		said = b
		wire = append(wire, b...)
		t.End()
	}
	z := t.Chance(300)
	if z {
		wire = compressSection(t, wire, drawLevel(t))
	}
	prof := w.DrawNet()
	prof.Scribble = t.Chance(800)
	prof.CutAt = -1
	if t.Chance(150) {
		prof.CutAt, prof.CutErr = t.Intn(len(wire)+1), ErrReset
	}
	prof.Tame(len(wire))
	p := w.NewPipe(id, prof)
	if id == 0 {
		w.Sample = fmt.Sprintf("reading: proto %d charset %s zlib %v %s", h.proto, cs.name, z, q(wire))
	}
	feeder(w, p, wire)
	mode := t.Intn(4)
	w.Go(fmt.Sprintf("reader%d", id), func() {
		defer p.CloseRead()
		k := &keeper{w: w}
		var lr *lineproto.Reader
		var nr *nmdc.Reader
		var ar *adc.Reader
		if h.proto == 0 {
			nr = nmdc.NewReader(p)
			lr = nr.Reader
			nr.SetDecoder(cs.decoder())
			if t.Chance(300) {
				nr.OnMessage(func(m nmdc.Message) (bool, error) {
					if mode < 2 { // a target of the caller is decoded into again after a drop
						k.keep(m)
					}
					return !t.Chance(200), nil
				})
			}
			if t.Chance(300) {
				nr.OnUnmarshalError = func(text []byte, err error) (bool, error) { k.keep(err); return t.Bool(), err }
			}
			if t.Chance(300) { // a hook may use its arguments as scratch only until it returns
				nr.OnRawMessage(func(cmd, args []byte) (bool, error) { k.keep(string(cmd) + string(args)); return true, nil })
			}
		} else {
			ar = adc.NewReader(p)
			lr = ar.Reader
		}
		lr.SetMaxLine(0)
		if z {
			if lr.EnableZlib() != nil {
				return
			}
		}
		errs := 0
		for i := 0; i < 200 && errs < 40; i++ {
			var v any
			var err error
			w.Inc("op")
			switch {
			case h.proto == 0 && mode < 2:
				v, err = nr.ReadMsg()
			case h.proto == 0:
				var l []nmdc.Message
				for j := 0; j < 1+t.Intn(3); j++ {
					l = append(l, nmdc.NewMessage(ntypes[t.Intn(len(ntypes))]))
				}
				if mode == 2 {
					v, err = l[0], nr.ReadMsgTo(l[0])
				} else {
					v, err = nr.ReadMsgToAny(l...)
				}
			case mode == 0:
				v, err = ar.ReadPacket()
			case mode == 1:
				var pk adc.Packet
				if pk, err = ar.ReadPacketRaw(); err == nil {
					to := newLike(pk.Message())
					if reg, e := adc.UnmarshalMessage(pk.Message().Cmd(), nil); e == nil {
						to = newLike(reg)
					}
					raw, before := pk.Message(), canon(pk)
					if t.Bool() {
						err = pk.DecodeMessage()
						v = pk
					} else if err = pk.DecodeMessageTo(to); err == nil {
						v = to
					}
					pk.SetMessage(raw)
					if c := canon(pk); c != before {
						w.Fail("input-altered", "decoding the command of a packet (%v) changed the packet from %s to %s", err, short(before), short(c))
					}
					if err == nil && v == pk {
						err = pk.DecodeMessage()
					}
				}
			case mode == 2:
				v, err = ar.ReadInfo()
			default:
				v, err = ar.ReadClient()
			}
			if err != nil {
				errs++
				k.keep(err)
				if err == io.EOF || err == ErrReset || err == io.ErrUnexpectedEOF {
					break
				}
			} else {
				k.keep(v)
			}
			if t.Chance(300) {
				k.check("while reading")
			}
			if t.Chance(200) {
				w.Yield()
			}
		}
		k.check("at the end")
		_ = lr.Close()
		k.check("after close")
	})
}

// runRetainBuffer decodes from buffers that the caller owns: they are not
// changed, and what was decoded does not change with them.
func runRetainBuffer(w *World) {
	t := w.T
	h := &hostile{t: t, proto: t.Intn(2)}
	cs := charsets[t.Weighted(4, 1, 1, 1, 1)]
	h.n = &ngen{t: t, cs: cs, big: t.Chance(50)}
	h.a = &agen{t: t, big: t.Chance(50)}
	w.Sample = fmt.Sprintf("buffers: proto %d charset %s", h.proto, cs.name)
	w.Go("caller", func() {
		k := &keeper{w: w}
		buf := make([]byte, 0, 64<<10) // received datagrams, one after the other
		for i, n := 0, 1+t.Intn(8); i < n; i++ {
			t.Begin()
			line := h.valid()
			if t.Chance(200) {
				line = mutateBytes(t, line, h.delim(), " $<>\\:/,|")
			}
			t.End()
			if len(line) > cap(buf)-64 {
				continue
			}
			w.Inc("op")
			full := append(buf[:0], line...)
			tail := t.Intn(64)
			for j := 0; j < tail; j++ {
				full = append(full, 0xEE)
			}
			orig := append([]byte(nil), full...)
			data := full[:len(line)]
			var v any
			var err error
			what := ""
			switch how := t.Intn(3); {
			case h.proto == 0 && how == 0:
				what = "nmdc.Unmarshal"
				v, err = nmdc.Unmarshal(cs.decoder(), data)
			case h.proto == 0:
				what = "UnmarshalNMDC"
				c := bytes.TrimSuffix(data, []byte("|"))
				typ := ""
				if bytes.HasPrefix(c, []byte("$")) {
					i := bytes.IndexByte(c, ' ')
					if i < 0 {
						i = len(c)
					}
					typ, c = string(c[1:i]), c[min(i+1, len(c)):]
				}
				m := nmdc.NewMessage(typ)
				if typ == "" {
					m = &nmdc.ChatMessage{}
				}
				v, err = m, m.UnmarshalNMDC(cs.decoder(), c)
			case how == 0:
				what = "adc.DecodePacket"
				v, err = adc.DecodePacket(data)
			default:
				what = "Decode"
				var pk adc.Packet
				if pk, err = adc.DecodePacketRaw(data); err == nil {
					raw := pk.Message().(*adc.RawMessage)
					if v, err = raw.Decode(); err == nil && t.Bool() {
						// decoding is repeatable
						again, err2 := raw.Decode()
						if err2 != nil || canon(again) != canon(v) {
							w.Fail("input-altered", "decoding %s again gives %s (%v), first it gave %s", q(line), short(canon(again)), err2, short(canon(v)))
						}
					}
				}
			}
			if j := firstDiff(full, orig); j >= 0 {
				w.Fail("input-altered", "%s of %s changed the buffer at %d to %s", what, q(orig), j, q(full))
			}
			if err == nil {
				k.keep(v)
			} else {
				k.keep(err)
			}
			for j := range full {
				full[j] = 0x5A
			}
			k.check("after the buffer of " + what + " was overwritten")
			w.Yield()
		}
	})
	finish(w, "decoding")
}

// guard remembers the full capacity of every slice of a value.
type guard struct {
	v    any
	want string
	full []reflect.Value
	text []string
}

// newGuard gives the slices of a value poisoned spare capacity and records it.
func newGuard(t *Tape, v any) *guard {
	g := &guard{v: v}
	g.pad(t, reflect.ValueOf(v), 0)
	g.want = canon(v)
	for _, f := range g.full {
		g.text = append(g.text, canon(f.Interface()))
	}
	return g
}

func (g *guard) pad(t *Tape, v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			g.pad(t, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				g.pad(t, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+1+t.Intn(20), n+32)
		reflect.Copy(s, v)
		for i := n; i < s.Len(); i++ {
			switch s.Type().Elem().Kind() {
			case reflect.Uint8:
				s.Index(i).SetUint(0xEE)
			case reflect.String:
				s.Index(i).SetString("spare")
			}
		}
		g.full = append(g.full, s.Slice(0, s.Len()))
		v.Set(s.Slice3(0, n, s.Len()))
		for i := 0; i < n; i++ {
			g.pad(t, v.Index(i), depth+1)
		}
	}
}

func (g *guard) problem() string {
	if got := canon(g.v); got != g.want {
		return "the message is now " + short(got) + ", it was " + short(g.want)
	}
	for i, f := range g.full {
		if got := canon(f.Interface()); got != g.text[i] {
			return fmt.Sprintf("memory beyond a slice of the message was overwritten: %s, was %s (message %s)", short(got), short(g.text[i]), short(g.want))
		}
	}
	return ""
}

// consult asks a value and its fields for everything they tell without
// arguments, which does not change them.
func consult(v reflect.Value, depth int) {
	if depth > 3 || !v.IsValid() || !v.CanInterface() {
		return
	}
	if l, ok := v.Interface().(*nmdc.Lock); ok && l != nil {
		l.LockString(true)
		l.CustomKey(7, true)
	}
	if v.Kind() != reflect.Ptr && v.CanAddr() {
		v = v.Addr()
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	for i, n := 0, v.NumMethod(); i < n; i++ {
		switch v.Type().Method(i).Name {
		case "DecodeMessage", "Normalize", "TreeHash": // change the value, or need one
			continue
		}
		if m := v.Method(i); m.Type().NumIn() == 0 {
			m.Call(nil)
		}
	}
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() == reflect.Interface {
		consult(v.Elem(), depth)
	}
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			consult(v.Field(i), depth+1)
		}
	}
}

// scribble overwrites everything reachable in a value.
func scribble(v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("overwritten")
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0x5A)
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(0x5A)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if v.Type().Elem().Kind() == reflect.String {
				v.SetMapIndex(k, reflect.ValueOf("overwritten"))
			} else {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	}
}

// spoil sometimes changes a delivered value, which belongs to the application.
func spoil(w *World, v any) bool {
	if !w.T.Chance(150) {
		return false
	}
	scribble(reflect.ValueOf(v), 0)
	w.Inc("probe.spoiled")
	return true
}

// loosen makes a message less tidy: some fields are left out, lists are
// turned around or name something twice.
func loosen(t *Tape, v reflect.Value, depth int) {
	if depth > 3 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			loosen(t, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				loosen(t, v.Field(i), depth+1)
			}
		}
	}
	if !v.CanSet() || depth == 0 || !t.Chance(200) {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		n := v.Len()
		if n == 0 || v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		s := reflect.MakeSlice(v.Type(), 0, n+1)
		for i := n - 1; i >= 0; i-- {
			s = reflect.Append(s, v.Index(i))
		}
		if t.Bool() {
			s = reflect.Append(s, s.Index(t.Intn(n)))
		}
		v.Set(s)
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Uint32, reflect.Map, reflect.Ptr:
		v.Set(reflect.Zero(v.Type()))
	}
}

// rmsg is a message or packet with its encoding.
type rmsg struct {
	g *guard
	n nmdc.Message
	a *apkt
	b []byte
}

func runRetainWrite(w *World) {
	t := w.T
	proto := t.Weighted(2, 2, 1) // nmdc, adc, raw lines
	cs := charsets[t.Weighted(2, 1, 1, 1, 1)]
	ng := &ngen{t: t, cs: cs, big: t.Chance(50)}
	ag := &agen{t: t, big: t.Chance(50)}
	encodeN := func(m nmdc.Message) ([]byte, error) { return nmdc.Marshal(cs.encoder(), m) }
	encodeA := func(p adc.Packet) ([]byte, error) {
		var buf bytes.Buffer
		aw := adc.NewWriter(&buf)
		if err := aw.WritePacket(p); err != nil {
			return nil, err
		}
		if err := aw.Flush(); err != nil {
			return nil, err
		}
		return buf.Bytes(), nil
	}
	draw := func() *rmsg {
		t.Begin()
		defer t.End()
		for {
			m := &rmsg{}
			loose := t.Chance(400)
			var b []byte
			var err error
			if proto == 0 {
				m.n = ng.msg()
				if loose {
					loosen(t, reflect.ValueOf(m.n), 0)
				}
				m.g = newGuard(t, m.n)
				b, err = encodeN(m.n)
			} else {
				switch t.Weighted(8, 1, 1, 1) {
				case 0:
					m.a = ag.apacket()
				case 1:
					fm, e := ag.fields()
					m.a = ag.wrap(fm, e, adcAll)
				case 2:
					um, e := ag.update()
					m.a = ag.wrap(um, e, adcAll)
				case 3:
					hm, e := ag.hubInfo()
					m.a = ag.wrap(hm, e, "IB")
				}
				pm := ptrTo(m.a.want.Message())
				if loose {
					loosen(t, reflect.ValueOf(pm), 0)
				}
				m.a.pkt.SetMessage(pm)
				m.g = newGuard(t, m.a.pkt)
				b, err = encodeA(m.a.pkt)
			}
			if err != nil && !loose {
				panic(err)
			}
			if s := m.g.problem(); s != "" {
				w.Fail("input-altered", "encoding (%v): %s", err, s)
			}
			if t.Chance(100) {
				consult(reflect.ValueOf(m.g.v), 0)
				w.Inc("probe.consulted")
				if s := m.g.problem(); s != "" {
					w.Fail("input-altered", "asking the message for what it stands for: %s", s)
				}
			}
			if err == nil {
				m.b = append([]byte(nil), b...)
				return m
			}
			w.Inc("probe.unencodable")
		}
	}
	check := func(m *rmsg, when string) {
		if s := m.g.problem(); s != "" {
			w.Fail("input-altered", "%s: %s", when, s)
		}
	}
	var shared []*rmsg
	if proto < 2 {
		for i, n := 0, 1+t.Intn(5); i < n; i++ {
			shared = append(shared, draw())
			check(shared[i], "encoding once")
		}
	}
	nw := 1 + t.Weighted(3, 3, 1)
	w.Sample = fmt.Sprintf("writing: proto %d charset %s %d shared %d writers", proto, cs.name, len(shared), nw)
	for c := 0; c < nw; c++ {
		t.Begin()
		prof := w.DrawNet()
		prof.CutAt = -1
		prof.Tame(60000)
		p := w.NewPipe(c, prof)
		z := t.Chance(300)
		lvl := drawLevel(t)
		nops := 1 + t.Intn(8)
		bufsz := []int{0, 16, 64, 4096}[t.Intn(4)]
		t.End()
		drain(w, p, false)
		w.Go(fmt.Sprintf("writer%d", c), func() {
			var want []byte
			var lw *lineproto.Writer
			var nwr *nmdc.Writer
			var awr *adc.Writer
			switch proto {
			case 0:
				nwr = nmdc.NewWriter(p)
				if bufsz > 0 {
					nwr = nmdc.NewWriterSize(p, bufsz)
				}
				lw = nwr.Writer
				nwr.SetEncoder(cs.yieldEncoder(w))
			case 1:
				awr = adc.NewWriter(p)
				if bufsz > 0 {
					awr = adc.NewWriterSize(p, bufsz)
				}
				lw = awr.Writer
			default:
				lw = lineproto.NewWriter(p)
				if bufsz > 0 {
					lw = lineproto.NewWriterSize(p, bufsz)
				}
			}
			if t.Chance(200) {
				lw.OnLine(func(line []byte) (bool, error) { w.Yield(); return true, nil })
			}
			chk := func(err error, what string) {
				if err != nil {
					w.Fail("error", "%s failed on a healthy connection: %v", what, err)
				}
			}
			if z {
				chk(lw.EnableZlibLevel(lvl), "EnableZlibLevel")
			}
			for i := 0; i < nops; i++ {
				w.Inc("op")
				kind := t.Weighted(4, 2, 2, 2, 2)
				if proto == 2 && kind < 2 {
					kind = 3
				}
				switch kind {
				case 0: // shared messages
					var l []nmdc.Message
					var ms []*rmsg
					for j := 0; j < 1+t.Intn(3); j++ {
						m := shared[t.Intn(len(shared))]
						ms = append(ms, m)
						l = append(l, m.n)
						want = append(want, m.b...)
						if proto == 1 {
							chk(ag.write(awr, m.a.pkt), "writing a packet")
						}
					}
					if proto == 0 {
						arg := append(l, nil)
						chk(nwr.WriteMsg(arg[:len(l)]...), "WriteMsg")
						for j, m := range ms {
							if arg[j] != m.n {
								w.Fail("input-altered", "WriteMsg changed the list of messages passed to it")
							}
						}
					}
					for _, m := range ms {
						check(m, "after writing")
					}
				case 1: // a private message, overwritten after the call
					m := draw()
					want = append(want, m.b...)
					if proto == 0 {
						chk(nwr.WriteMsg(m.n), "WriteMsg")
					} else {
						chk(awr.WritePacket(m.a.pkt), "WritePacket")
					}
					check(m, "after writing")
					scribble(reflect.ValueOf(m.g.v), 0)
					w.Inc("probe.overwritten")
				case 2: // encode aside
					if proto == 2 {
						break
					}
					m := shared[t.Intn(len(shared))]
					var got []byte
					if proto == 0 {
						if t.Bool() {
							b, err := nmdc.Marshal(cs.yieldEncoder(w), m.n)
							chk(err, "Marshal")
							got = b
						} else {
							buf := bytes.NewBufferString("before")
							chk(nmdc.MarshalTo(cs.yieldEncoder(w), buf, m.n), "MarshalTo")
							if !bytes.HasPrefix(buf.Bytes(), []byte("before")) {
								w.Fail("buffer", "MarshalTo changed what was in the buffer: %s", q(buf.Bytes()))
							}
							got = bytes.TrimPrefix(buf.Bytes(), []byte("before"))
						}
					} else {
						b, err := encodeA(m.a.pkt)
						chk(err, "encoding a packet")
						got = b
					}
					if !bytes.Equal(got, m.b) {
						w.Fail("encoding-changed", "encoding a message again gives %s, first it gave %s", q(got), q(m.b))
					}
					check(m, "after encoding")
					w.Inc("probe.reencoded")
				case 3: // a raw line or block
					d := byte('\n')
					if proto == 0 {
						d = '|'
					}
					n := drawLineLen(t) % 5000
					full := append(lineData(t, d, n), d)
					full = append(full, t.Blob(1+t.Intn(40), "")...)
					orig := append([]byte(nil), full...)
					want = append(want, full[:n+1]...)
					if t.Bool() {
						chk(lw.WriteLine(full[:n+1]), "WriteLine")
					} else {
						k, err := lw.Write(full[:n+1])
						chk(err, "Write")
						if k != n+1 {
							w.Fail("short-count", "Write of %d bytes returned %d", n+1, k)
						}
					}
					if i := firstDiff(full, orig); i >= 0 {
						w.Fail("input-altered", "a buffer of %d bytes was changed at %d by writing it", n+1, i)
					}
					for i := range full {
						full[i] = 0x5A
					}
					w.Inc("probe.overwritten")
				case 4:
					chk(lw.Flush(), "Flush")
				}
				if t.Chance(300) {
					w.Yield()
				}
			}
			chk(lw.Close(), "Close")
			p.CloseWrite()
			got := p.Wire
			if z {
				zr, err := zlib.NewReader(bytes.NewReader(p.Wire))
				if err != nil {
					w.Fail("wire", "the wire holds no compressed section: %v", err)
				}
				if got, err = io.ReadAll(zr); err != nil {
					w.Fail("wire", "the compressed section is damaged: %v", err)
				}
			}
			if !bytes.Equal(got, want) {
				i := firstDiff(got, want)
				w.Fail("wire-changed", "the wire differs from the written values at %d: %s, want %s", i, q(got[min(i, len(got)):]), q(want[min(i, len(want)):]))
			}
			for _, m := range shared {
				check(m, "at the end")
			}
		})
	}
	finish(w, "writing")
}
