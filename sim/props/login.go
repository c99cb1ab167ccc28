package props

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	th "github.com/cxmcc/tiger"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C24", Quick: 60000, Thorough: 400000,
		Rule: "A hub with 1 to 4 clients logging in at the same time (NMDC or ADC), or two NMDC clients connecting to each other: drawn locks, answers right or wrong, passwords, names in use, announced and updated extensions, compression, then drawn messages between the users; delays, windows, short reads and connections cut at drawn offsets. Each side records what it concluded; answers, sets and session ids are computed by the library on one side and by independent code on the other.",
		Real: []string{"nmdc.Lock.CustomKey", "nmdc.Supports and nmdc.Extensions", "adc.ModFeatures and adc.ExtFeatures", "adc/types SID, CID and PID", "tiger.HashBytes", "nmdc and adc Reader, Writer and messages", "lineproto", "compress/zlib"},
		Stub: []string{"hub and client logic (scripted)", "transport (simulated connections)", "clock"},
		Run:  runC24,
	})
}

// outbox writes to one connection from a task of its own, so that a slow peer
// never stops the one who queues.
type outbox struct {
	w       *World
	q       []func() error
	closed  bool
	waiting *Task
	err     error
}

func (o *outbox) put(f func() error) {
	if o.closed || o.err != nil {
		return
	}
	o.q = append(o.q, f)
	o.wake()
}

func (o *outbox) close() { o.closed = true; o.wake() }

func (o *outbox) wake() {
	if t := o.waiting; t != nil {
		o.waiting = nil
		o.w.Wake(t)
	}
}

func (o *outbox) run(flush func() error) {
	for o.err == nil {
		if len(o.q) == 0 {
			if o.err = flush(); o.err != nil {
				break
			}
			if len(o.q) != 0 {
				continue
			}
			if o.closed {
				break
			}
			o.waiting = o.w.Cur()
			o.w.Park("outbox")
			continue
		}
		f := o.q[0]
		o.q = o.q[1:]
		o.err = f()
	}
	o.q = nil
}

// peer is one client with what the hub and the client concluded about it.
type peer struct {
	i      int
	cs, hs *Conn
	cut    bool // a connection of this peer is going to be cut

	// plan
	badKey, badPass bool
	noSup           bool
	pass            string // the registered password, "" for none
	nick            string
	alt             string // tried when the nick is taken
	exts            []string
	lib             bool // the client uses the library to compute answers, the hub does not
	script          []lmsg

	// conclusions
	hub, cli         string
	hubName, cliName string
	hubNeg, cliNeg   string
	hubSeen, cliSent []string // what the client sent while it was online
	hubSent, cliSeen []string // what the hub sent while the client was online
	hubAdm           int      // hubSent entries before the admission was queued
	out              *outbox
}

type lmsg struct {
	kind int
	to   int
	text string
	sel  []adc.FeatureSel
	mod  map[string]bool
}

type login struct {
	w     *World
	t     *Tape
	peers []*peer
	open  int // hub readers still running
}

func (l *login) readerDone() {
	l.open--
	if l.open == 0 {
		for _, p := range l.peers {
			p.out.close()
		}
	}
}

// refKey answers a challenge the way the protocol describes it.
func refKey(lock string, magic byte) string {
	n := len(lock)
	if n < 2 {
		return ""
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		var k byte
		if i == 0 {
			k = lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic
		} else {
			k = lock[i] ^ lock[i-1]
		}
		k = k/16 + k%16*16
		switch k {
		case 0, 5, 36, 96, 124, 126:
			fmt.Fprintf(&sb, "/%%DCN%03d%%/", k)
		default:
			sb.WriteByte(k)
		}
	}
	return sb.String()
}

// lockText is the challenge in the form it is answered.
func lockText(m *nmdc.Lock, full bool) string {
	s := m.Lock
	if !m.NoExt {
		s = "EXTENDEDPROTOCOL" + s
	}
	if full {
		if m.PK != "" {
			s += " Pk=" + m.PK
		}
		if m.Ref != "" {
			if m.PK == "" {
				s += " "
			}
			s += "Ref=" + m.Ref
		}
	}
	return s
}

func drawLock(t *Tape) *nmdc.Lock {
	m := &nmdc.Lock{NoExt: t.Chance(200)}
	n := 2 + t.Intn(8)
	if t.Bool() {
		n = 2 + t.Intn(120)
	}
	const printable = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{}~"
	abc := printable
	switch t.Intn(4) {
	case 0:
		abc = "ABab01"
	case 1:
		var sb strings.Builder
		for c := 1; c < 256; c++ {
			if c != ' ' && c != '|' {
				sb.WriteByte(byte(c))
			}
		}
		abc = sb.String()
	}
	m.Lock = string(t.Blob(n, abc))
	if t.Chance(700) {
		m.PK = "verifsim" + string(t.Blob(t.Intn(12), "abc0123."))
	}
	if t.Chance(250) {
		m.Ref = "hub.example.org:" + fmt.Sprint(1+t.Intn(65535))
	}
	return m
}

// answer computes the answer to a challenge on one side.
func answer(lib bool, m *nmdc.Lock, magic byte, full bool) string {
	if !lib {
		return refKey(lockText(m, full), magic)
	}
	if magic == 5 && !full {
		return m.Key().Key
	}
	return m.CustomKey(magic, full).Key
}

// spoil makes a wrong answer out of a right one.
func (l *login) spoil(good string, lock *nmdc.Lock, magic byte, full bool) string {
	t := l.t
	for {
		bad := good
		switch t.Intn(4) {
		case 0:
			b := []byte(good)
			b[t.Intn(len(b))] ^= 1 << t.Intn(3)
			for i := range b {
				if b[i] == '|' || b[i] == 0 {
					b[i] = 'x'
				}
			}
			bad = string(b)
		case 1:
			bad = refKey(lockText(lock, full), magic^byte(1+t.Intn(255)))
		case 2:
			bad = good[:t.Intn(len(good))]
		default:
			bad = refKey(lockText(lock, !full)+"x", magic)
		}
		if bad != good {
			return bad
		}
	}
}

var nmdcExts = []string{"NoHello", "NoGetINFO", "UserCommand", "UserIP2", "TTHSearch", "ZPipe0", "TLS", "MCTo", "OpPlus", "x-Own"}

func drawExts(t *Tape) []string {
	var a []string
	for _, e := range nmdcExts {
		if t.Chance(600) {
			a = append(a, e)
		}
	}
	for i := len(a) - 1; i > 0; i-- { // any order
		j := t.Intn(i + 1)
		a[i], a[j] = a[j], a[i]
	}
	return a
}

func both(a, b []string) []string {
	var r []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				r = append(r, x)
			}
		}
	}
	sort.Strings(r)
	return r
}

// negotiate gives what both sides announced, by one of the ways there are.
func (l *login) negotiate(who string, how int, mine, theirs []string) []string {
	var r []string
	was := fmt.Sprintf("%q %q", mine, theirs)
	defer func() {
		if now := fmt.Sprintf("%q %q", mine, theirs); now != was {
			l.w.Fail("negotiation", "%s: negotiating changed the announced %s to %s", who, was, now)
		}
	}()
	set := func(a []string) nmdc.Extensions {
		s := make(nmdc.Extensions)
		for _, e := range a {
			s.Set(e)
		}
		return s
	}
	switch how {
	case 0:
		r = both(mine, theirs)
	case 1:
		s := (&nmdc.Supports{Ext: mine}).Intersect(&nmdc.Supports{Ext: theirs})
		r = append([]string{}, s.Ext...)
		for i := range s.Ext { // a new set, to be changed at will
			s.Ext[i] = "changed"
		}
	case 2:
		m, o := set(mine), set(theirs)
		n := len(m)
		c := m
		if l.t.Bool() {
			c = m.Clone()
		}
		x := c.Intersect(o)
		if l.t.Chance(300) {
			x = o.Intersect(c)
		}
		r = x.List()
		defer func() {
			x.Set("x-Changed")
			if c.Set("x-Changed"); !equalSets(o.List(), theirs) || len(c) != n+1 {
				l.w.Fail("negotiation", "%s: changing the negotiated set changed an announced one to %q", who, o.List())
			}
		}()
		for _, e := range nmdcExts {
			if x.Has(e) != contains(r, e) {
				l.w.Fail("negotiation", "%s: Has(%q) is %v but the list is %q", who, e, x.Has(e), r)
			}
		}
		if got := m.List(); !equalSets(got, mine) {
			l.w.Fail("negotiation", "%s: announced %q became %q", who, mine, got)
		}
	case 3:
		m := set(mine)
		x := m.IntersectList(theirs)
		r = x.List()
		if x.Set("x-Changed"); !equalSets(m.List(), mine) {
			l.w.Fail("negotiation", "%s: changing the negotiated set changed the announced %q to %q", who, mine, m.List())
		}
	}
	r = append([]string{}, r...)
	sort.Strings(r)
	return r
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func equalSets(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}

// connect makes the connection of a peer; with some chance it is cut.
func (l *login) connect(p *peer, cut bool) {
	w, t := l.w, l.t
	up, down := w.DrawNet(), w.DrawNet()
	for _, x := range []*Profile{&up, &down} {
		if x.Window > 0 && x.Window < 256 {
			x.Window = 256
		}
		x.Tame(20000)
		x.CutAt = -1
	}
	if cut {
		x := &up
		if t.Bool() {
			x = &down
		}
		x.CutAt = t.Intn(600)
		x.CutErr = io.EOF
		if t.Bool() {
			x.CutErr = errors.New("connection reset by peer")
		}
		p.cut = true
	}
	p.cs, p.hs = w.NewConnPair(p.i, up, down)
	p.cs.Name, p.hs.Name = fmt.Sprintf("client%d", p.i), fmt.Sprintf("hub%d", p.i)
	p.out = &outbox{w: w}
}

func (l *login) check(p *peer, what, side string, err error) bool {
	if err == nil {
		return true
	}
	if !p.cut {
		l.w.Fail("error", "client %d (%s side): %s: %v although nothing is wrong with the connection", p.i, side, what, err)
	}
	return false
}

// verdict compares what the two sides concluded.
func (l *login) verdict(p *peer, want string) {
	w := l.w
	if !p.cut {
		if p.hub != want {
			w.Fail("admission", "client %d: the hub's conclusion is %q, it should be %q", p.i, p.hub, want)
		}
		if p.cli != p.hub {
			w.Fail("admission", "client %d: the hub's conclusion is %q, the client's is %q", p.i, p.hub, p.cli)
		}
	} else {
		if p.cli == "online" && p.hub != "online" {
			w.Fail("admission", "client %d believes it is online, the hub's conclusion is %q", p.i, p.hub)
		}
		if p.hub != "" && p.hub != want {
			w.Fail("admission", "client %d: the hub's conclusion is %q, it should be %q", p.i, p.hub, want)
		}
		if p.cli != "" && p.cli != want {
			w.Fail("admission", "client %d: the client's conclusion is %q, it should be %q", p.i, p.cli, want)
		}
	}
	if p.cli != "online" {
		return
	}
	w.Inc("probe.logins")
	if p.cliName != p.hubName {
		w.Fail("identity", "client %d knows itself as %q, the hub as %q", p.i, p.cliName, p.hubName)
	}
	if p.cliNeg != p.hubNeg {
		w.Fail("negotiation", "client %d: the hub negotiated %s, the client %s", p.i, p.hubNeg, p.cliNeg)
	}
	l.seq(p, "client to hub", p.cliSent, p.hubSeen)
	l.seq(p, "hub to client", p.hubSent, p.cliSeen)
}

func (l *login) seq(p *peer, dir string, sent, seen []string) {
	w := l.w
	for i, s := range seen {
		if i >= len(sent) {
			w.Fail("routing", "client %d, %s: %s arrived, nothing more was sent", p.i, dir, short(s))
			return
		}
		if s != sent[i] {
			w.Fail("routing", "client %d, %s: message %d is %s, sent was %s", p.i, dir, i, short(s), short(sent[i]))
			return
		}
	}
	if len(seen) < len(sent) && !p.cut {
		w.Fail("routing", "client %d, %s: %d of %d messages arrived, the next is %s", p.i, dir, len(seen), len(sent), short(sent[len(seen)]))
	}
	w.Add("probe.routed", int64(len(seen)))
}

func runC24(w *World) {
	l := &login{w: w, t: w.T}
	switch w.T.Weighted(4, 4, 2) {
	case 0:
		l.nmdcHub()
	case 1:
		l.adcHub()
	case 2:
		l.nmdcClients()
	}
}

// ---- NMDC, client and hub

func (l *login) nmdcHub() {
	w, t := l.w, l.t
	cs := charsets[t.Intn(len(charsets))]
	g := &ngen{t: t, cs: cs}
	magic, full := byte(5), false
	if t.Chance(300) {
		magic, full = byte(t.Intn(256)), t.Bool()
	}
	hubExts := drawExts(t)
	if t.Chance(300) && !contains(hubExts, "ZPipe0") {
		hubExts = append(hubExts, "ZPipe0")
	}
	online := map[string]*peer{} // what the hub believes
	var order []*peer            // in the order they came
	n := 1 + t.Intn(4)
	names := map[string]bool{}
	fresh := func() string {
		for {
			s := g.name()
			if g.nameLen(s) < 200 && !names[s] {
				names[s] = true
				return s
			}
			names[s+"1"] = true
		}
	}
	cuts := t.Chance(300)
	var desc []string
	for i := 0; i < n; i++ {
		t.Begin()
		p := &peer{i: i, nick: fresh(), exts: drawExts(t), lib: t.Bool(), noSup: t.Chance(150)}
		p.badKey = t.Chance(150)
		if t.Chance(300) {
			p.pass = g.str("") + "p"
			p.badPass = t.Chance(400)
			if i > 0 && l.peers[i-1].pass != "" && t.Chance(300) {
				p.pass = l.peers[i-1].pass
			}
		}
		if i > 0 && t.Chance(250) {
			p.nick = l.peers[t.Intn(i)].nick
			if t.Bool() {
				p.alt = fresh()
			}
		}
		for j, k := 0, t.Intn(5); j < k; j++ {
			p.script = append(p.script, lmsg{kind: t.Intn(5), to: t.Intn(n), text: g.str("")})
		}
		cut := cuts && t.Bool()
		l.connect(p, cut)
		l.peers = append(l.peers, p)
		desc = append(desc, fmt.Sprintf("%d(badkey=%v pass=%v bad=%v cut=%v msgs=%d)", i, p.badKey, p.pass != "", p.badPass, cut, len(p.script)))
		t.End()
	}
	level := drawLevel(t)
	w.Sample = fmt.Sprintf("NMDC hub, %s, magic %d full %v, clients %s", cs.name, magic, full, strings.Join(desc, " "))
	l.open = n
	zs := 0

	// deliver queues a message of a session
	deliver := func(p *peer, m nmdc.Message, nw *nmdc.Writer) {
		p.hubSent = append(p.hubSent, canon(m))
		p.out.put(func() error { return nw.WriteMsg(m) })
	}
	writers := make([]*nmdc.Writer, n)
	toAll := func(m nmdc.Message, but *peer) {
		for _, o := range order {
			if o != but && online[o.hubName] == o {
				deliver(o, m, writers[o.i])
			}
		}
	}
	oneLock := t.Chance(300) // a hub may give everybody the same challenge
	var first *nmdc.Lock
	for _, p := range l.peers {
		p := p
		lock := drawLock(t)
		if first == nil {
			first = lock
		} else if oneLock {
			c := *first
			lock = &c
		}
		nw := nmdc.NewWriterSize(p.hs, []int{0, 16, 300}[t.Intn(3)])
		nw.SetEncoder(cs.encoder())
		writers[p.i] = nw
		w.Go("out-"+p.hs.Name, func() {
			p.out.run(nw.Flush)
			l.check(p, "writing", "hub", p.out.err)
			nw.Close()
			p.hs.Out.CloseWrite()
		})
		nr := nmdc.NewReader(p.hs)
		nr.SetDecoder(cs.decoder())
		nr.SetMaxLine(0)
		w.Go(p.hs.Name, func() {
			defer p.hs.In.CloseRead()
			defer l.readerDone()
			say := func(m nmdc.Message) { p.out.put(func() error { return nw.WriteMsg(m) }) }
			refuse := func(why string) {
				p.hub = why
				p.out.close()
			}
			say(lock)
			var exts []string
			key := ""
			for p.hub == "" {
				m, err := nr.ReadMsg()
				if !l.check(p, "login", "hub", err) {
					p.out.close()
					return
				}
				switch m := m.(type) {
				case *nmdc.Supports:
					exts = m.Ext
				case *nmdc.Key:
					key = m.Key
					if key != answer(!p.lib, lock, magic, full) {
						say(&nmdc.Error{Err: errors.New("wrong key")})
						refuse("badkey")
						return
					}
				case *nmdc.ValidateNick:
					nick := string(m.Name)
					if online[nick] != nil {
						say(&nmdc.ValidateDenide{Name: m.Name})
						if p.alt == "" || nick == p.alt {
							refuse("denied")
							return
						}
						continue
					}
					p.hubName = nick
					if p.pass != "" {
						say(&nmdc.GetPass{})
						continue
					}
					p.hub = "online"
				case *nmdc.MyPass:
					if string(m.String) != p.pass {
						say(&nmdc.BadPass{})
						refuse("badpass")
						return
					}
					if online[p.hubName] != nil { // somebody was faster
						say(&nmdc.ValidateDenide{Name: nmdc.Name(p.hubName)})
						refuse("denied")
						return
					}
					p.hub = "online"
				default:
					w.Fail("routing", "the hub received %s in the login of client %d", short(canon(m)), p.i)
					return
				}
			}
			neg := l.negotiate("hub", 1+t.Intn(3), hubExts, exts)
			p.hubNeg = strings.Join(neg, " ")
			if want := strings.Join(both(hubExts, exts), " "); p.hubNeg != want {
				w.Fail("negotiation", "client %d announced %q, the hub %q: the library negotiates %q", p.i, exts, hubExts, neg)
			}
			if !lock.NoExt {
				say(&nmdc.Supports{Ext: hubExts})
			}
			say(&nmdc.Hello{Name: nmdc.Name(p.hubName)})
			if contains(neg, "ZPipe0") {
				p.out.put(func() error { return nw.ZOnLevel(level) })
				zs++
			}
			online[p.hubName] = p
			order = append(order, p)
			toAll(&nmdc.Hello{Name: nmdc.Name(p.hubName)}, p)
			var ops nmdc.Names
			for _, o := range order {
				if online[o.hubName] == o && o.pass != "" {
					ops = append(ops, o.hubName)
				}
			}
			deliver(p, &nmdc.OpList{Names: ops}, nw)
			for {
				m, err := nr.ReadMsg()
				if err != nil {
					if err != io.EOF {
						l.check(p, "session", "hub", err)
					}
					break
				}
				p.hubSeen = append(p.hubSeen, canon(m))
				switch m := m.(type) {
				case *nmdc.ChatMessage:
					toAll(m, nil)
				case *nmdc.PrivateMessage:
					if o := online[m.To]; o != nil {
						deliver(o, m, writers[o.i])
					}
				case *nmdc.MCTo:
					if o := online[m.To]; o != nil {
						deliver(o, m, writers[o.i])
					}
				case *nmdc.ConnectToMe:
					if o := online[m.Targ]; o != nil {
						deliver(o, m, writers[o.i])
					}
				case *nmdc.RevConnectToMe:
					if o := online[m.To]; o != nil {
						deliver(o, m, writers[o.i])
					}
				default:
					w.Fail("routing", "the hub received %s from client %d", short(canon(m)), p.i)
				}
			}
			delete(online, p.hubName)
			toAll(&nmdc.Quit{Name: nmdc.Name(p.hubName)}, p)
			// what is queued for the one who left is still delivered
		})

		cw := nmdc.NewWriterSize(p.cs, []int{0, 16, 300}[t.Intn(3)])
		cw.SetEncoder(cs.encoder())
		cr := nmdc.NewReader(p.cs)
		cr.SetDecoder(cs.decoder())
		cr.SetMaxLine(0)
		w.Go(p.cs.Name, func() {
			defer p.cs.In.CloseRead()
			defer p.cs.Out.CloseWrite()
			say := func(m ...nmdc.Message) bool {
				err := cw.WriteMsg(m...)
				if err == nil {
					err = cw.Flush()
				}
				if err != nil && p.hub != "" && p.hub != "online" {
					return true // refused meanwhile, the reason is on its way
				}
				return l.check(p, "writing", "client", err)
			}
			w.Inc("op")
			nick := p.nick
			var theirs []string
			mine := p.exts
			ext := false
			for p.cli == "" {
				m, err := cr.ReadMsg()
				if err == io.EOF && p.cut {
					return
				}
				if !l.check(p, "login", "client", err) {
					return
				}
				switch m := m.(type) {
				case *nmdc.Lock:
					if canon(m) != canon(lock) {
						w.Fail("routing", "client %d: the challenge is %s, sent was %s", p.i, canon(m), canon(lock))
					}
					key := answer(p.lib, m, magic, full)
					if p.badKey {
						key = l.spoil(key, m, magic, full)
					}
					var out []nmdc.Message
					if !m.NoExt && !p.noSup {
						ext = true
						out = append(out, &nmdc.Supports{Ext: mine})
					}
					out = append(out, &nmdc.Key{Key: key}, &nmdc.ValidateNick{Name: nmdc.Name(nick)})
					if !say(out...) {
						return
					}
				case *nmdc.Error:
					p.cli = "badkey"
					return
				case *nmdc.ValidateDenide:
					if string(m.Name) != nick {
						w.Fail("identity", "client %d asked for %q, %q was denied", p.i, nick, string(m.Name))
					}
					if p.alt == "" || nick == p.alt || p.hub == "denied" {
						p.cli = "denied"
						return
					}
					nick = p.alt
					if !say(&nmdc.ValidateNick{Name: nmdc.Name(nick)}) {
						return
					}
				case *nmdc.GetPass:
					pass := p.pass
					if p.badPass {
						pass = []string{"", string([]rune(pass)[1:]), pass + " ", "x" + pass, pass + pass}[t.Intn(5)]
					}
					if !say(&nmdc.MyPass{String: nmdc.String(pass)}) {
						return
					}
				case *nmdc.BadPass:
					p.cli = "badpass"
					return
				case *nmdc.Supports:
					theirs = m.Ext
				case *nmdc.Hello:
					p.cli = "online"
					p.cliName = string(m.Name)
				default:
					w.Fail("routing", "client %d received %s in its login", p.i, short(canon(m)))
					return
				}
			}
			if p.cliName != nick {
				w.Fail("identity", "client %d logged in as %q and is welcomed as %q", p.i, nick, p.cliName)
			}
			if !ext {
				mine = nil
			}
			neg := l.negotiate("client", 1+t.Intn(3), mine, theirs)
			p.cliNeg = strings.Join(neg, " ")
			read := func() bool {
				m, err := cr.ReadMsg()
				if err != nil {
					if err != io.EOF || p.cut {
						l.check(p, "session", "client", err)
					}
					return false
				}
				if _, ok := m.(*nmdc.ZOn); ok {
					if !contains(neg, "ZPipe0") {
						w.Fail("negotiation", "client %d: the hub switches compression on, negotiated were %q", p.i, neg)
					}
					return l.check(p, "EnableZlib", "client", cr.EnableZlib())
				}
				p.cliSeen = append(p.cliSeen, canon(m))
				w.Inc("op")
				return true
			}
			for _, s := range p.script {
				if t.Bool() && len(p.cliSeen) == 0 {
					if !read() {
						return
					}
				}
				to := l.peers[s.to].nick
				if l.peers[s.to].cliName != "" {
					to = l.peers[s.to].cliName
				}
				var m nmdc.Message
				switch s.kind {
				case 0:
					m = &nmdc.ChatMessage{Name: p.cliName, Text: s.text}
				case 1:
					m = &nmdc.PrivateMessage{To: to, From: p.cliName, Name: p.cliName, Text: s.text}
				case 2:
					m = &nmdc.MCTo{To: to, From: p.cliName, Text: s.text}
				case 3:
					m = &nmdc.ConnectToMe{Targ: to, Address: "10.0.0.1:412", Secure: len(s.text)%2 == 0}
				case 4:
					m = &nmdc.RevConnectToMe{From: p.cliName, To: to}
				}
				p.cliSent = append(p.cliSent, canon(m))
				if !say(m) {
					return
				}
				w.Inc("op")
			}
			p.cs.Out.CloseWrite()
			for read() {
			}
		})
	}
	if !finish(w, "a hub and its clients") {
		return
	}
	if zs > 0 {
		w.Inc("probe.compressed-sessions")
	}
	for _, p := range l.peers {
		want := "online"
		switch {
		case p.badKey:
			want = "badkey"
		case p.hub == "denied" || p.cli == "denied":
			// decided by the order of the logins: somebody else has the name
			want = "denied"
			if p.hub != "denied" {
				w.Fail("admission", "client %d was denied, the hub's conclusion is %q", p.i, p.hub)
			}
		case p.badPass:
			want = "badpass"
		}
		if want == "denied" {
			rivals := 0
			for _, o := range l.peers {
				if o != p && o.nick == p.nick {
					rivals++
				}
			}
			if rivals == 0 {
				w.Fail("admission", "client %d was denied a name nobody else asked for", p.i)
			}
		}
		l.verdict(p, want)
	}
}

// ---- NMDC, client and client

func (l *login) nmdcClients() {
	w, t := l.w, l.t
	magic, full := byte(5), false
	if t.Chance(200) {
		magic, full = byte(t.Intn(256)), t.Bool()
	}
	g := &ngen{t: t, cs: charsets[t.Intn(len(charsets))]}
	p := &peer{}
	l.connect(p, t.Chance(250))
	type side struct {
		c      *Conn
		name   string
		lib    bool
		bad    bool
		exts   []string
		dir    nmdc.Direction
		state  string // of the other side: good, bad
		peer   string
		neg    string
		upload bool
		won    int // 1 this side's direction counts, 2 the other's, 3 neither
	}
	lib := t.Bool()
	s := [2]*side{}
	for i := range s {
		s[i] = &side{name: fmt.Sprint(i) + strings.TrimRight(g.name(), "n"), lib: lib != (i == 1), bad: t.Chance(150), exts: drawExts(t), dir: nmdc.Direction{Upload: t.Bool(), Number: uint(1 + t.Intn(32767))}}
	}
	if t.Chance(100) {
		s[1].dir.Number = s[0].dir.Number
	}
	s[0].c, s[1].c = p.cs, p.hs
	w.Sample = fmt.Sprintf("NMDC clients, magic %d full %v, bad answers %v %v, cut %v", magic, full, s[0].bad, s[1].bad, p.cut)
	for i := range s {
		me := s[i]
		lock := drawLock(t)
		lock.NoExt = false
		if t.Chance(150) {
			lock.NoExt = true
		}
		nw := nmdc.NewWriterSize(me.c, []int{0, 16, 300}[t.Intn(3)])
		nr := nmdc.NewReader(me.c)
		nw.SetEncoder(g.cs.encoder())
		nr.SetDecoder(g.cs.decoder())
		nr.SetMaxLine(0)
		out := &outbox{w: w}
		w.Go("out-"+me.c.Name, func() {
			out.run(nw.Flush)
			if out.err != nil && !p.cut && s[0].state != "bad" && s[1].state != "bad" {
				l.check(p, "writing", "client", out.err)
			}
			me.c.Out.CloseWrite()
		})
		w.Go(me.c.Name, func() {
			w.Inc("op")
			defer me.c.In.CloseRead()
			defer out.close()
			say := func(m ...nmdc.Message) { out.put(func() error { return nw.WriteMsg(m...) }) }
			say(&nmdc.MyNick{Name: nmdc.Name(me.name)}, lock)
			var theirs []string
			mine := me.exts
			for me.state == "" {
				m, err := nr.ReadMsg()
				if err == io.EOF && (p.cut || s[0].state == "bad" || s[1].state == "bad") {
					return // the other side hung up
				}
				if !l.check(p, "login", "client", err) {
					return
				}
				switch m := m.(type) {
				case *nmdc.MyNick:
					me.peer = string(m.Name)
				case *nmdc.Lock:
					key := answer(me.lib, m, magic, full)
					if me.bad {
						key = l.spoil(key, m, magic, full)
					}
					if !m.NoExt {
						say(&nmdc.Supports{Ext: mine})
					} else {
						mine = nil
					}
					d := me.dir
					say(&d, &nmdc.Key{Key: key})
				case *nmdc.Supports:
					theirs = m.Ext
				case *nmdc.Direction:
					switch {
					case m.Number < me.dir.Number:
						me.won, me.upload = 1, me.dir.Upload
					case m.Number > me.dir.Number:
						me.won, me.upload = 2, !m.Upload
					default:
						me.won = 3
					}
				case *nmdc.Key:
					me.state = "good"
					if m.Key != answer(me.lib, lock, magic, full) {
						me.state = "bad"
					}
				default:
					w.Fail("routing", "%s received %s", me.c.Name, short(canon(m)))
					return
				}
			}
			me.neg = strings.Join(l.negotiate(me.c.Name, 1+t.Intn(3), mine, theirs), " ")
		})
	}
	if !finish(w, "two clients logging in") {
		return
	}
	for i, me := range s {
		other := s[1-i]
		if me.state != "" {
			want := "good"
			if other.bad {
				want = "bad"
			}
			if me.state != want {
				w.Fail("admission", "%s judged the other's answer %s, it was %s", me.c.Name, me.state, want)
			}
			if me.peer != other.name {
				w.Fail("identity", "%s thinks it talks to %q, it is %q", me.c.Name, me.peer, other.name)
			}
		} else if !p.cut && other.state != "bad" {
			w.Fail("admission", "%s came to no conclusion", me.c.Name)
		}
		if me.state != "" && other.state != "" {
			if me.neg != other.neg {
				w.Fail("negotiation", "the clients negotiated %q and %q", me.neg, other.neg)
			}
			switch {
			case me.won+other.won != 3 && me.won != 3, me.won == 3 && other.won != 3:
				w.Fail("negotiation", "the clients disagree whose direction counts: %d and %d", me.won, other.won)
			case me.won != 3 && me.upload == other.upload:
				w.Fail("negotiation", "both clients think they upload (%v)", me.upload)
			}
			w.Inc("probe.client-logins")
		}
	}
}

// ---- ADC, client and hub

var adcFeas = []string{"TIGR", "ZLIF", "PING", "SEGA", "UCMD", "ADC0", "ADCS", "NAT0", "UCM0", "TCP4", "TCP6", "CCPM"}

func fea(s string) (f adc.Feature) { copy(f[:], s); return }

// trueOf lists what a set contains.
func trueOf(m adc.ModFeatures) []string {
	r := []string{}
	for f, on := range m {
		if on {
			r = append(r, string(f[:]))
		}
	}
	sort.Strings(r)
	return r
}

func refSID(v uint32) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	return string([]byte{abc[v>>15&31], abc[v>>10&31], abc[v>>5&31], abc[v&31]})
}

func refTiger(b []byte) (r [24]byte) {
	h := th.New()
	h.Write(b)
	copy(r[:], h.Sum(nil))
	return
}

func tigerOf(lib bool, b []byte) tiger.Hash {
	if lib {
		return tiger.HashBytes(b)
	}
	return refTiger(b)
}

// sup is one side's announcements: what the library keeps and what they mean.
type sup struct {
	lib adc.ModFeatures
	ref map[string]bool
	old []adc.ModFeatures // what was stored or announced before, and how it looked
	was []string
	bad string
}

func (s *sup) update(m adc.ModFeatures) {
	s.old = append(s.old, s.lib, m)
	s.was = append(s.was, canon(s.lib), canon(m))
	s.lib = s.lib.SetFrom(m)
	if s.lib != nil { // a set of its own
		s.lib[fea("CHNG")] = true
		for i, m := range s.old {
			if got := canon(m); got != s.was[i] && s.bad == "" {
				s.bad = fmt.Sprintf("a set stored before, %s, is changed to %s together with the result of an update", s.was[i], got)
			}
		}
		delete(s.lib, fea("CHNG"))
	}
	for f, on := range m {
		s.ref[string(f[:])] = on
	}
}

func (s *sup) on() []string {
	r := []string{}
	for f, on := range s.ref {
		if on {
			r = append(r, f)
		}
	}
	sort.Strings(r)
	return r
}

func (l *login) adcNeg(who string, a, b *sup) string {
	w := l.w
	want := both(a.on(), b.on())
	defer func() {
		for _, s := range []*sup{a, b} {
			if s.bad != "" {
				w.Fail("negotiation", "%s: %s", who, s.bad)
			}
			for i, m := range s.old {
				if canon(m) != s.was[i] {
					w.Fail("negotiation", "%s: an earlier set %s became %s", who, s.was[i], canon(m))
				}
			}
		}
	}()
	was := canon(a.lib) + canon(b.lib)
	x := a.lib.Intersect(b.lib)
	if l.t.Bool() {
		x = b.lib.Intersect(a.lib)
	}
	got := trueOf(x)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		w.Fail("negotiation", "%s: announced %q and %q, the library negotiates %q", who, a.on(), b.on(), got)
	}
	for _, f := range adcFeas {
		if x.IsSet(fea(f)) != contains(want, f) {
			w.Fail("negotiation", "%s: IsSet(%s) is %v in %q", who, f, x.IsSet(fea(f)), got)
		}
	}
	if !equalSets(strings.FieldsFunc(a.lib.Join(), func(r rune) bool { return r == ',' }), a.on()) {
		w.Fail("negotiation", "%s: announced %q, listed as %q", who, a.on(), a.lib.Join())
	}
	if x != nil {
		x[fea("CHNG")] = true // a set of its own
	}
	if canon(a.lib)+canon(b.lib) != was {
		w.Fail("negotiation", "%s: negotiating changed the sets %s", who, was)
	}
	return strings.Join(want, " ")
}

func (l *login) adcHub() {
	w, t := l.w, l.t
	g := &agen{t: t}
	n := 1 + t.Intn(4)
	hub := &sup{ref: map[string]bool{}}
	init := adc.ModFeatures{fea("BASE"): true}
	for _, f := range adcFeas {
		if t.Chance(600) {
			init[fea(f)] = true
		}
	}
	hub.update(init)
	before := strings.Join(trueOf(init), " ")
	cuts := t.Chance(300)
	online := map[adc.SID]*peer{}
	cids := map[adc.CID]*peer{}
	var order []*peer
	next := uint32(1 + t.Intn(1<<20-8))
	if t.Chance(200) {
		next = []uint32{1, 31, 1023, 32767, 1<<20 - 6}[t.Intn(5)]
	}
	sids := make([]adc.SID, n)
	pids := make([]adc.PID, n)
	badPID := make([]bool, n)
	infs := make([]adc.UserInfo, n)
	writers := make([]*adc.Writer, n)
	var desc []string
	for i := 0; i < n; i++ {
		t.Begin()
		p := &peer{i: i, lib: t.Bool()}
		pids[i] = adc.PID(t.Blob(24, ""))
		if t.Chance(150) && i > 0 {
			pids[i] = pids[t.Intn(i)] // the same person again
		}
		badPID[i] = t.Chance(150)
		p.nick = fmt.Sprintf("%s%d", g.str(""), i)
		if t.Chance(300) {
			p.pass = g.str("") + "p"
			p.badPass = t.Chance(400)
			if i > 0 && l.peers[i-1].pass != "" && t.Chance(300) {
				p.pass = l.peers[i-1].pass
			}
		}
		inf := adc.UserInfo{Name: p.nick, Pid: &pids[i], Slots: t.Intn(9), ShareSize: int64(t.Intn(1 << 30)), Version: "v" + fmt.Sprint(t.Intn(100)), Desc: g.str("")}
		for _, f := range adcFeas {
			if t.Bool() {
				inf.Features = append(inf.Features, fea(f))
			}
		}
		infs[i] = inf
		for j, k := 0, t.Intn(6); j < k; j++ {
			m := lmsg{kind: t.Intn(6), to: t.Intn(n), text: g.str("")}
			for _, f := range adcFeas {
				if m.kind == 3 && t.Chance(250) {
					m.sel = append(m.sel, adc.FeatureSel{Fea: fea(f), Sel: t.Bool()})
				}
				if m.kind == 4 && f != "ZLIF" && t.Chance(300) {
					if m.mod == nil {
						m.mod = map[string]bool{}
					}
					m.mod[f] = t.Bool()
				}
			}
			if m.kind == 3 && m.sel == nil || m.kind == 4 && m.mod == nil {
				m.kind = 0
			}
			p.script = append(p.script, m)
		}
		cut := cuts && t.Bool()
		l.connect(p, cut)
		l.peers = append(l.peers, p)
		desc = append(desc, fmt.Sprintf("%d(badpid=%v pass=%v bad=%v cut=%v msgs=%d)", i, badPID[i], p.pass != "", p.badPass, cut, len(p.script)))
		t.End()
	}
	level := drawLevel(t)
	w.Sample = fmt.Sprintf("ADC hub, clients %s", strings.Join(desc, " "))
	l.open = n
	used := map[adc.SID]bool{}

	deliver := func(p *peer, pk adc.Packet) {
		p.hubSent = append(p.hubSent, canon(pk))
		aw := writers[p.i]
		p.out.put(func() error { return aw.WritePacket(pk) })
	}
	toAll := func(pk adc.Packet, but *peer) {
		for _, o := range order {
			if o != but && online[sids[o.i]] == o {
				deliver(o, pk)
			}
		}
	}
	has := func(i int, f adc.Feature) bool {
		for _, x := range infs[i].Features {
			if string(x[:]) == string(f[:]) {
				return true
			}
		}
		return false
	}
	stored := map[*peer]adc.UserInfo{}
	sameSalt := t.Chance(300)
	var oneSalt []byte
	for _, p := range l.peers {
		p := p
		mine := adc.ModFeatures{fea("BASE"): true}
		for _, f := range adcFeas {
			if t.Chance(600) {
				mine[fea(f)] = true
			}
		}
		if t.Chance(100) {
			mine[fea("PING")] = false
		}
		aw := adc.NewWriterSize(p.hs, []int{0, 16, 300}[t.Intn(3)])
		writers[p.i] = aw
		w.Go("out-"+p.hs.Name, func() {
			p.out.run(aw.Flush)
			l.check(p, "writing", "hub", p.out.err)
			aw.Close()
			p.hs.Out.CloseWrite()
		})
		ar := adc.NewReader(p.hs)
		ar.SetMaxLine(0)
		salt := t.Blob(1+t.Intn(40), "")
		if oneSalt == nil {
			oneSalt = salt
		} else if sameSalt {
			salt = append([]byte(nil), oneSalt...)
		}
		w.Go(p.hs.Name, func() {
			defer p.hs.In.CloseRead()
			defer l.readerDone()
			info := func(m adc.Message) { p.out.put(func() error { return aw.WriteInfo(m) }) }
			refuse := func(why string) {
				info(adc.Status{Sev: adc.Fatal, Code: 20, Msg: why})
				p.hub = why
				p.out.close()
			}
			theirs := &sup{ref: map[string]bool{}}
			admit := func() {
				p.hub = "online"
				sid := sids[p.i]
				p.hubName = sid.String()
				p.hubNeg = l.adcNeg("hub", hub, theirs)
				inf := stored[p]
				// the roster goes first, the own info ends the login
				for _, o := range order {
					if online[sids[o.i]] == o {
						deliver(p, &adc.BroadcastPacket{ID: sids[o.i], Msg: stored[o]})
					}
				}
				toAll(&adc.BroadcastPacket{ID: sid, Msg: inf}, p)
				online[sid] = p
				order = append(order, p)
				deliver(p, &adc.BroadcastPacket{ID: sid, Msg: inf})
				if strings.Contains(p.hubNeg, "ZLIF") && t.Bool() {
					p.out.put(func() error {
						if err := aw.WriteInfo(adc.ZOn{}); err != nil {
							return err
						}
						w.Inc("probe.compressed-sessions")
						return aw.EnableZlibLevel(level)
					})
				}
			}
			for {
				pk, err := ar.ReadPacket()
				if err != nil {
					if err != io.EOF || p.hub == "" {
						l.check(p, "session", "hub", err)
					}
					break
				}
				if pp, ok := pk.(adc.PeerPacket); ok && pp.Source() != sids[p.i] {
					w.Fail("identity", "client %d with session %q sent as %q", p.i, sids[p.i], pp.Source())
				}
				if p.hub == "online" {
					p.hubSeen = append(p.hubSeen, canon(pk))
				}
				switch pk := pk.(type) {
				case *adc.HubPacket:
					switch m := pk.Msg.(type) {
					case adc.Supported:
						theirs.update(m.Features)
						if p.hub == "online" {
							p.hubNeg = l.adcNeg("hub", hub, theirs)
							break
						}
						info(adc.Supported{Features: hub.lib.Clone()})
						sid := types.SIDFromInt(next)
						if string(sid[:]) != refSID(next) {
							w.Fail("identity", "session id of %d is %q, not %q", next, sid[:], refSID(next))
						}
						next++
						if used[sid] {
							w.Fail("identity", "session id %q is given out twice", sid[:])
						}
						used[sid] = true
						sids[p.i] = sid
						info(adc.SIDAssign{SID: sid})
						info(adc.HubInfo{Name: "hub", Version: "1", Application: "verifsim"})
					case adc.Password:
						if m.Hash != tigerOf(!p.lib, append([]byte(p.pass), salt...)) {
							refuse("badpass")
							return
						}
						if cids[stored[p].Id] != p {
							w.Fail("identity", "registration of client %d was lost", p.i)
						}
						admit()
					case adc.ZOn:
						p.hubSeen = p.hubSeen[:len(p.hubSeen)-1]
						if !l.check(p, "EnableZlib", "hub", ar.EnableZlib()) {
							return
						}
						w.Inc("probe.compressed-sessions")
					default:
						w.Fail("routing", "the hub received %s", short(canon(pk)))
					}
				case *adc.BroadcastPacket:
					inf, ok := pk.Msg.(adc.UserInfo)
					if !ok {
						toAll(pk, nil)
						break
					}
					if p.hub == "online" {
						w.Fail("routing", "the hub received %s twice", short(canon(pk)))
						break
					}
					if inf.Pid == nil {
						w.Fail("routing", "the info of client %d arrived without its private id", p.i)
						break
					}
					want := adc.CID(tigerOf(!p.lib, inf.Pid[:]))
					if want != inf.Id {
						refuse("badpid")
						return
					}
					if cids[inf.Id] != nil {
						refuse("cidtaken")
						return
					}
					cids[inf.Id] = p
					inf.Pid = nil
					stored[p] = inf
					for _, f := range adcFeas {
						if inf.Features.Has(fea(f)) != has(p.i, fea(f)) {
							w.Fail("negotiation", "client %d: Has(%s) is %v in %v", p.i, f, inf.Features.Has(fea(f)), inf.Features)
						}
					}
					if p.pass != "" {
						info(adc.GetPassword{Salt: salt})
						break
					}
					admit()
				case *adc.DirectPacket:
					if o := online[pk.Target()]; o != nil {
						deliver(o, pk)
					}
				case *adc.EchoPacket:
					if o := online[pk.Target()]; o != nil {
						deliver(o, pk)
						if o != p {
							deliver(p, pk)
						}
					}
				case *adc.FeaturePacket:
					for _, o := range order {
						if online[sids[o.i]] != o {
							continue
						}
						want, lib := true, true
						for _, s := range pk.Sel {
							want = want && has(o.i, s.Fea) == s.Sel
							lib = lib && stored[o].Features.Has(s.Fea) == s.Sel
						}
						if want != lib {
							w.Fail("routing", "client %d with %v is selected by %v: %v", o.i, infs[o.i].Features, pk.Sel, lib)
						}
						if lib {
							deliver(o, pk)
						}
					}
				default:
					w.Fail("routing", "the hub received %s from client %d", short(canon(pk)), p.i)
				}
			}
			if p.hub == "online" {
				delete(online, sids[p.i])
				toAll(&adc.InfoPacket{Msg: adc.Disconnect{ID: sids[p.i]}}, p)
			} else if cids[stored[p].Id] == p {
				delete(cids, stored[p].Id)
			}
		})

		cw := adc.NewWriterSize(p.cs, []int{0, 16, 300}[t.Intn(3)])
		cr := adc.NewReader(p.cs)
		cr.SetMaxLine(0)
		w.Go(p.cs.Name, func() {
			w.Inc("op")
			defer p.cs.In.CloseRead()
			defer p.cs.Out.CloseWrite()
			say := func(pk adc.Packet) bool {
				err := cw.WritePacket(pk)
				if err == nil {
					err = cw.Flush()
				}
				if err != nil && p.hub != "" && p.hub != "online" {
					return true
				}
				return l.check(p, "writing", "client", err)
			}
			hubs, me := &sup{ref: map[string]bool{}}, &sup{ref: map[string]bool{}}
			me.update(mine)
			if !say(&adc.HubPacket{Msg: adc.Supported{Features: mine}}) {
				return
			}
			var sid adc.SID
			zout := false
			// read handles one packet; false at the end of the session
			read := func() bool {
				pk, err := cr.ReadPacket()
				if err == io.EOF && (p.cut || p.cli == "online") {
					return false
				}
				if !l.check(p, "reading", "client", err) {
					return false
				}
				w.Inc("op")
				if ip, ok := pk.(*adc.InfoPacket); ok {
					switch m := ip.Msg.(type) {
					case adc.Supported:
						hubs.update(m.Features)
						return true
					case adc.SIDAssign:
						sid = m.SID
						p.cliName = sid.String()
						return true
					case adc.Status:
						p.cli = m.Msg
						return false
					case adc.GetPassword:
						pass := p.pass
						if p.badPass {
							pass = []string{"", string([]rune(pass)[1:]), pass + " ", "x" + pass}[t.Intn(4)]
						}
						return say(&adc.HubPacket{Msg: adc.Password{Hash: tigerOf(p.lib, append([]byte(pass), m.Salt...))}})
					case adc.ZOn:
						if !strings.Contains(p.cliNeg, "ZLIF") {
							w.Fail("negotiation", "client %d: the hub switches compression on, negotiated are %q", p.i, p.cliNeg)
						}
						return l.check(p, "EnableZlib", "client", cr.EnableZlib())
					case adc.UserInfo: // the hub's own info
						inf := infs[p.i]
						inf.Id = adc.CID(tigerOf(p.lib, pids[p.i][:]))
						if p.lib && inf.Id != pids[p.i].Hash() {
							w.Fail("identity", "the hash of private id %x is %x", pids[p.i], pids[p.i].Hash())
						}
						if badPID[p.i] {
							inf.Id[t.Intn(24)] ^= 1 << t.Intn(8)
						}
						return say(&adc.BroadcastPacket{ID: sid, Msg: inf})
					}
				}
				if bp, ok := pk.(*adc.BroadcastPacket); ok && bp.ID == sid && p.cli == "" {
					p.cli = "online"
					p.cliNeg = l.adcNeg("client", me, hubs)
				}
				p.cliSeen = append(p.cliSeen, canon(pk))
				return true
			}
			for p.cli == "" {
				if !read() {
					return
				}
			}
			for _, s := range p.script {
				if t.Chance(250) && len(p.cliSeen) < 2 && n > 1 && l.open == n && len(p.hubSent) > len(p.cliSeen) {
					if !read() {
						return
					}
				}
				to := sids[s.to]
				if to == (adc.SID{}) {
					to = sid
				}
				msg := adc.ChatMessage{Text: "m" + s.text}
				var pk adc.Packet
				switch s.kind {
				case 0:
					pk = &adc.BroadcastPacket{ID: sid, Msg: msg}
				case 1:
					pk = &adc.DirectPacket{ID: sid, To: to, Msg: msg}
				case 2:
					pk = &adc.EchoPacket{ID: sid, To: to, Msg: msg}
				case 3:
					pk = &adc.FeaturePacket{ID: sid, Sel: s.sel, Msg: msg}
				case 4:
					mod := adc.ModFeatures{}
					for f, on := range s.mod {
						mod[fea(f)] = on
					}
					me.update(mod)
					p.cliNeg = l.adcNeg("client", me, hubs)
					pk = &adc.HubPacket{Msg: adc.Supported{Features: mod}}
				case 5:
					if zout || !strings.Contains(p.cliNeg, "ZLIF") {
						continue
					}
					zout = true
					if !l.check(p, "writing", "client", cw.WriteHub(adc.ZOn{})) || !l.check(p, "EnableZlib", "client", cw.EnableZlibLevel(level)) {
						return
					}
					continue
				}
				p.cliSent = append(p.cliSent, canon(pk))
				if !say(pk) {
					return
				}
			}
			if !l.check(p, "closing", "client", cw.Close()) {
				return
			}
			p.cs.Out.CloseWrite()
			for read() {
			}
		})
	}
	if !finish(w, "a hub and its clients") {
		return
	}
	if got := strings.Join(trueOf(init), " "); got != before {
		w.Fail("negotiation", "the hub's announcement %q became %q", before, got)
	}
	for _, p := range l.peers {
		want := "online"
		switch {
		case badPID[p.i]:
			want = "badpid"
		case p.hub == "cidtaken":
			want = "cidtaken"
			rivals := 0
			for _, o := range l.peers {
				if o != p && pids[o.i] == pids[p.i] {
					rivals++
				}
			}
			if rivals == 0 {
				w.Fail("admission", "client %d was refused for an id nobody else has", p.i)
			}
		case p.badPass:
			want = "badpass"
		}
		if p.cut && p.hubNeg != p.cliNeg {
			p.hubNeg, p.cliNeg = "", "" // an update may be on its way
		}
		l.verdict(p, want)
	}
}
