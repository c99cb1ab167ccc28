package props

import (
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C27", Quick: 300000, Thorough: 8000000,
		Rule: "2 to 6 hubs of both protocols, with and without TLS, announce failover lists and their own address, redirect, welcome, close or die; 1 or 2 clients start at some address and follow redirects and failover lists, visiting each address once. Addresses are spelled in drawn ways (scheme missing or in another case, aliases, port given or not, trailing slashes, pinned certificate, IPv6), some are invalid or lead nowhere; connections are cut at drawn offsets.",
		Real: []string{"dc.ParseAddr, dc.NormalizeAddr", "nmdc and adc ParseAddr, NormalizeAddr", "keyprint.FromURL", "nmdc.ForceMove, FailOver, HubINFO", "adc.Disconnect, HubInfo", "nmdc and adc Reader and Writer", "lineproto"},
		Stub: []string{"hub and client logic (scripted)", "name resolution and dialling (simulated)", "transport (simulated connections)", "clock"},
		Run:  runC27,
	})
}

// rhub is a hub somewhere in the network.
type rhub struct {
	id       int
	scheme   string // dchub, nmdcs, adc or adcs
	host     string
	port     int
	kp       string
	failover []string
	own      string // the address it announces as its own
	redirect string
	end      int // 0 welcome, 1 redirect, 2 close, 3 dies at once
}

// meaning is what an address stands for.
type meaning struct {
	valid  bool
	scheme string
	host   string
	port   string // as spelled
	kp     string
	query  string // the normal form keeps it
}

func (m meaning) key() string { return m.scheme + " " + m.host + " " + m.port + " " + m.query }

type redir struct {
	w     *World
	t     *Tape
	hubs  []*rhub
	means map[string]meaning
	conns int
	steps int
}

// badAddrs lead nowhere: they have no host, an unknown protocol or a malformed port.
var badAddrs = []string{":411", "http://hub.example.org", "adc://hub.example.org", "adcs://hub.example.org/", "dchub://", "adc://:5000", "adcs://", "nmdcs://:411", "dchub://:411/", "dchub://hub:port", "adc://hub:port", "dchub://[::1", "adc://[::1:5", "ftp://adc:5", "dchub:///x", "nmdc://", "magnet://h:1", "adc://%zz:1", "dchub://a:1:2:x"}

// spell writes the address of a hub in one of the ways it may be written.
func (d *redir) spell(h *rhub) string {
	t := d.t
	m := meaning{valid: true, scheme: h.scheme, host: h.host, port: fmt.Sprint(h.port)}
	var pref string
	switch h.scheme {
	case "dchub":
		pref = []string{"dchub://", "", "nmdc://", "DCHUB://", "Nmdc://"}[t.Weighted(3, 3, 2, 1, 1)]
	case "nmdcs":
		pref = []string{"nmdcs://", "NMDCS://"}[t.Weighted(3, 1)]
	case "adc":
		pref = []string{"adc://", "ADC://"}[t.Weighted(3, 1)]
	case "adcs":
		pref = []string{"adcs://", "Adcs://"}[t.Weighted(3, 1)]
	}
	s := pref + h.host
	if h.port == 411 && (h.scheme == "dchub" || h.scheme == "nmdcs") && t.Bool() {
		m.port = ""
	} else {
		s += ":" + m.port
	}
	s += strings.Repeat("/", t.Weighted(4, 2, 1))
	if h.kp != "" && t.Bool() {
		m.kp = h.kp
		kp := h.kp
		if t.Bool() {
			kp = strings.ReplaceAll(kp, "/", "%2F")
		}
		m.query = "?kp=" + kp
		s += m.query
	}
	d.means[s] = m
	return s
}

func (d *redir) anyAddr() string {
	t := d.t
	switch t.Weighted(8, 1, 1) {
	case 1:
		s := badAddrs[t.Intn(len(badAddrs))]
		d.means[s] = meaning{}
		return s
	case 2: // nobody is there
		return d.spell(&rhub{scheme: []string{"dchub", "nmdcs", "adc", "adcs"}[t.Intn(4)], host: "gone.example.org", port: 411})
	}
	return d.spell(d.hubs[t.Intn(len(d.hubs))])
}

func runC27(w *World) {
	t := w.T
	d := &redir{w: w, t: t, means: map[string]meaning{}}
	hosts := []string{"hub.example.org", "localhost", "10.1.2.3", "[::1]", "[fe80::5]", "adc", "adchub.net", "adcs.example.com", "nmdc", "dchub.example.org", "nmdcs", "a-b.c"}
	used := map[string]bool{}
	for i, n := 0, 2+t.Intn(5); i < n; i++ {
		h := &rhub{id: i, scheme: []string{"dchub", "dchub", "nmdcs", "adc", "adcs"}[t.Intn(5)], host: hosts[t.Intn(len(hosts))], port: []int{411, 411, 412, 1, 65535, 5000}[t.Intn(6)], end: t.Weighted(2, 4, 2, 1)}
		for used[fmt.Sprint(h.host, h.port)] {
			h.port++
			if h.port > 65535 {
				h.port = 2
			}
		}
		used[fmt.Sprint(h.host, h.port)] = true
		if t.Chance(400) {
			h.kp = "SHA256/" + refBase32(t.Blob(32, ""))
		}
		d.hubs = append(d.hubs, h)
	}
	var desc []string
	for _, h := range d.hubs {
		t.Begin()
		for i, n := 0, t.Weighted(30, 20, 10, 8, 3, 2, 1); i < n; i++ {
			h.failover = append(h.failover, d.anyAddr())
		}
		if t.Chance(300) {
			h.own = d.spell(h)
		}
		if h.end == 1 {
			h.redirect = d.anyAddr()
		}
		desc = append(desc, fmt.Sprintf("%s://%s:%d(end %d %q %q)", h.scheme, h.host, h.port, h.end, h.redirect, h.failover))
		t.End()
	}
	w.Sample = strings.Join(desc, " ")
	for c, n := 0, 1+t.Weighted(3, 1); c < n; c++ {
		c := c
		start := []string{d.anyAddr()}
		for i, n := 0, t.Intn(3); i < n; i++ {
			start = append(start, d.anyAddr())
		}
		w.Go(fmt.Sprintf("client%d", c), func() { d.client(c, start) })
	}
	finish(w, "following redirects")
}

// serve is one connection of a hub.
func (d *redir) serve(h *rhub, c *Conn, cut bool) {
	w := d.w
	defer c.Close()
	if h.end == 3 {
		return
	}
	bad := func(what string, err error) bool {
		if err != nil && !cut {
			w.Fail("error", "hub %d: %s: %v although nothing is wrong with the connection", h.id, what, err)
		}
		return err != nil
	}
	if strings.HasPrefix(h.scheme, "adc") {
		wr := adc.NewWriter(c)
		if h.own != "" && bad("HubInfo", wr.WriteInfo(adc.HubInfo{Name: "hub", Address: h.own})) {
			return
		}
		switch h.end {
		case 0:
			if bad("Status", wr.WriteInfo(adc.Status{Sev: adc.Success, Msg: "welcome"})) {
				return
			}
		case 1:
			if bad("Disconnect", wr.WriteInfo(adc.Disconnect{ID: types.SIDFromInt(uint32(d.conns)), Message: "go away", Redirect: h.redirect})) {
				return
			}
		}
		bad("Flush", wr.Flush())
		return
	}
	wr := nmdc.NewWriter(c)
	var msgs []nmdc.Message
	if h.own != "" {
		msgs = append(msgs, &nmdc.HubINFO{Name: "hub", Host: h.own})
	}
	if len(h.failover) > 0 {
		msgs = append(msgs, &nmdc.FailOver{Host: h.failover})
	}
	switch h.end {
	case 0:
		msgs = append(msgs, &nmdc.Hello{Name: "client"})
	case 1:
		msgs = append(msgs, &nmdc.ForceMove{Address: h.redirect})
	}
	if bad("WriteMsg", wr.WriteMsg(msgs...)) {
		return
	}
	bad("Flush", wr.Flush())
}

// visit talks to a hub until it redirects, welcomes or goes away.
func (d *redir) visit(c *Conn, h *rhub, proto string, cut bool) (next, own string, failover []string, welcome bool) {
	defer c.Close()
	w := d.w
	end := func(err error) {
		if err != io.EOF && !cut {
			w.Fail("error", "reading from hub %d: %v although nothing is wrong with the connection", h.id, err)
		}
	}
	if proto == "adc" {
		r := adc.NewReader(c)
		for {
			p, err := r.ReadPacketRaw()
			if err != nil {
				end(err)
				return
			}
			var m adc.Message
			if p.Message().Cmd() == (adc.HubInfo{}).Cmd() {
				var hi adc.HubInfo
				err = p.DecodeMessageTo(&hi)
				m = hi
			} else {
				err = p.DecodeMessage()
				m = p.Message()
			}
			if err != nil {
				w.Fail("error", "decoding what hub %d sent: %v", h.id, err)
				return
			}
			switch m := m.(type) {
			case adc.HubInfo:
				own = m.Address
			case adc.Disconnect:
				return m.Redirect, own, nil, false
			case adc.Status:
				return "", own, nil, m.Ok()
			}
		}
	}
	r := nmdc.NewReader(c)
	for {
		m, err := r.ReadMsg()
		if err != nil {
			end(err)
			return
		}
		switch m := m.(type) {
		case *nmdc.HubINFO:
			own = m.Host
		case *nmdc.FailOver:
			failover = m.Host
		case *nmdc.ForceMove:
			return m.Address, own, failover, false
		case *nmdc.Hello:
			return "", own, failover, true
		}
	}
}

func (d *redir) parts(what string, u *url.URL, m meaning) bool {
	host := strings.Trim(m.host, "[]")
	if u.Scheme != m.scheme || u.Hostname() != host || u.Port() != m.port || keyprint.FromURL(u) != m.kp || strings.Trim(u.Path, "/") != "" {
		d.w.Fail("wrong-address", "%s is taken for scheme %q host %q port %q path %q keyprint %q, it is %s", what, u.Scheme, u.Hostname(), u.Port(), u.Path, keyprint.FromURL(u), m.key())
		return false
	}
	return true
}

// address is what the library makes of an address, compared with what it means.
func (d *redir) address(text string) (m meaning, norm string, ok bool) {
	w := d.w
	w.Inc("op")
	m, known := d.means[text]
	if !known {
		w.Fail("altered-address", "a client is told %q, which no hub said", text)
		return
	}
	norm, err := dc.NormalizeAddr(text)
	if !m.valid {
		if err == nil {
			w.Fail("bad-address", "%q is accepted as %q", text, norm)
		}
		w.Inc("probe.invalid")
		return
	}
	u, perr := dc.ParseAddr(text)
	if err != nil || perr != nil {
		w.Fail("bad-address", "%q (%s) is refused: %v, %v", text, m.key(), err, perr)
		return
	}
	d.parts(fmt.Sprintf("%q", text), u, m)
	if d.t.Chance(200) { // the caller takes what it needs off its copy
		u.Scheme, u.Host, u.Path, u.RawQuery = "", "changed", "/changed", ""
		w.Inc("probe.spoiled")
	}
	again, err := dc.NormalizeAddr(norm)
	if err != nil || again != norm {
		w.Fail("not-stable", "%q is normalised to %q, and that to %q (%v)", text, norm, again, err)
	}
	if u, err = dc.ParseAddr(text); err != nil {
		w.Fail("not-stable", "%q is refused the second time: %v", text, err)
		return
	}
	d.parts(fmt.Sprintf("%q again", text), u, m)
	if u, err = dc.ParseAddr(norm); err != nil {
		w.Fail("not-stable", "%q is normalised to %q, which is refused: %v", text, norm, err)
		return
	}
	d.parts(fmt.Sprintf("%q, the normal form of %q,", norm, text), u, m)
	// the protocol's own functions agree
	own := nmdc.NormalizeAddr
	if strings.HasPrefix(m.scheme, "adc") {
		own = adc.NormalizeAddr
	}
	if s, err := own(text); err != nil || s != norm {
		w.Fail("disagree", "%q is %q for the protocol's package and %q for the common one (%v)", text, s, norm, err)
	}
	return m, norm, true
}

func (d *redir) client(id int, todo []string) {
	w, t := d.w, d.t
	visited, told := map[string]bool{}, map[string]bool{}
	for steps := 0; len(todo) > 0; {
		text := todo[0]
		todo = todo[1:]
		m, norm, ok := d.address(text)
		if !ok {
			continue
		}
		if visited[norm] != told[m.key()] {
			w.Fail("same-hub", "client %d: %q (%q) was visited before: %v, the client finds %v", id, text, norm, told[m.key()], visited[norm])
		}
		if visited[norm] {
			w.Inc("probe.seen")
			continue
		}
		visited[norm], told[m.key()] = true, true
		if steps++; steps > len(d.means) {
			w.Fail("progress", "client %d visits more hubs than there are addresses", id)
			return
		}
		u, err := dc.ParseAddr(norm)
		if err != nil {
			return
		}
		port := u.Port()
		if port == "" {
			port = fmt.Sprint(nmdc.DefaultPort)
		}
		var hub *rhub
		for _, h := range d.hubs {
			if strings.Trim(h.host, "[]") == u.Hostname() && fmt.Sprint(h.port) == port {
				hub = h
			}
		}
		if hub == nil {
			if m.host != "gone.example.org" {
				w.Fail("wrong-hub", "client %d: %q leads to %s port %s, where nobody is", id, text, u.Hostname(), port)
			}
			w.Inc("fault.no_hub")
			continue
		}
		if hub.scheme != u.Scheme {
			w.Fail("wrong-hub", "client %d: %q leads to a hub of %s with %s", id, text, hub.scheme, u.Scheme)
			return
		}
		proto := "nmdc"
		if u.Scheme == adc.SchemaADC || u.Scheme == adc.SchemaADCS {
			proto = "adc"
		}
		up, down := w.DrawNet(), w.DrawNet()
		up.CutAt, down.CutAt = -1, -1
		cut := t.Chance(150)
		if cut {
			down.CutAt = t.Intn(150)
			down.CutErr = []error{io.EOF, errors.New("connection reset by peer")}[t.Intn(2)]
			w.Inc("fault.cut")
		}
		d.conns++
		cc, ch := w.NewConnPair(d.conns, up, down)
		cc.Name, ch.Name = fmt.Sprintf("client%d", id), fmt.Sprintf("hub%d", hub.id)
		w.Go(fmt.Sprintf("hub%d.%d", hub.id, d.conns), func() { d.serve(hub, ch, cut) })
		next, own, failover, welcome := d.visit(cc, hub, proto, cut)
		w.Inc("probe.visits")
		if hub.end == 3 {
			w.Inc("fault.hub_died")
		}
		said := hub.failover
		if proto == "adc" {
			said = nil
		}
		whole := hub.end != 3 && !cut
		if whole && (own != hub.own || next != hub.redirect || welcome != (hub.end == 0) || canon(failover) != canon(said)) {
			w.Fail("wrong-message", "client %d: hub %d said own address %q, failover %q, redirect %q, welcome %v; heard were %q, %q, %q, %v", id, hub.id, hub.own, said, hub.redirect, hub.end == 0, own, failover, next, welcome)
		}
		if own != "" {
			d.address(own)
		}
		if welcome {
			w.Inc("probe.welcome")
			return
		}
		todo = append(todo, failover...)
		if next != "" {
			todo = append([]string{next}, todo...)
			w.Inc("probe.redirects")
		}
	}
	w.Inc("probe.exhausted")
}
