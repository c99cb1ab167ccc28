package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"github.com/direct-connect/go-dc/types"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C26", Quick: 90000, Thorough: 2000000,
		Rule: "A hub relays the searches of 2 to 5 clients (NMDC or ADC) that share drawn files and directories: by words, size, kind, extension, group of extensions or hash; to all, to the users with some features or to one; searchers are active (results come as datagrams that are lost, repeated, delayed and reordered) or passive (results come back through the hub). Searchers ask some of those who answered for a connection in the way the two modes require. Clients encode with the library or with code of our own; connections are fragmented, delayed and cut at drawn offsets. Queries, results and connections are compared with a match of the original queries over the shares.",
		Real: []string{"nmdc.Search, TTHSearchActive, TTHSearchPassive, SR, ConnectToMe, RevConnectToMe, MyINFO", "adc.SearchRequest, SearchResult, ConnectRequest, RevConnectRequest, UserInfo", "adc.ExtGroup.Matches", "nmdc and adc Reader and Writer, nmdc.Marshal and Unmarshal, adc.DecodePacket", "lineproto"},
		Stub: []string{"hub and client logic, file lists and matching by words and size (scripted)", "datagram network and dialling (simulated)", "transport (simulated connections)", "clock"},
		Run:  runC26,
	})
}

// sfile is something a user shares.
type sfile struct {
	path []string
	dir  bool
	size uint64
	tth  *tiger.Hash
	ext  string // as spelled, without the dot
}

func (f *sfile) full(sep string) string { return strings.Join(f.path, sep) }

func (f *sfile) name() string { return f.path[len(f.path)-1] }

// squery is what a user looks for.
type squery struct {
	by    *suser
	id    int
	token string
	tth   *tiger.Hash
	// NMDC
	restricted, max bool
	size            uint64
	typ             nmdc.DataType
	pattern         string
	// ADC
	and, not, ext, noext []string
	le, ge, eq           int64
	kind                 adc.FileType
	group                adc.ExtGroup
	how                  byte // B to all, F to those with features, D to one
	sel                  []adc.FeatureSel
	to                   *suser
}

type suser struct {
	i         int
	nick      string
	sid       adc.SID
	cid       adc.CID
	active    bool
	tls       bool
	lib       bool // encodes with the library
	tths      bool
	feas      adc.ExtFeatures
	ip        string
	port      int
	free, all int
	files     []*sfile
	queries   []*squery

	cs, hs    *Conn
	cut       bool
	down, up  *outbox
	sock      []string // datagrams waiting
	sockWait  *Task
	known     map[string]bool // mode of the users it has heard of, by name or session id
	knownAddr map[adc.SID]string
	asked     map[string]bool

	heard, wantHeard       map[string]int // queries
	got, want, sent, deliv map[string]int // results
	dialed, wantDial       map[string]int
}

func (u *suser) addr() string { return fmt.Sprintf("%s:%d", u.ip, u.port) }

type searches struct {
	w     *World
	t     *Tape
	users []*suser
	words []string
	hash  []tiger.Hash
	cuts  bool
	busy  int // messages put but not handled
	acts  int
	ended bool

	loss, dup, reord int
	flying           int
	nwrite           map[int]func(nmdc.Message) error
	awrite           map[int]func(adc.Packet) error
}

// the groups of extensions of the search grouping extension
var segaTable = map[adc.ExtGroup]string{
	adc.ExtAudio: "ape flac m4a mid mp3 mpc ogg ra wav wma",
	adc.ExtArch:  "7z ace arj bz2 gz lha lzh rar tar tz z zip",
	adc.ExtDoc:   "doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps",
	adc.ExtExe:   "app bat cmd com dll exe jar msi ps1 vbs wsf",
	adc.ExtImage: "bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp",
	adc.ExtVideo: "3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv",
}

var segaExts = func() (r []string) {
	for _, s := range segaTable {
		r = append(r, strings.Fields(s)...)
	}
	sort.Strings(r)
	return
}()

// inGroup tells if an extension belongs to one of the groups.
func inGroup(g adc.ExtGroup, ext string) bool {
	for i := 0; i < 6; i++ {
		if x := adc.ExtGroup(1 << i); g&x != 0 && ext != "" && slices.Contains(strings.Fields(segaTable[x]), strings.ToLower(ext)) {
			return true
		}
	}
	return false
}

// typeOf gives the kind of a file in an NMDC search.
func typeOf(ext string) nmdc.DataType {
	for i, d := range []nmdc.DataType{nmdc.DataTypeAudio, nmdc.DataTypeCompressed, nmdc.DataTypeDocument, nmdc.DataTypeExecutable, nmdc.DataTypePicture, nmdc.DataTypeVideo} {
		if inGroup(1<<i, ext) {
			return d
		}
	}
	return 0
}

func holds(path, word string) bool {
	return strings.Contains(strings.ToLower(path), strings.ToLower(word))
}

// nmatch matches an NMDC query.
func (q *squery) nmatch(f *sfile) bool {
	if q.typ == nmdc.DataTypeTTH {
		return f.tth != nil && *f.tth == *q.tth
	}
	if q.typ == nmdc.DataTypeFolders {
		if !f.dir {
			return false
		}
	} else if q.typ > nmdc.DataTypeAny && (f.dir || typeOf(f.ext) != q.typ) {
		return false
	}
	if q.restricted && (f.dir || q.max && f.size > q.size || !q.max && f.size < q.size) {
		return false
	}
	for _, x := range strings.Split(q.pattern, " ") {
		if !holds(f.full("\\"), x) {
			return false
		}
	}
	return true
}

// amatch matches an ADC query with a way to tell the groups of a file.
func (q *squery) amatch(f *sfile, group func(adc.ExtGroup, *sfile) bool) bool {
	if q.tth != nil {
		return f.tth != nil && *f.tth == *q.tth
	}
	for _, x := range q.and {
		if !holds(f.full("/"), x) {
			return false
		}
	}
	for _, x := range q.not {
		if holds(f.full("/"), x) {
			return false
		}
	}
	if q.kind == adc.FileTypeFile && f.dir || q.kind == adc.FileTypeDir && !f.dir {
		return false
	}
	size := int64(f.size)
	if q.le != 0 && size > q.le || q.ge != 0 && size < q.ge || q.eq != 0 && size != q.eq {
		return false
	}
	in := func(l []string) bool {
		return !f.dir && slices.ContainsFunc(l, func(x string) bool { return f.ext != "" && strings.EqualFold(x, f.ext) })
	}
	if in(q.noext) {
		return false
	}
	if len(q.ext) != 0 && q.group == adc.ExtNone {
		return in(q.ext)
	}
	return in(q.ext) || group(q.group, f)
}

func refGroup(g adc.ExtGroup, f *sfile) bool {
	return g == 0 || !f.dir && inGroup(g, f.ext)
}

// libGroup asks the library in a drawn form.
func (s *searches) libGroup(g adc.ExtGroup, f *sfile) bool {
	if g != 0 && (f.dir || f.ext == "") {
		return false
	}
	forms := []string{f.ext, "." + f.ext, f.name(), f.full("/")}
	if f.ext == "" {
		forms = []string{"", f.name(), f.full("/")}
	}
	x := forms[s.t.Intn(len(forms))]
	r := g.Matches(x)
	if r != refGroup(g, f) {
		s.w.Fail("match", "the groups %#x are said to match %q: %v", int(g), x, r)
	}
	return r
}

func (q *squery) String() string {
	h := ""
	if q.tth != nil {
		h = fmt.Sprintf("%x", q.tth[:6])
	}
	if q.token == "" {
		if q.typ == nmdc.DataTypeTTH { // a search for a hash has nothing else
			return fmt.Sprintf("%d hash %s", q.by.i, h)
		}
		return fmt.Sprintf("%d %v %v %d %d %q", q.by.i, q.restricted, q.max, q.size, q.typ, q.pattern)
	}
	return fmt.Sprintf("%d %q %s %q %q %q %q %d %d %d %d %d", q.by.i, q.token, h, q.and, q.not, q.ext, q.noext, q.le, q.ge, q.eq, q.kind, q.group)
}

func runC26(w *World) {
	s := &searches{w: w, t: w.T, nwrite: map[int]func(nmdc.Message) error{}, awrite: map[int]func(adc.Packet) error{}}
	if w.T.Bool() {
		s.nmdc()
	} else {
		s.adc()
	}
}

// draw makes the users and their connections.
func (s *searches) draw(name func() string, word func() string) {
	w, t := s.w, s.t
	for _, f := range []*int{&s.loss, &s.dup, &s.reord} {
		if t.Chance(400) {
			*f = t.Intn(500)
		}
	}
	s.cuts = t.Chance(250)
	for i, n := 0, 3+t.Intn(4); i < n; i++ {
		s.words = append(s.words, word())
	}
	for i := 0; i < 4; i++ {
		var h tiger.Hash
		copy(h[:], t.Blob(24, ""))
		s.hash = append(s.hash, h)
	}
	n := 2 + t.Intn(4)
	for i := 0; i < n; i++ {
		t.Begin()
		u := &suser{i: i, nick: name(), active: t.Bool(), tls: t.Bool(), lib: t.Bool(), tths: t.Bool(), ip: fmt.Sprintf("10.0.%d.1", i), port: 1 + t.Intn(65535), free: t.Intn(9), all: t.Intn(99),
			known: map[string]bool{}, knownAddr: map[adc.SID]string{}, asked: map[string]bool{}, heard: map[string]int{}, wantHeard: map[string]int{},
			got: map[string]int{}, want: map[string]int{}, sent: map[string]int{}, deliv: map[string]int{}, dialed: map[string]int{}, wantDial: map[string]int{}}
		copy(u.cid[:], t.Blob(24, ""))
		copy(u.sid[:], t.Blob(3, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"))
		u.sid[3] = byte('A' + i)
		u.cid[0] = byte(i)
		seen := map[string]bool{}
		for j, k := 0, t.Intn(6); j < k; j++ {
			f := &sfile{dir: t.Chance(200)}
			for a, b := 0, 1+t.Intn(3); a < b; a++ {
				c := ""
				for d, e := 0, 1+t.Intn(2); d < e; d++ {
					c += []string{"", " ", "-"}[t.Intn(3)] + s.words[t.Intn(len(s.words))]
				}
				f.path = append(f.path, c)
			}
			last := &f.path[len(f.path)-1]
			if f.dir {
				*last += "d"
			} else {
				switch t.Weighted(5, 1, 1) {
				case 0:
					f.ext = segaExts[t.Intn(len(segaExts))]
				case 1:
					f.ext = []string{"foo", "mp33", "x", "p3", "tiff"}[t.Intn(5)]
				}
				switch t.Weighted(6, 2, 2) {
				case 1:
					f.ext = strings.ToUpper(f.ext)
				case 2:
					b := []byte(f.ext)
					for i := range b {
						if t.Bool() {
							b[i] = strings.ToUpper(f.ext)[i]
						}
					}
					f.ext = string(b)
				}
				if *last = strings.ReplaceAll(*last, ".", "_"); f.ext != "" {
					if t.Chance(150) {
						*last += "." + segaExts[t.Intn(len(segaExts))]
					}
					*last += "." + f.ext
				} else {
					*last += "_"
					for j := range f.path {
						f.path[j] = strings.ReplaceAll(f.path[j], ".", "_")
					}
				}
				f.size = uint64([]int{0, 1, 10, 1 << 20, 1<<31 - 1, 1 << 32, 1<<40 + 7, 1<<62 + 1}[t.Intn(8)])
				if t.Chance(700) {
					f.tth = &s.hash[t.Intn(len(s.hash))]
				}
			}
			if k := f.full("/"); !seen[k] {
				seen[k] = true
				u.files = append(u.files, f)
			}
		}
		up, down := w.DrawNet(), w.DrawNet()
		for _, x := range []*Profile{&up, &down} {
			if x.Window > 0 && x.Window < 256 {
				x.Window = 256
			}
			x.Tame(20000)
			x.CutAt = -1
		}
		if s.cuts && t.Bool() {
			x := &up
			if t.Bool() {
				x = &down
			}
			x.CutAt, x.CutErr = t.Intn(1500), io.EOF
			if t.Bool() {
				x.CutErr = errors.New("connection reset by peer")
			}
			u.cut = true
		}
		u.cs, u.hs = w.NewConnPair(i, up, down)
		u.cs.Name, u.hs.Name = fmt.Sprintf("client%d", i), fmt.Sprintf("hub%d", i)
		u.down, u.up = &outbox{w: w}, &outbox{w: w}
		s.users = append(s.users, u)
		t.End()
	}
}

// put queues a message of a connection.
func (s *searches) put(o *outbox, f func() error) {
	s.busy++
	o.put(f)
}

// handled notes that a message has arrived and was dealt with.
func (s *searches) handled() {
	s.busy--
	s.acts++
	s.w.Inc("op")
}

func (s *searches) check(u *suser, what string, err error) bool {
	if err == nil {
		return true
	}
	if !u.cut {
		s.w.Fail("error", "client %d: %s: %v although nothing is wrong with the connection", u.i, what, err)
	}
	return false
}

// datagram sends to an address.
func (s *searches) datagram(from *suser, to *suser, key string, data []byte) {
	w, t := s.w, s.t
	to.sent[key]++
	for c := 0; c < 3; c++ {
		if t.Chance(s.loss) {
			w.Inc("fault.loss")
		} else {
			d := time.Duration(0)
			if t.Chance(s.reord) {
				d = time.Duration(1+t.Intn(500)) * ms
				w.Inc("fault.reorder")
			}
			s.flying++
			b := string(data)
			w.After(d, func() {
				to.deliv[key]++
				to.sock = append(to.sock, b)
				s.wakeSock(to)
			})
		}
		if !t.Chance(s.dup) {
			break
		}
		w.Inc("fault.duplicate")
	}
}

func (s *searches) wakeSock(u *suser) {
	if x := u.sockWait; x != nil {
		u.sockWait = nil
		s.w.Wake(x)
	}
}

// result books a result a searcher received.
func (s *searches) result(u *suser, key string) {
	s.w.Inc("probe.results")
	u.got[key]++
	if u.want[key] == 0 {
		s.w.Fail("result", "client %d received a result nobody should give: %s; it may get %q", u.i, key, sortedKeys(u.want))
	}
}

// hear books a query that reached a user.
func (s *searches) hear(u *suser, q *squery) {
	s.w.Inc("probe.queries")
	k := q.String()
	u.heard[k]++
	if u.heard[k] > u.wantHeard[k] {
		s.w.Fail("query", "client %d received the query %s %d times; it should get %q", u.i, k, u.heard[k], sortedKeys(u.wantHeard))
	}
}

// dial books a connection to a peer.
func (s *searches) dial(u *suser, key string) {
	s.w.Inc("probe.dials")
	u.dialed[key]++
	if u.dialed[key] > u.wantDial[key] {
		s.w.Fail("connect", "client %d connects to %s, asked were %q", u.i, key, sortedKeys(u.wantDial))
	}
}

// end runs the tasks that end the run, and judges it.
func (s *searches) end() {
	w := s.w
	s.busy += len(s.users) // until they have said what they want to say
	w.Go("end", func() {
		limit := 400 // a slow connection may be busy with one message for long
		for idle, last := 0, -1; idle < limit && (s.busy > 0 || s.flying > 0); idle++ {
			w.Sleep(10 * time.Second)
			if s.acts != last {
				last, idle = s.acts, 0
			}
		}
		for _, u := range s.users {
			u.up.close()
			u.down.close()
		}
		s.ended = true
		for _, u := range s.users {
			s.wakeSock(u)
		}
	})
	if !finish(w, "a hub and its searching clients") {
		return
	}
	broken := false
	for _, u := range s.users {
		broken = broken || u.cs.In.CutFired() || u.hs.In.CutFired()
	}
	all := func(u *suser, class, what string, got, want map[string]int) {
		for _, k := range sortedKeys(want) {
			if got[k] > want[k] || got[k] < want[k] && !broken {
				w.Fail(class, "client %d: %s %s %d times instead of %d", u.i, what, k, got[k], want[k])
			}
		}
	}
	for _, u := range s.users {
		all(u, "query", "received the query", u.heard, u.wantHeard)
		all(u, "connect", "connects to", u.dialed, u.wantDial)
		if u.active {
			all(u, "result", "was sent the result", u.sent, u.want)
			for _, k := range sortedKeys(u.deliv) {
				if u.got[k] != u.deliv[k] {
					w.Fail("result", "client %d: %d datagrams with %s arrived, %d were read", u.i, u.deliv[k], k, u.got[k])
				}
			}
		} else {
			all(u, "result", "received the result", u.got, u.want)
		}
	}
}

// plan notes who should hear a query and what it should bring.
func (s *searches) plan(q *squery, hears func(*suser) bool, match func(*sfile) bool, key func(*suser, *sfile) string) {
	for _, r := range s.users {
		if r == q.by || !hears(r) {
			continue
		}
		r.wantHeard[q.String()]++
		for _, f := range r.files {
			if match(f) {
				q.by.want[key(r, f)]++
			}
		}
	}
}

// ---- NMDC

func (s *searches) nmdc() {
	w, t := s.w, s.t
	cs := charsets[t.Intn(len(charsets))]
	g := &ngen{t: t, cs: cs}
	names := map[string]bool{}
	s.draw(func() string {
		n := g.name()
		for names[n] || g.nameLen(n) > 200 {
			n = fmt.Sprintf("u%d", len(names))
			names[n+"x"] = true
		}
		names[n] = true
		return n
	}, func() string { return g.str1(" /\\\x05") })
	hubName := hubName(g)
	hubAddr := g.addr()
	byNick, byAddr := map[string]*suser{}, map[string]*suser{}
	for _, u := range s.users {
		if t.Chance(200) {
			u.ip = fmt.Sprintf("[fe80::%d]", u.i)
		}
		byNick[u.nick], byAddr[u.addr()] = u, u
		u.free, u.all = g.cnt(), g.cnt()
	}
	key := func(r *suser, f *sfile) string {
		h := hubName
		if f.tth != nil {
			h = fmt.Sprintf("%x", f.tth[:6])
		}
		return fmt.Sprintf("%d %v %q %d %s %d/%d", r.i, f.dir, f.path, f.size, h, r.free, r.all)
	}
	var all []*squery
	for _, u := range s.users {
		for i, n := 0, t.Intn(4); i < n; i++ {
			t.Begin()
			q := &squery{by: u, id: i, restricted: t.Chance(300), typ: nmdc.DataType(1 + t.Intn(9))}
			if t.Bool() {
				q.typ = nmdc.DataTypeAny
			}
			q.max = !q.restricted || t.Bool()
			if q.restricted || t.Chance(200) {
				q.size = uint64([]int{0, 1, 10, 1 << 20, 1<<31 - 1, 1 << 32, 1<<40 + 6, 1<<62 + 1}[t.Intn(8)])
			}
			if q.typ == nmdc.DataTypeTTH {
				q.tth = &s.hash[t.Intn(len(s.hash))]
			} else {
				var p []string
				for j, k := 0, t.Weighted(1, 6, 2, 1); j < k; j++ {
					p = append(p, s.words[t.Intn(len(s.words))])
				}
				if t.Chance(100) {
					p = append(p, g.str1(""))
				}
				q.pattern = strings.Join(p, " ")
			}
			if len(all) > 0 && t.Chance(200) { // asked before, by this user or another
				c := *all[t.Intn(len(all))]
				c.by, c.id = u, i
				q = &c
			}
			all = append(all, q)
			u.queries = append(u.queries, q)
			s.plan(q, func(*suser) bool { return true }, q.nmatch, key)
			t.End()
		}
	}
	w.Sample = fmt.Sprintf("NMDC, %s, %d users, permille loss %d dup %d reorder %d, cuts %v", cs.name, len(s.users), s.loss, s.dup, s.reord, s.cuts)

	for _, u := range s.users {
		u := u
		// the hub's side
		nw := nmdc.NewWriterSize(u.hs, []int{0, 16, 300}[t.Intn(3)])
		nw.SetEncoder(cs.encoder())
		w.Go("out-"+u.hs.Name, func() {
			u.down.run(nw.Flush)
			s.check(u, "hub writing", u.down.err)
			nw.Close()
			u.hs.Out.CloseWrite()
		})
		nr := nmdc.NewReader(u.hs)
		nr.SetDecoder(cs.decoder())
		nr.SetMaxLine(0)
		cw := nmdc.NewWriterSize(u.cs, []int{0, 16, 300}[t.Intn(3)])
		cw.SetEncoder(cs.encoder())
		// another implementation has to understand what the library writes
		wire := func(m nmdc.Message) {
			b, err := nmdc.Marshal(cs.encoder(), m)
			if err != nil {
				w.Fail("error", "encoding %s: %v", short(canon(m)), err)
				return
			}
			if sm, ok := m.(*nmdc.Search); ok && sm.DataType == 0 { // nothing asked for is anything
				x := *sm
				x.DataType = nmdc.DataTypeAny
				m = &x
			}
			if d := matchWire(b, [][][]byte{nref(cs, m)}, false); d != "" {
				w.Fail("wire", "%s", d)
			}
		}
		relay := func(o *suser, m nmdc.Message) {
			wire(m)
			s.put(o.down, func() error { return s.nwrite[o.i](m) })
		}
		s.nwrite[u.i] = func(m nmdc.Message) error { return nw.WriteMsg(m) }
		// hubSearch gives a search to everybody else in a form they know
		hubSearch := func(m *nmdc.Search) {
			if m.Address != "" && m.Address != u.addr() || m.Address == "" && m.User != u.nick || u.active == (m.Address == "") {
				w.Fail("query", "client %d (%s, %s) sent the search %s", u.i, u.nick, u.addr(), short(canon(m)))
			}
			for _, o := range s.users {
				if o == u {
					continue
				}
				if m.DataType == nmdc.DataTypeTTH && o.tths && t.Bool() {
					if m.Address != "" {
						relay(o, &nmdc.TTHSearchActive{TTH: *m.TTH, Address: m.Address})
					} else {
						relay(o, &nmdc.TTHSearchPassive{TTH: *m.TTH, User: m.User})
					}
				} else {
					relay(o, m)
				}
			}
		}
		w.Go(u.hs.Name, func() {
			defer u.hs.In.CloseRead()
			for {
				m, err := nr.ReadMsg()
				if err != nil {
					if err != io.EOF {
						s.check(u, "hub reading", err)
					}
					return
				}
				lost := func(who string) {
					w.Fail("routing", "client %d sent %s to %q, who does not exist", u.i, short(canon(m)), who)
				}
				switch m := m.(type) {
				case *nmdc.MyINFO:
					for _, o := range s.users {
						relay(o, m)
					}
				case *nmdc.Search:
					hubSearch(m)
				case *nmdc.TTHSearchActive:
					hubSearch(&nmdc.Search{Address: m.Address, DataType: nmdc.DataTypeTTH, TTH: &m.TTH})
				case *nmdc.TTHSearchPassive:
					hubSearch(&nmdc.Search{User: m.User, DataType: nmdc.DataTypeTTH, TTH: &m.TTH})
				case *nmdc.SR:
					o := byNick[m.To]
					if m.From != u.nick {
						w.Fail("routing", "client %d sent a result as %q", u.i, m.From)
					}
					if o == nil {
						lost(m.To)
						return
					}
					m.To = ""
					relay(o, m)
				case *nmdc.ConnectToMe:
					o := byNick[m.Targ]
					if o == nil {
						lost(m.Targ)
						return
					}
					relay(o, m)
				case *nmdc.RevConnectToMe:
					o := byNick[m.To]
					if m.From != u.nick {
						w.Fail("routing", "client %d asks for a connection as %q", u.i, m.From)
					}
					if o == nil {
						lost(m.To)
						return
					}
					relay(o, m)
				default:
					w.Fail("routing", "the hub received %s from client %d", short(canon(m)), u.i)
				}
				s.handled()
			}
		})

		// the client
		w.Go("out-"+u.cs.Name, func() {
			u.up.run(cw.Flush)
			s.check(u, "client writing", u.up.err)
			cw.Close()
			u.cs.Out.CloseWrite()
		})
		say := func(m nmdc.Message) {
			if u.lib {
				wire(m)
				s.put(u.up, func() error { return cw.WriteMsg(m) })
				return
			}
			b := g.encode(m)
			if sm, ok := m.(*nmdc.Search); ok && !sm.SizeRestricted && sm.Size == 0 && t.Bool() { // some clients
				b = bytes.Replace(b, []byte(" F?T?0?"), []byte(" T?T?-1?"), 1)
			}
			s.put(u.up, func() error { return cw.WriteLine(b) })
		}
		// gotResult handles a result and asks for a connection now and then
		gotResult := func(m *nmdc.SR) {
			r := byNick[m.From]
			if r == nil || m.HubAddress != hubAddr || m.To != "" {
				w.Fail("result", "client %d received %s", u.i, short(canon(m)))
				return
			}
			f := &sfile{path: m.Path, dir: m.IsDir, size: m.Size, tth: m.TTH}
			k := fmt.Sprintf("%d %v %q %d %s %d/%d", r.i, f.dir, f.path, f.size, m.HubName, m.FreeSlots, m.TotalSlots)
			if m.TTH != nil {
				k = fmt.Sprintf("%d %v %q %d %x %d/%d", r.i, f.dir, f.path, f.size, m.TTH[:6], m.FreeSlots, m.TotalSlots)
			}
			s.result(u, k)
			act, ok := u.known[m.From]
			if !ok || s.ended || u.asked[m.From] || !t.Bool() {
				return
			}
			if act != r.active {
				w.Fail("identity", "client %d was told that the mode of %q is %v", u.i, m.From, act)
			}
			u.asked[m.From] = true
			switch {
			case u.active:
				r.wantDial[fmt.Sprintf("%s tls %v kind 0", u.addr(), u.tls)]++
				say(&nmdc.ConnectToMe{Targ: m.From, Address: u.addr(), Secure: u.tls})
			case act:
				u.wantDial[fmt.Sprintf("%s tls %v kind 0", r.addr(), r.tls)]++
				say(&nmdc.RevConnectToMe{From: u.nick, To: m.From})
			default:
				r.wantDial[fmt.Sprintf("%s tls %v kind 1", u.addr(), u.tls)]++
				u.wantDial[fmt.Sprintf("%s tls %v kind 2", r.addr(), r.tls)]++
				say(&nmdc.ConnectToMe{Targ: m.From, Src: u.nick, Address: u.addr(), Secure: u.tls, Kind: nmdc.CTMPassiveReq})
			}
		}
		search := func(q *squery, addr, user string) {
			if addr != "" {
				q.by = byAddr[addr]
			} else {
				q.by = byNick[user]
			}
			if q.by == nil {
				w.Fail("query", "client %d received a search by %q %q, who does not exist", u.i, addr, user)
				return
			}
			s.hear(u, q)
			for _, f := range u.files {
				if !q.nmatch(f) {
					continue
				}
				m := &nmdc.SR{From: u.nick, Path: f.path, IsDir: f.dir, Size: f.size, FreeSlots: u.free, TotalSlots: u.all, TTH: f.tth, HubAddress: hubAddr}
				if f.tth == nil {
					m.HubName = hubName
				}
				if addr == "" {
					m.To = user
					say(m)
					continue
				}
				var b []byte
				if u.lib {
					var err error
					wire(m)
					if b, err = nmdc.Marshal(cs.encoder(), m); err != nil {
						w.Fail("error", "encoding %s: %v", short(canon(m)), err)
						return
					}
				} else {
					b = g.encode(m)
				}
				s.datagram(u, q.by, key(u, f), b)
			}
		}
		if u.active {
			w.Go("udp-"+u.cs.Name, func() {
				buf := make([]byte, 1<<16)
				for {
					for len(u.sock) == 0 {
						if s.ended && s.flying == 0 {
							return
						}
						u.sockWait = w.Cur()
						w.Park("datagram")
					}
					b := buf[:copy(buf, u.sock[0])]
					u.sock = u.sock[1:]
					m, err := nmdc.Unmarshal(cs.decoder(), b)
					if err != nil {
						w.Fail("result", "client %d: the datagram %s is refused: %v", u.i, q(b), err)
						return
					}
					sr, ok := m.(*nmdc.SR)
					if !ok {
						w.Fail("result", "client %d: the datagram %s is %s", u.i, q(b), short(canon(m)))
						return
					}
					for i := range b {
						b[i] = 0xA5
					}
					gotResult(sr)
					s.acts++
					s.flying--
				}
			})
		}
		cr := nmdc.NewReader(u.cs)
		cr.SetDecoder(cs.decoder())
		cr.SetMaxLine(0)
		w.Go(u.cs.Name, func() {
			defer u.cs.In.CloseRead()
			mode := nmdc.UserModePassive
			if u.active {
				mode = nmdc.UserModeActive
			}
			flag := nmdc.FlagStatusNormal
			if u.tls {
				flag |= nmdc.FlagTLSDownload
			}
			say(&nmdc.MyINFO{Name: u.nick, Mode: mode, Flag: flag, HubsNormal: 1, Slots: 1, Conn: "1", Client: types.Software{Name: "sim", Version: fmt.Sprint(u.i)}})
			for _, x := range u.queries {
				var m nmdc.Message
				sm := &nmdc.Search{SizeRestricted: x.restricted, IsMaxSize: x.max, Size: x.size, DataType: x.typ, Pattern: x.pattern, TTH: x.tth}
				if sm.DataType == nmdc.DataTypeAny && t.Bool() {
					sm.DataType = 0
				}
				if u.active {
					sm.Address = u.addr()
				} else {
					sm.User = u.nick
				}
				m = sm
				if x.tth != nil && u.tths && t.Bool() {
					if u.active {
						m = &nmdc.TTHSearchActive{TTH: *x.tth, Address: u.addr()}
					} else {
						m = &nmdc.TTHSearchPassive{TTH: *x.tth, User: u.nick}
					}
				}
				say(m)
				if t.Bool() {
					w.Sleep(time.Duration(t.Intn(3000)) * ms)
				}
			}
			s.busy--
			for {
				m, err := cr.ReadMsg()
				if err != nil {
					if err != io.EOF {
						s.check(u, "client reading", err)
					}
					return
				}
				switch m := m.(type) {
				case *nmdc.MyINFO:
					r := byNick[m.Name]
					if r == nil || m.Flag&nmdc.FlagTLSDownload != 0 != r.tls {
						w.Fail("identity", "client %d received %s", u.i, short(canon(m)))
						return
					}
					u.known[m.Name] = m.Mode == nmdc.UserModeActive
				case *nmdc.Search:
					search(&squery{restricted: m.SizeRestricted, max: m.IsMaxSize, size: m.Size, typ: m.DataType, pattern: m.Pattern, tth: m.TTH}, m.Address, m.User)
				case *nmdc.TTHSearchActive:
					search(&squery{max: true, typ: nmdc.DataTypeTTH, tth: &m.TTH}, m.Address, "")
				case *nmdc.TTHSearchPassive:
					search(&squery{max: true, typ: nmdc.DataTypeTTH, tth: &m.TTH}, "", m.User)
				case *nmdc.SR:
					if u.active {
						w.Fail("result", "client %d is active but received %s through the hub", u.i, short(canon(m)))
					}
					gotResult(m)
				case *nmdc.ConnectToMe:
					if m.Targ != u.nick {
						w.Fail("routing", "client %d received %s", u.i, short(canon(m)))
					}
					s.dial(u, fmt.Sprintf("%s tls %v kind %d", m.Address, m.Secure, int(m.Kind)))
					if m.Kind == nmdc.CTMPassiveReq {
						say(&nmdc.ConnectToMe{Targ: m.Src, Address: u.addr(), Secure: u.tls, Kind: nmdc.CTMPassiveResp})
					}
				case *nmdc.RevConnectToMe:
					if m.To != u.nick || !u.active {
						w.Fail("routing", "client %d received %s", u.i, short(canon(m)))
					}
					say(&nmdc.ConnectToMe{Targ: m.From, Address: u.addr(), Secure: u.tls})
				default:
					w.Fail("routing", "client %d received %s", u.i, short(canon(m)))
				}
				s.handled()
			}
		})
	}
	s.end()
}

// ---- ADC

// cmd gives a message with the form another implementation sends it in.
func (s *searches) cmd(u *suser, kind byte, to *suser, sel []adc.FeatureSel, m adc.Message, e aenc) *apkt {
	a := &apkt{kind: kind, enc: e, head: string(kind) + cmdName(m)}
	switch kind {
	case 'B':
		a.pkt = &adc.BroadcastPacket{ID: u.sid, Msg: m}
		a.head += " " + string(u.sid[:])
	case 'D':
		a.pkt = &adc.DirectPacket{ID: u.sid, To: to.sid, Msg: m}
		a.head += " " + string(u.sid[:]) + " " + string(to.sid[:])
	case 'F':
		a.pkt = &adc.FeaturePacket{ID: u.sid, Sel: sel, Msg: m}
		a.head += " " + string(u.sid[:])
		for _, x := range sel {
			a.head += " " + map[bool]string{true: "+", false: "-"}[x.Sel] + feaName(x.Fea)
		}
	case 'U':
		a.pkt = &adc.UDPPacket{ID: u.cid, Msg: m}
		a.head += " " + hb32(u.cid)
	}
	return a
}

func (q *squery) request() (adc.SearchRequest, aenc) {
	var e tagger
	m := adc.SearchRequest{Token: q.token, And: q.and, Not: q.not, Ext: q.ext, NoExt: q.noext, Le: q.le, Ge: q.ge, Eq: q.eq, Type: q.kind, Group: q.group}
	e.s("TO", q.token, false)
	for _, x := range []struct {
		tag string
		l   []string
	}{{"AN", q.and}, {"NO", q.not}, {"EX", q.ext}, {"RX", q.noext}} {
		for _, v := range x.l {
			e.s(x.tag, v, true)
		}
	}
	e.n("LE", q.le, false)
	e.n("GE", q.ge, false)
	e.n("EQ", q.eq, false)
	e.n("TY", int64(q.kind), false)
	e.n("GR", int64(q.group), false)
	if q.tth != nil {
		h := adc.TTH(*q.tth)
		m.TTH = &h
		e.tags = append(e.tags, "TR"+hb32(h))
	}
	e.gen = true
	return m, e.aenc
}

func (s *searches) adc() {
	w, t := s.w, s.t
	g := &agen{t: t}
	s.draw(func() string { return "u" + g.str("") }, func() string {
		if x := g.str("/"); x != "" {
			return x
		}
		return "w"
	})
	bySID := map[adc.SID]*suser{}
	byCID := map[adc.CID]*suser{}
	byUDP := map[string]*suser{}
	for _, u := range s.users {
		bySID[u.sid], byCID[u.cid], byUDP[u.addr()] = u, u, u
		if u.active {
			u.feas = append(u.feas, adc.FeaTCP4, adc.FeaUDP4)
		}
		for _, f := range []adc.Feature{adc.FeaSEGA, adc.FeaNAT0, adc.FeaASCH} {
			if t.Bool() {
				u.feas = append(u.feas, f)
			}
		}
	}
	has := func(u *suser, f adc.Feature) bool {
		for _, x := range u.feas {
			if x == f {
				return true
			}
		}
		return false
	}
	selected := func(u *suser, sel []adc.FeatureSel) bool {
		for _, x := range sel {
			if has(u, x.Fea) != x.Sel {
				return false
			}
		}
		return true
	}
	path := func(f *sfile) string {
		p := "/" + f.full("/")
		if f.dir {
			p += "/"
		}
		return p
	}
	hashOf := func(h *tiger.Hash) string {
		if h == nil {
			return "-"
		}
		return fmt.Sprintf("%x", h[:6])
	}
	var all []*squery
	for _, u := range s.users {
		for i, n := 0, t.Intn(4); i < n; i++ {
			t.Begin()
			x := &squery{by: u, id: i, token: fmt.Sprintf("%s%d", g.str(""), i), how: "BBFD"[t.Intn(4)]}
			some := func(n int, from []string) (l []string) {
				for ; n > 0; n-- {
					l = append(l, from[t.Intn(len(from))])
				}
				return
			}
			if t.Chance(200) {
				x.tth = &s.hash[t.Intn(len(s.hash))]
			} else {
				x.and = some(t.Weighted(2, 5, 2), s.words)
				x.not = some(t.Weighted(5, 1, 1), s.words)
				x.ext = some(t.Weighted(5, 1, 1), segaExts)
				x.noext = some(t.Weighted(5, 1, 1), segaExts)
				size := func() int64 { return []int64{1, 9, 10, 1 << 20, 1<<31 - 1, 1 << 32, 1<<40 + 8, 1<<62 + 1}[t.Intn(8)] }
				switch t.Weighted(4, 1, 1, 1, 1) {
				case 1:
					x.le = size()
				case 2:
					x.ge = size()
				case 3:
					x.eq = size()
				case 4:
					x.le, x.ge = size(), size()
				}
				x.kind = adc.FileType(t.Weighted(3, 1, 1))
				if t.Chance(400) {
					x.group = adc.ExtGroup(1 << t.Intn(6))
					if t.Chance(300) {
						x.group = adc.ExtGroup(t.Intn(64))
					}
				}
			}
			if len(all) > 0 && t.Chance(200) { // asked before, by this user or another
				c := *all[t.Intn(len(all))]
				c.by, c.id, c.token, c.how, c.sel, c.to = u, i, x.token, x.how, nil, nil
				x = &c
			}
			all = append(all, x)
			switch x.how {
			case 'F':
				for _, f := range []adc.Feature{adc.FeaTCP4, adc.FeaSEGA, adc.FeaNAT0, adc.FeaASCH} {
					if t.Chance(350) {
						x.sel = append(x.sel, adc.FeatureSel{Fea: f, Sel: t.Bool()})
					}
				}
				if x.sel == nil {
					x.how = 'B'
				}
			case 'D':
				x.to = s.users[t.Intn(len(s.users))]
				if x.to == u {
					x.how = 'B'
				}
			}
			u.queries = append(u.queries, x)
			s.plan(x, func(r *suser) bool {
				return x.how == 'B' || x.how == 'F' && selected(r, x.sel) || x.how == 'D' && r == x.to
			},
				func(f *sfile) bool { return x.amatch(f, refGroup) },
				func(r *suser, f *sfile) string {
					return fmt.Sprintf("%d %q %q %d %d %s", r.i, x.token, path(f), f.size, r.free, hashOf(f.tth))
				})
			t.End()
		}
	}
	w.Sample = fmt.Sprintf("ADC, %d users, permille loss %d dup %d reorder %d, cuts %v", len(s.users), s.loss, s.dup, s.reord, s.cuts)

	for _, u := range s.users {
		u := u
		aw := adc.NewWriterSize(u.hs, []int{0, 16, 300}[t.Intn(3)])
		s.awrite[u.i] = aw.WritePacket
		w.Go("out-"+u.hs.Name, func() {
			u.down.run(aw.Flush)
			s.check(u, "hub writing", u.down.err)
			aw.Close()
			u.hs.Out.CloseWrite()
		})
		relay := func(o *suser, p adc.Packet) { s.put(o.down, func() error { return s.awrite[o.i](p) }) }
		ar := adc.NewReader(u.hs)
		ar.SetMaxLine(0)
		raw := t.Bool() // the hub only looks at the messages it needs
		w.Go(u.hs.Name, func() {
			defer u.hs.In.CloseRead()
			for {
				p, err := ar.ReadPacketRaw()
				if err == nil {
					if _, ok := p.(*adc.BroadcastPacket); ok || !raw {
						err = p.DecodeMessage()
					} else if m, ok := p.Message().(*adc.RawMessage); ok {
						m.Data = append([]byte(nil), m.Data...)
					}
				}
				if err != nil {
					if err != io.EOF {
						s.check(u, "hub reading", err)
					}
					return
				}
				if x, ok := p.(adc.PeerPacket); !ok || x.Source() != u.sid {
					w.Fail("routing", "client %d, %q, sent %s", u.i, u.sid[:], short(canon(p)))
				}
				switch p := p.(type) {
				case *adc.BroadcastPacket:
					for _, o := range s.users {
						relay(o, p)
					}
				case *adc.FeaturePacket:
					for _, o := range s.users {
						if selected(o, p.Sel) {
							relay(o, p)
						}
					}
				case *adc.DirectPacket:
					o := bySID[p.To]
					if o == nil {
						w.Fail("routing", "client %d sent %s to somebody who does not exist", u.i, short(canon(p)))
						return
					}
					relay(o, p)
				default:
					w.Fail("routing", "the hub received %s from client %d", short(canon(p)), u.i)
				}
				s.handled()
			}
		})

		cw := adc.NewWriterSize(u.cs, []int{0, 16, 300}[t.Intn(3)])
		w.Go("out-"+u.cs.Name, func() {
			u.up.run(cw.Flush)
			s.check(u, "client writing", u.up.err)
			cw.Close()
			u.cs.Out.CloseWrite()
		})
		say := func(a *apkt) {
			if u.lib {
				var buf strings.Builder
				lw := adc.NewWriter(&buf)
				if err := lw.WritePacket(a.pkt); err != nil || lw.Flush() != nil || !sameTags(buf.String(), string(a.line())) {
					w.Fail("wire", "%s is written as %s instead of %s (%v)", short(canon(a.pkt)), q([]byte(buf.String())), q(a.line()), err)
				}
				s.put(u.up, func() error { return g.write(cw, a.pkt) })
				return
			}
			b := a.alt(t)
			s.put(u.up, func() error { return cw.WriteLine(b) })
		}
		proto := "ADC/1.0"
		if u.tls {
			proto = "ADCS/0.10"
		}
		gotResult := func(r *suser, m adc.SearchResult) {
			s.result(u, fmt.Sprintf("%d %q %q %d %d %s", r.i, m.Token, m.Path, m.Size, m.Slots, hashOf((*tiger.Hash)(m.TTH))))
			act, ok := u.known[string(r.sid[:])]
			if !ok || s.ended || u.asked[r.nick] || !t.Bool() {
				return
			}
			if act != r.active {
				w.Fail("identity", "client %d was told that the mode of %q is %v", u.i, r.sid[:], act)
			}
			tok := fmt.Sprintf("c%d-%d%s", u.i, r.i, g.str(""))
			switch {
			case u.active:
				u.asked[r.nick] = true
				r.wantDial[fmt.Sprintf("%s %q token %q", u.addr(), proto, tok)]++
				say(s.cmd(u, 'D', r, nil, adc.ConnectRequest{Proto: proto, Port: u.port, Token: tok}, aenc{pos: []string{proto, fmt.Sprint(u.port), aesc(tok)}}))
			case act:
				u.asked[r.nick] = true
				u.wantDial[fmt.Sprintf("%s %q token %q", r.addr(), proto, tok)]++
				say(s.cmd(u, 'D', r, nil, adc.RevConnectRequest{Proto: proto, Token: tok}, aenc{pos: []string{proto, aesc(tok)}}))
			}
		}
		search := func(from adc.SID, m adc.SearchRequest) {
			by := bySID[from]
			if by == nil {
				w.Fail("query", "client %d received a search from %q, who does not exist", u.i, from[:])
				return
			}
			if by == u {
				return
			}
			x := &squery{by: by, token: m.Token, and: m.And, not: m.Not, ext: m.Ext, noext: m.NoExt, le: m.Le, ge: m.Ge, eq: m.Eq, kind: m.Type, group: m.Group, tth: (*tiger.Hash)(m.TTH)}
			s.hear(u, x)
			for _, f := range u.files {
				if !x.amatch(f, s.libGroup) {
					continue
				}
				res := adc.SearchResult{Token: m.Token, Path: path(f), Size: int64(f.size), Slots: u.free, TTH: (*adc.TTH)(f.tth)}
				var e tagger
				e.s("TO", m.Token, true)
				e.s("FN", path(f), true)
				e.n("SI", int64(f.size), true)
				e.n("SL", int64(u.free), true)
				if f.tth != nil {
					e.tags = append(e.tags, "TR"+hb32(*f.tth))
				}
				e.gen = true
				addr, ok := u.knownAddr[from]
				if !ok { // passive
					say(s.cmd(u, 'D', by, nil, res, e.aenc))
					continue
				}
				to := byUDP[addr]
				if to == nil {
					w.Fail("identity", "client %d was told that %q is at %q", u.i, from[:], addr)
					return
				}
				a := s.cmd(u, 'U', nil, nil, res, e.aenc)
				b := a.alt(t)
				if u.lib {
					var buf strings.Builder
					lw := adc.NewWriter(&buf)
					if err := lw.WritePacket(a.pkt); err != nil || lw.Flush() != nil {
						w.Fail("error", "encoding %s: %v", short(canon(a.pkt)), err)
						return
					}
					b = []byte(buf.String())
				}
				s.datagram(u, to, fmt.Sprintf("%d %q %q %d %d %s", u.i, m.Token, path(f), f.size, u.free, hashOf(f.tth)), b)
			}
		}
		if u.active {
			w.Go("udp-"+u.cs.Name, func() {
				buf := make([]byte, 1<<16)
				for {
					for len(u.sock) == 0 {
						if s.ended && s.flying == 0 {
							return
						}
						u.sockWait = w.Cur()
						w.Park("datagram")
					}
					b := buf[:copy(buf, u.sock[0])]
					u.sock = u.sock[1:]
					p, err := adc.DecodePacket(b)
					if err != nil {
						w.Fail("result", "client %d: the datagram %s is refused: %v", u.i, q(b), err)
						return
					}
					up, ok := p.(*adc.UDPPacket)
					var m adc.SearchResult
					if ok {
						m, ok = up.Msg.(adc.SearchResult)
					}
					if !ok || byCID[up.ID] == nil {
						w.Fail("result", "client %d: the datagram %s is %s", u.i, q(b), short(canon(p)))
						return
					}
					for i := range b {
						b[i] = 0xA5
					}
					gotResult(byCID[up.ID], m)
					s.acts++
					s.flying--
				}
			})
		}
		cr := adc.NewReader(u.cs)
		cr.SetMaxLine(0)
		w.Go(u.cs.Name, func() {
			defer u.cs.In.CloseRead()
			inf := adc.UserInfo{Id: u.cid, Name: u.nick, Version: "sim", Slots: u.all, SlotsFree: u.free, Features: u.feas}
			if u.active {
				inf.Ip4, inf.Udp4 = u.ip, u.port
			} else if t.Bool() {
				inf.Ip4 = u.ip // the hub knows it
			}
			s.put(u.up, func() error { return cw.WriteBroadcast(u.sid, inf) })
			for _, x := range u.queries {
				m, e := x.request()
				say(s.cmd(u, x.how, x.to, x.sel, m, e))
				if t.Bool() {
					w.Sleep(time.Duration(t.Intn(3000)) * ms)
				}
			}
			s.busy--
			for {
				p, err := cr.ReadPacket()
				if err != nil {
					if err != io.EOF {
						s.check(u, "client reading", err)
					}
					return
				}
				pp, ok := p.(adc.PeerPacket)
				if !ok || bySID[pp.Source()] == nil {
					w.Fail("routing", "client %d received %s", u.i, short(canon(p)))
					return
				}
				from := pp.Source()
				if d, ok := p.(*adc.DirectPacket); ok && d.To != u.sid {
					w.Fail("routing", "client %d received %s", u.i, short(canon(p)))
				}
				switch m := p.Message().(type) {
				case adc.UserInfo:
					u.known[string(from[:])] = m.Features.Has(adc.FeaTCP4)
					if m.Udp4 != 0 {
						u.knownAddr[from] = fmt.Sprintf("%s:%d", m.Ip4, m.Udp4)
					}
				case adc.SearchRequest:
					search(from, m)
				case adc.SearchResult:
					if u.active {
						w.Fail("result", "client %d is active but received %s through the hub", u.i, short(canon(p)))
					}
					gotResult(bySID[from], m)
				case adc.ConnectRequest:
					ip := strings.TrimSuffix(u.knownAddr[from], fmt.Sprintf(":%d", bySID[from].port))
					s.dial(u, fmt.Sprintf("%s:%d %q token %q", ip, m.Port, m.Proto, m.Token))
				case adc.RevConnectRequest:
					if !u.active {
						w.Fail("routing", "client %d is passive but received %s", u.i, short(canon(p)))
					}
					say(s.cmd(u, 'D', bySID[from], nil, adc.ConnectRequest{Proto: m.Proto, Port: u.port, Token: m.Token}, aenc{pos: []string{aesc(m.Proto), fmt.Sprint(u.port), aesc(m.Token)}}))
				default:
					w.Fail("routing", "client %d received %s", u.i, short(canon(p)))
				}
				s.handled()
			}
		})
	}
	s.end()
}

// sameTags compares two lines without regard to the order of their parameters
// and to sizes and slots that are zero.
func sameTags(a, b string) bool {
	x, y := strings.Split(strings.TrimSpace(a), " "), strings.Split(strings.TrimSpace(b), " ")
	zero := func(s string) bool { return s == "SI0" || s == "SL0" }
	x, y = slices.DeleteFunc(x, zero), slices.DeleteFunc(y, zero)
	sort.Strings(x)
	sort.Strings(y)
	return slices.Equal(x, y)
}
