package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C25", Quick: 60000, Thorough: 800000,
		Rule: "1 or 2 clients each download a file from 1 to 3 peers over NMDC or ADC connections: they fetch the hash leaves, then segments (whole, bounded or stopped early; plain or compressed), keep what arrived, and go on with another connection after cuts at drawn offsets, crashes that lose what was not written to the disk, refusals for lack of slots and damaged blocks; some peers have damaged copies or wrong leaves. After the drawn faults the connections are healthy and the download must finish.",
		Real: []string{"nmdc.ADCGet, ADCSnd, MaxedOut", "adc.GetRequest, GetResponse, Status", "nmdc and adc Reader and Writer", "lineproto.Reader.Binary, EnableZlib", "lineproto.Writer.Write, EnableZlibLevel, DisableZlib", "tiger.TreeLeaves, Leaves.TreeHash, Hash base32", "compress/zlib"},
		Stub: []string{"download and upload logic (scripted)", "disk (simulated, synced at drawn points)", "transport (simulated connections)", "clock"},
		Run:  runC25,
	})
}

// source is a peer with a copy of the files.
type source struct {
	id     int
	data   [][]byte // its copy of each file
	leaves [][]byte // the leaves it serves for each file
	lies   []bool   // whether those are wrong
	lacks  []bool   // whether it does not have the file
	slots  int
	busy   int
}

type download struct {
	w      *World
	t      *Tape
	adc    bool
	cs     *charset
	files  [][]byte
	base   []int64  // where what matters begins in the file
	names  []string // how the file is asked for
	roots  []tiger.Hash
	srcs   []*source
	faults int // broken connections and crashes still to come
	conns  int
}

// xfer is a request or a response, the same in both protocols.
type xfer struct {
	typ, id    string
	start, len int64
	comp       bool
	db         *uint64
	busy       bool
	err        string
}

// link is one end of a connection between two clients.
type link struct {
	d  *download
	r  *lineproto.Reader
	wr *lineproto.Writer
	nr *nmdc.Reader
	nw *nmdc.Writer
	ar *adc.Reader
	aw *adc.Writer

	other bool // encodes with code of our own
}

func (d *download) link(c *Conn) *link {
	l := &link{d: d, other: d.t.Chance(400)}
	bsz := []int{0, 0, 16, 300}[d.t.Intn(4)]
	if d.adc {
		l.ar, l.aw = adc.NewReader(c), adc.NewWriterSize(c, bsz)
		l.r, l.wr = l.ar.Reader, l.aw.Writer
	} else {
		l.nr, l.nw = nmdc.NewReader(c), nmdc.NewWriterSize(c, bsz)
		l.nr.SetDecoder(d.cs.decoder())
		l.nw.SetEncoder(d.cs.encoder())
		l.r, l.wr = l.nr.Reader, l.nw.Writer
	}
	return l
}

func (l *link) send(resp bool, x xfer) error {
	if l.d.adc {
		var m adc.Message
		q := adc.GetRequest{Type: x.typ, Path: x.id, Start: x.start, Bytes: x.len, Compressed: x.comp}
		switch {
		case x.busy:
			m = adc.Status{Sev: adc.Fatal, Code: 53, Msg: "slots full"}
		case x.err != "":
			m = adc.Status{Sev: adc.Recoverable, Code: 51, Msg: x.err}
		case resp:
			m = adc.GetResponse(q)
		default:
			m = q
		}
		if l.other && !x.busy && x.err == "" {
			b := fmt.Sprintf("CGET %s %s %d %d", aesc(x.typ), aesc(x.id), x.start, x.len)
			if resp {
				b = "CSND" + b[4:]
			}
			if x.comp {
				b += " ZL1"
			}
			return l.wr.WriteLine([]byte(b + "\n"))
		}
		return l.aw.WriteClient(m)
	}
	var m nmdc.Message
	switch {
	case x.busy:
		m = &nmdc.MaxedOut{}
	case x.err != "":
		m = &nmdc.Error{Err: errors.New(x.err)}
	case resp:
		m = &nmdc.ADCSnd{ContentType: nmdc.String(x.typ), Identifier: nmdc.String(x.id), Start: uint64(x.start), Length: uint64(x.len), Compressed: x.comp}
	default:
		m = &nmdc.ADCGet{ContentType: nmdc.String(x.typ), Identifier: nmdc.String(x.id), Start: uint64(x.start), Length: x.len, Compressed: x.comp, DownloadedBytes: x.db}
	}
	if l.other {
		b := (&ngen{t: l.d.t, cs: l.d.cs}).encode(m)
		if x.db != nil && x.comp && l.d.t.Bool() {
			db := fmt.Sprintf(" DB%d", *x.db)
			b = bytes.Replace(b, []byte(" ZL1"+db), []byte(db+" ZL1"), 1)
		}
		if _, req := m.(*nmdc.ADCGet); req && l.d.t.Chance(300) { // a flag of an extension
			k := len(b) - 1
			if i := bytes.LastIndex(b, []byte(" ZL1")); i >= 0 && l.d.t.Bool() {
				k = i
			}
			b = append(b[:k:k], append([]byte([]string{" XX1", " 5", " ZL2", " TLx"}[l.d.t.Intn(4)]), b[k:]...)...)
		}
		return l.wr.WriteLine(b)
	}
	return l.nw.WriteMsg(m)
}

func (l *link) recv(resp bool) (x xfer, err error) {
	var got any
	if l.d.adc {
		var m adc.Message
		if m, err = l.ar.ReadClient(); err != nil {
			return
		}
		got = m
		switch m := m.(type) {
		case adc.GetRequest:
			if !resp {
				return xfer{typ: m.Type, id: m.Path, start: m.Start, len: m.Bytes, comp: m.Compressed}, nil
			}
		case adc.GetResponse:
			if resp {
				return xfer{typ: m.Type, id: m.Path, start: m.Start, len: m.Bytes, comp: m.Compressed}, nil
			}
		case adc.Status:
			if resp {
				err := m.Err()
				x := xfer{busy: m.Code == 53 && !m.Recoverable(), err: m.Msg}
				if e, ok := err.(adc.Error); m.Ok() || (err == os.ErrNotExist) != (m.Code == 51) || m.Code == 53 && (!ok || e.Status != m) {
					l.d.w.Fail("wrong-status", "status %#v as an error is %#v", m, err)
				}
				return x, nil
			}
		}
	} else {
		var m nmdc.Message
		if m, err = l.nr.ReadMsg(); err != nil {
			return
		}
		got = m
		switch m := m.(type) {
		case *nmdc.ADCGet:
			if !resp {
				return xfer{typ: string(m.ContentType), id: string(m.Identifier), start: int64(m.Start), len: m.Length, comp: m.Compressed, db: m.DownloadedBytes}, nil
			}
		case *nmdc.ADCSnd:
			if resp {
				return xfer{typ: string(m.ContentType), id: string(m.Identifier), start: int64(m.Start), len: int64(m.Length), comp: m.Compressed}, nil
			}
		case *nmdc.MaxedOut:
			if resp {
				return xfer{busy: true}, nil
			}
		case *nmdc.Error:
			if resp && m.Err != nil {
				return xfer{err: m.Err.Error()}, nil
			}
		}
	}
	l.d.w.Fail("wrong-message", "a transfer is answered with %s", short(canon(got)))
	return x, errors.New("wrong message")
}

// serve answers the requests of one connection. Everything it was asked is kept
// in asked for the client to compare.
func (d *download) serve(s *source, c *Conn, broken func() bool, asked *[]xfer) {
	w, t := d.w, d.t
	defer c.Close()
	l := d.link(c)
	slot := false
	defer func() {
		if slot {
			s.busy--
		}
	}()
	bad := func(what string, err error) bool {
		if err != nil && !broken() {
			w.Fail("error", "peer %d: %s: %v although nothing is wrong with the connection", s.id, what, err)
		}
		return err != nil
	}
	for {
		x, err := l.recv(false)
		if err == io.EOF {
			return
		}
		if bad("reading a request", err) {
			return
		}
		*asked = append(*asked, x)
		f := -1
		for i, n := range d.names {
			if n == x.id || x.id == "TTH/"+refBase32(d.roots[i][:]) {
				f = i
			}
		}
		var data []byte
		base := int64(0)
		switch {
		case f < 0:
		case s.lacks[f]:
			f = -1
		case x.typ == "tthl":
			data = s.leaves[f]
			base = 0
		case x.typ == "file":
			data = s.data[f]
			base = d.base[f]
		default:
			f = -1
		}
		switch {
		case f < 0 || x.start < base || x.start-base > int64(len(data)):
			if bad("refusing", l.send(true, xfer{err: "File Not Available"})) || bad("Flush", l.wr.Flush()) {
				return
			}
			continue
		case x.typ == "file" && !slot && s.busy >= s.slots:
			w.Inc("fault.no_slots")
			if bad("refusing", l.send(true, xfer{busy: true})) || bad("Flush", l.wr.Flush()) {
				return
			}
			continue
		case x.typ == "file" && !slot:
			slot = true
			s.busy++
		}
		data = data[x.start-base:]
		if x.len >= 0 && x.len < int64(len(data)) {
			data = data[:x.len]
		}
		resp := x
		resp.len = int64(len(data))
		if x.comp && t.Chance(200) {
			resp.comp = false
		}
		if bad("answering", l.send(true, resp)) {
			return
		}
		if resp.comp && bad("EnableZlibLevel", l.wr.EnableZlibLevel(drawLevel(t))) {
			return
		}
		for len(data) > 0 {
			n := min(len(data), []int{1 << 20, 4096, 1024, 1 + t.Intn(3000)}[t.Intn(4)])
			if _, err := l.wr.Write(data[:n]); bad("writing data", err) {
				return
			}
			data = data[n:]
		}
		if resp.comp && bad("DisableZlib", l.wr.DisableZlib()) {
			return
		}
		if bad("Flush", l.wr.Flush()) {
			return
		}
	}
}

var errCrash = errors.New("sim: the client crashed")

// fetch downloads one file.
func (d *download) fetch(f int) {
	w, t := d.w, d.t
	size := len(d.files[f])
	var disk []byte   // what the client has
	var src []*source // where each block byte came from is only needed per session
	synced := 0       // what a crash leaves
	verified := 0     // checked against the leaves
	var leaves tiger.Leaves
	banned := map[int]bool{}
	clean := 0
	for attempt := 0; leaves == nil || verified < size; attempt++ {
		src = src[:0]
		for _, s := range d.srcs {
			if !banned[s.id] {
				src = append(src, s)
			}
		}
		if len(src) == 0 {
			w.Fail("good-rejected", "all peers were rejected, although one has the file and the right leaves")
			return
		}
		s := src[attempt%len(src)]
		var crashAt = -1
		ab, ba := w.DrawNet(), w.DrawNet()
		for _, p := range []*Profile{&ab, &ba} {
			p.CutAt = -1
			if p.Window > 0 && p.Window < 256 {
				p.Window = 256
			}
			if p.Frag == FragOne {
				p.Frag = FragMid
			}
			p.Tame(size)
		}
		broken, gone := false, false
		if d.faults > 0 {
			d.faults--
			p := &ba
			if t.Chance(200) {
				p = &ab
			}
			at := t.Intn(size + 200)
			if p == &ab || t.Chance(300) {
				at = t.Intn(200)
			}
			if t.Chance(300) {
				crashAt = at
			} else {
				p.CutAt, p.CutErr = at, []error{io.EOF, ErrReset, io.ErrUnexpectedEOF}[t.Intn(3)]
			}
			broken = true
		} else {
			clean++
			if clean > 3*len(d.srcs)+1 {
				w.Fail("progress", "file %d: %d of %d bytes after %d attempts without faults", f, verified, size, clean)
				return
			}
		}
		d.conns++
		ca, cb := w.NewConnPair(d.conns, ab, ba)
		ca.Name, cb.Name = fmt.Sprintf("client%d", f), fmt.Sprintf("peer%d", s.id)
		asked := []xfer{}
		w.Go(fmt.Sprintf("peer%d.%d", s.id, d.conns), func() {
			d.serve(s, cb, func() bool { return broken || gone }, &asked)
		})
		l := d.link(ca)
		got := 0 // bytes this connection has delivered
		bad := func(what string, err error) bool {
			if err != nil && !broken {
				w.Fail("error", "client %d: %s: %v although nothing is wrong with the connection", f, what, err)
			}
			return err != nil
		}
		// get asks for a range and gives what arrives to sink; it returns false when
		// the connection is of no use any more
		get := func(typ string, start int, sink func([]byte), whole bool) (busy, ok bool) {
			x := xfer{typ: typ, id: d.names[f], start: int64(start), len: -1, comp: t.Bool()}
			if typ == "file" {
				x.start += d.base[f]
			}
			if typ == "tthl" || t.Chance(600) {
				x.id = "TTH/" + d.roots[f].Base32()
			}
			if !whole && t.Chance(600) {
				x.len = int64(t.Intn(size - start + 10))
			}
			if !d.adc && t.Bool() {
				n := uint64(x.start)
				x.db = &n
			}
			before := len(asked)
			if bad("asking", l.send(false, x)) || bad("Flush", l.wr.Flush()) {
				return
			}
			r, err := l.recv(true)
			if bad("reading the answer", err) {
				return
			}
			if len(asked) != before+1 || canonX(asked[before]) != canonX(x) {
				w.Fail("wrong-request", "client %d asked for %s, peer %d was asked for %s", f, canonX(x), s.id, canonX(asked[len(asked)-1]))
			}
			if r.busy {
				return true, true
			}
			if r.err != "" {
				if !s.lacks[f] || r.err != "File Not Available" {
					w.Fail("error", "client %d: %s is refused with %q", f, canonX(x), r.err)
				}
				w.Inc("probe.not-available")
				banned[s.id] = true
				return
			}
			if s.lacks[f] {
				w.Fail("wrong-range", "client %d is granted %s by a peer without the file", f, canonX(r))
				return
			}
			full := s.data[f]
			if typ == "tthl" {
				full = s.leaves[f]
			}
			want := full[start:]
			if x.len >= 0 && int(x.len) < len(want) {
				want = want[:x.len]
			}
			if r.typ != x.typ || r.id != x.id || r.start != x.start || r.len != int64(len(want)) || r.comp && !x.comp {
				w.Fail("wrong-range", "client %d asked for %s and is granted %s, of %d bytes", f, canonX(x), canonX(r), len(full))
				return
			}
			if r.comp && bad("EnableZlib", l.r.EnableZlib()) {
				return
			}
			br, err := l.r.Binary(uint64(r.len))
			if bad("Binary", err) {
				return
			}
			stop := len(want)
			if !whole && t.Chance(150) {
				stop = t.Intn(stop + 1)
			}
			buf := make([]byte, []int{512, 4096, 1 + t.Intn(100)}[t.Intn(3)])
			for n, idle := 0, 0; n < stop; {
				k, err := br.Read(buf[:min(len(buf), stop-n)])
				if k > 0 {
					idle = 0
					w.Inc("op")
				}
				if !bytes.Equal(buf[:k], want[n:n+k]) {
					w.Fail("wrong-data", "client %d: %s: byte %d on is %s, sent was %s", f, canonX(r), n+firstDiff(buf[:k], want[n:n+k]), q(buf[:k]), q(want[n:n+k]))
				}
				sink(buf[:k])
				n += k
				got += k
				if crashAt >= 0 && got > crashAt {
					return
				}
				if idle++; idle > 200 {
					w.Fail("livelock", "client %d: 200 reads in a row without data", f)
				}
				if err == io.EOF && n < stop && !broken {
					w.Fail("short", "client %d: %s ends after %d bytes", f, canonX(r), n)
				}
				if err != nil && (n < stop || err != io.EOF) {
					bad("reading data", err)
					return
				}
			}
			if bad("closing a section", br.Close()) {
				return
			}
			return false, true
		}
		session := func() {
			if leaves == nil {
				var buf []byte
				_, ok := get("tthl", 0, func(b []byte) { buf = append(buf, b...) }, true)
				if !ok {
					return
				}
				if len(buf)%24 == 0 {
					for i := 0; i < len(buf); i += 24 {
						leaves = append(leaves, tiger.Hash(buf[i:i+24]))
					}
				}
				right := len(buf)%24 == 0 && leaves.TreeHash() == d.roots[f]
				if right == s.lies[f] {
					w.Fail("leaves", "client %d: leaves of peer %d accepted: %v, wrong: %v", f, s.id, right, s.lies[f])
				}
				if !right {
					leaves = nil
					banned[s.id] = true
					w.Inc("probe.leaves-rejected")
					return
				}
			}
			from := len(disk) // what follows came from this peer
			for verified < size {
				if len(disk) < size {
					busy, ok := get("file", len(disk), func(b []byte) { disk = append(disk, b...) }, false)
					if busy {
						w.Sleep(time.Duration(1+t.Intn(500)) * ms)
						clean = min(clean, 1) // the other download will end
						continue
					}
					if !ok && !(crashAt >= 0 && got > crashAt) && !broken {
						return
					}
					if !ok {
						break
					}
				}
				if t.Bool() {
					synced = len(disk)
				}
				if !d.verify(f, disk, &verified, leaves) {
					if verified >= from {
						banned[s.id] = true
						w.Inc("probe.peer-rejected")
						disk = disk[:verified]
						return
					}
					disk = disk[:verified]
					from = verified
				}
				synced = min(synced, len(disk))
			}
		}
		session()
		gone = true // what the peer has not written yet goes nowhere
		ca.Close()
		if crashAt >= 0 && got > crashAt { // only what was synced survives
			w.Inc("fault.crash")
			disk = disk[:min(synced, len(disk))]
			if t.Bool() {
				leaves, verified = nil, 0
			}
		}
		verified = min(verified, len(disk)/1024*1024)
		if leaves != nil && len(disk) == size && verified < size {
			// the rest of the file was there already
			if !d.verify(f, disk, &verified, leaves) {
				disk = disk[:verified]
			}
		}
		if size == 0 && leaves != nil {
			break
		}
	}
	if !bytes.Equal(disk, d.files[f]) {
		w.Fail("wrong-file", "file %d is not the original: it differs at %d of %d", f, firstDiff(disk, d.files[f]), size)
	}
	root, err := tiger.TreeHash(bytes.NewReader(disk))
	if err != nil || root != d.roots[f] {
		w.Fail("wrong-file", "the downloaded file hashes to %s (%v) instead of %s", root, err, d.roots[f])
	}
	w.Inc("probe.downloads")
}

func canonX(x xfer) string {
	s := fmt.Sprintf("%s %q %d+%d compressed=%v", x.typ, x.id, x.start, x.len, x.comp)
	if x.db != nil {
		s += fmt.Sprintf(" downloaded=%d", *x.db)
	}
	return s
}

// verify checks the blocks that are complete.
func (d *download) verify(f int, disk []byte, verified *int, leaves tiger.Leaves) bool {
	size := len(d.files[f])
	for *verified < len(disk) {
		a, b := *verified, min(*verified+1024, size)
		if len(disk) < b {
			return true
		}
		l, err := tiger.TreeLeaves(bytes.NewReader(disk[a:b]))
		if err != nil || len(l) != 1 {
			d.w.Fail("verification", "one block has %d leaves (%v)", len(l), err)
			return true
		}
		good := bytes.Equal(disk[a:b], d.files[f][a:b])
		if a/1024 >= len(leaves) || (l[0] == leaves[a/1024]) != good {
			d.w.Fail("verification", "block %d of file %d, equal to the original: %v, is judged otherwise", a/1024, f, good)
			return true
		}
		if !good {
			return false
		}
		*verified = b
	}
	return true
}

func runC25(w *World) {
	t := w.T
	d := &download{w: w, t: t, adc: t.Bool(), cs: charsets[t.Intn(len(charsets))]}
	g := &ngen{t: t, cs: d.cs}
	ag := &agen{t: t}
	n := 1 + t.Weighted(3, 1)
	for i := 0; i < n; i++ {
		t.Begin()
		size := t.Near(2, t.Intn(7)*1024)
		if t.Chance(300) {
			size = t.Intn(9000)
		}
		if t.Chance(40) {
			size = 20000 + t.Intn(60000)
		}
		var data []byte
		if t.Bool() {
			data = t.Blob(size, "")
		} else {
			data = t.Blob(size, "ab|\n$ ")
		}
		for _, other := range d.files {
			if bytes.Equal(other, data) {
				data = append(data, 'x')
			}
		}
		d.files = append(d.files, data)
		d.roots = append(d.roots, refTreeHash(data))
		name := g.str("") + fmt.Sprint(i)
		if d.adc {
			name = ag.str("") + fmt.Sprint(i)
		} else {
			name = strings.ReplaceAll(name, " ", "_")
		}
		d.names = append(d.names, name)
		base := int64(0)
		if t.Chance(250) {
			base = []int64{1<<31 - 1000, 1 << 32, 1<<40 + 5, 1 << 62, 1<<31 + 1}[t.Intn(5)]
		}
		d.base = append(d.base, base)
		t.End()
	}
	k := 1 + t.Weighted(3, 2, 1)
	d.faults = t.Weighted(2, 3, 2, 1, 1, 1)
	goodOne := t.Intn(k)
	var desc []string
	for i := 0; i < k; i++ {
		t.Begin()
		s := &source{id: i, slots: 9}
		if t.Chance(300) {
			s.slots = 1
		}
		for f, data := range d.files {
			mine := append([]byte{}, data...)
			var lv []byte
			for _, h := range refLeaves(data) {
				lv = append(lv, h[:]...)
			}
			lie := false
			if i != goodOne {
				if len(mine) > 0 && t.Chance(400) {
					w.Inc("fault.bitrot")
					mine[t.Intn(len(mine))] ^= 1 << t.Intn(8)
					if t.Bool() {
						mine[t.Intn(len(mine))] ^= 1 << t.Intn(8)
					}
					if bytes.Equal(mine, data) {
						mine[0] ^= 1
					}
				}
				switch t.Weighted(6, 1, 1, 1) {
				case 1:
					lv[t.Intn(len(lv))] ^= 1 << t.Intn(8)
					lie = true
				case 2:
					lv = lv[:len(lv)-24]
					lie = true
				case 3:
					lv = append(lv, lv[len(lv)-24:]...)
					lie = true
				}
				if lie {
					w.Inc("fault.wrong_leaves")
				}
			}
			s.lacks = append(s.lacks, i != goodOne && t.Chance(150))
			s.data, s.leaves, s.lies = append(s.data, mine), append(s.leaves, lv), append(s.lies, lie)
			desc = append(desc, fmt.Sprintf("peer%d/file%d(%d bytes damaged=%v lies=%v slots=%d)", i, f, len(data), !bytes.Equal(mine, data), lie, s.slots))
		}
		d.srcs = append(d.srcs, s)
		t.End()
	}
	w.Sample = fmt.Sprintf("adc %v, %d faults, %s", d.adc, d.faults, strings.Join(desc, " "))
	for f := range d.files {
		f := f
		w.Go(fmt.Sprintf("download%d", f), func() { d.fetch(f) })
	}
	finish(w, "downloads")
}
