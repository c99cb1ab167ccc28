package props

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base32"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"net/url"
	"strings"
	"time"
	_ "unsafe"

	atypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/keyprint/tlskp"

	. "verifsim/kernel"
)

//go:linkname setTestingReader crypto/internal/rand.SetTestingReader
func setTestingReader(r io.Reader)

// simRandom puts all randomness of the crypto packages behind the seed of the run.
func simRandom(w *World) {
	var s [32]byte
	for i := range 4 {
		s[i] = byte(w.T.Intn(256))
	}
	setTestingReader(mrand.NewChaCha8(s))
}

// ident is a certificate with its key.
type ident struct {
	der  []byte
	cert *x509.Certificate
	key  ed25519.PrivateKey
	kp   string
}

// refKeyPrint is the keyprint as the protocol extension defines it.
func refKeyPrint(der []byte) string {
	s := sha256.Sum256(der)
	return "SHA256/" + strings.TrimRight(base32.StdEncoding.EncodeToString(s[:]), "=")
}

var idents []*ident // 0 the hub, 1 another one, 2 an authority, 3 issued by the authority, 4 and 5 clients, 6 issued by 3

var pkis [16][]*ident

// mkIdents makes the certificates of one variant: without subject key ids,
// with the same subject for all, with the same serial and out of date, or with
// every certificate marked as an authority.
func mkIdents(v int) {
	if pkis[v] != nil {
		idents = pkis[v]
		return
	}
	var ids []*ident
	issuer := []int{0, 1, 2, 2, 4, 5, 3}
	for i := range issuer {
		seed := sha256.Sum256([]byte{byte(i), 'k', byte(v)})
		key := ed25519.NewKeyFromSeed(seed[:])
		ca := i == 2 || i == 3 || v&8 != 0
		tpl := &x509.Certificate{
			SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprintf("sim %d", i)},
			NotBefore: Epoch.Add(-time.Hour), NotAfter: Epoch.Add(1000 * time.Hour),
			DNSNames: []string{"hub"}, IsCA: ca, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		}
		if !ca {
			tpl.KeyUsage = x509.KeyUsageDigitalSignature
		}
		if v&1 != 0 { // an empty subject key id reads as none
			tpl.ExtraExtensions = append(tpl.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 14}, Value: []byte{4, 0}})
		}
		if v&2 != 0 {
			tpl.Subject = pkix.Name{CommonName: "sim", Organization: []string{"sim"}}
		}
		if v&4 != 0 {
			tpl.SerialNumber = big.NewInt(7)
			tpl.NotBefore, tpl.NotAfter = Epoch.Add(-1000*time.Hour), Epoch.Add(-time.Hour)
			tpl.DNSNames = nil
		}
		parent, pkey := tpl, key
		if issuer[i] != i {
			parent, pkey = ids[issuer[i]].cert, ids[issuer[i]].key
		}
		der, err := x509.CreateCertificate(strings.NewReader(strings.Repeat("x", 100)), tpl, parent, key.Public(), pkey)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		ids = append(ids, &ident{der, c, key, refKeyPrint(der)})
	}
	pkis[v], idents = ids, ids
}

func init() {
	register(&Prop{
		ID: "C21", Quick: 80000, Thorough: 2000000,
		Rule: "A TLS client and server (1.2 or 1.3, optionally with client certificates) run over a simulated connection with drawn fragmentation and delays; the server presents the advertised certificate, another one, a chain, the advertised certificate without its key, or a foreign certificate followed by the advertised one; the connection is cut or corrupted at a drawn byte, the peer is not TLS, or a deadline expires. In a third of the runs the peers have met before, so the handshake may resume a session. Verification is asked before, after and without the handshake, also when the handshake's error is ignored, and after traffic and close.",
		Real: []string{"tlskp.VerifyKeyPrint", "tlskp.GetKeyPrints", "keyprint.FromBytes", "keyprint.FromCertificate", "crypto/tls", "crypto/x509"},
		Stub: []string{"transport (simulated connection)", "clock", "random source of the crypto packages (seeded)"},
		Run:  runC21,
	})
	register(&Prop{
		ID: "C22", Quick: 150000, Thorough: 3000000,
		Rule: "A certificate file of drawn blocks (certificates, keys, other types, text between them, headers, damaged blocks, line ending styles) is read through a simulated source with short and empty reads, data together with the end of file, and errors at drawn offsets, by 1 or 2 tasks; the result is compared with the blocks the file was made of.",
		Real: []string{"keyprint.FromFile", "keyprint.FromBytes", "encoding/pem"},
		Stub: []string{"source (simulated pipe)", "clock"},
		Run:  runC22,
	})
	register(&Prop{
		ID: "C23", Quick: 150000, Thorough: 3000000,
		Rule: "1 to 4 tasks generate private ids from a simulated random source that delivers pieces, empty reads, blocks, and fails once or for good at drawn points, with or without data; every returned id must consist of the bytes the source delivered to its generation and differ from all others, and every failure met during a generation must be reported.",
		Real: []string{"types.NewPID"},
		Stub: []string{"random source (crypto/rand.Reader replaced)", "clock"},
		Run:  runC23,
	})
}

// tlsConn puts the deadline that crypto/tls sets when it closes, which it
// derives from the real clock, on the simulated one.
type tlsConn struct{ *Conn }

func (c tlsConn) SetWriteDeadline(t time.Time) error {
	if t.Sub(Epoch) > 10000*time.Hour {
		t = Epoch.Add(c.Out.W.Now() + 5*time.Second)
	}
	return c.Conn.SetWriteDeadline(t)
}

func runC21(w *World) {
	t := w.T
	variant := 0
	if t.Chance(700) {
		variant = t.Intn(16)
	}
	mkIdents(variant)
	simRandom(w)
	w.AfterRun = append(w.AfterRun, func() { setTestingReader(nil) })
	type chain struct {
		ids []int
		key int
		ok  []int // identities that may verify
	}
	chains := []chain{
		{[]int{0}, 0, []int{0}},
		{[]int{1}, 1, []int{1}},
		{[]int{3, 2}, 3, []int{3, 2}},
		{[]int{6, 3, 2}, 6, []int{6, 3, 2}},
		{[]int{0}, 1, nil},         // somebody else's certificate
		{[]int{1, 0}, 1, []int{1}}, // somebody else's certificate in the chain
		{[]int{1, 2}, 1, []int{1}}, // an authority that did not issue it
		{[]int{6, 2}, 6, []int{6}}, // a gap in the chain
		{[]int{4, 5}, 4, []int{4}},
		{[]int{3, 2}, 2, nil},
	}
	mk := func(c chain) tls.Certificate {
		var out tls.Certificate
		for _, i := range c.ids {
			out.Certificate = append(out.Certificate, idents[i].der)
		}
		out.PrivateKey = idents[c.key].key
		return out
	}
	kpOf := func(c chain) (l []string) {
		for _, i := range c.ids {
			l = append(l, idents[i].kp)
		}
		return
	}
	srv := chains[t.Weighted(6, 3, 2, 2, 3, 3, 1, 1, 0, 1)]
	mutual := t.Chance(300)
	cli := chain{}
	if mutual {
		cli = []chain{{[]int{4}, 4, []int{4}}, {[]int{5}, 5, []int{5}}, {[]int{4}, 5, nil}, chains[8], chains[5], {}}[t.Weighted(4, 2, 2, 1, 1, 1)]
	}
	ver := uint16(tls.VersionTLS13)
	if t.Chance(350) {
		ver = tls.VersionTLS12
	}
	expect := func(c chain) string {
		cands := []string{idents[0].kp}
		for _, i := range c.ids {
			cands = append(cands, idents[i].kp, idents[i].kp)
		}
		cands = append(cands, idents[1].kp, idents[4].kp, "", "SHA256/", strings.ToLower(idents[0].kp), idents[0].kp[7:], idents[0].kp[:20], idents[0].kp+"A", "SHA1/"+idents[0].kp[7:])
		kp := cands[t.Intn(len(cands))]
		if len(kp) > 0 && t.Chance(150) { // nearly right
			i := t.Intn(len(kp))
			switch t.Intn(4) {
			case 0:
				kp = kp[:i]
			case 1:
				kp = kp[i+1:]
			case 2:
				kp = kp[:i] + string("A7=b /"[t.Intn(6)]) + kp[i+1:]
			case 3:
				kp = kp[:i] + kp[i+1:]
			}
		}
		return kp
	}
	ab, ba := w.DrawNet(), w.DrawNet()
	for _, p := range []*Profile{&ab, &ba} {
		p.CutAt = -1
		if p.Window > 0 && p.Window < 64 {
			p.Window = 64
		}
		if p.Frag == FragOne {
			p.Frag = FragSmall
		}
	}
	whole := []Profile{ab, ba}
	fault := t.Weighted(5, 2, 2, 1, 1, 1)
	p := &ba
	if t.Chance(300) {
		p = &ab
	}
	at := t.Intn(1800)
	switch fault {
	case 1:
		p.CutAt, p.CutErr = at, []error{ErrReset, io.ErrUnexpectedEOF, ErrDeadline}[t.Intn(3)]
	case 2:
		for k := 0; k < 1+t.Intn(2); k++ {
			p.Flip = append(p.Flip, t.Intn(1800))
			p.FlipMask = byte(1 << t.Intn(8))
		}
	case 3:
		p.WFault = &WFault{At: at, Err: ErrBroken}
	}
	style := t.Weighted(4, 3, 2) // heed the handshake, ignore its error, none
	w.Sample = fmt.Sprintf("certificates %d chain %v key %d mutual %v %v TLS %x fault %d at %d style %d", variant, srv.ids, srv.key, mutual, cli.ids, ver, fault, at, style)
	now := func() time.Time { return Epoch.Add(w.Now()) }
	conf := &tls.Config{MinVersion: ver, MaxVersion: ver, InsecureSkipVerify: true, Time: now, SessionTicketsDisabled: t.Bool()}
	sconf := &tls.Config{MinVersion: ver, MaxVersion: ver, Certificates: []tls.Certificate{mk(srv)}, Time: now, SessionTicketsDisabled: t.Bool()}
	if mutual {
		sconf.ClientAuth = tls.RequestClientCert
		if t.Bool() {
			sconf.ClientAuth = tls.RequireAnyClientCert
		}
		if cli.ids != nil {
			conf.Certificates = []tls.Certificate{mk(cli)}
		}
	}
	// what a hub prints for its users is what it will present
	for _, c := range []chain{srv, cli} {
		if got, want := keyprint.FromCertificate(mk(c)), kpOf(c); len(got) != len(want) || strings.Join(got, " ") != strings.Join(want, " ") {
			w.Fail("wrong-keyprints", "FromCertificate of %v gives %q, want %q", c.ids, got, want)
		}
	}
	judge := func(side string, c *tls.Conn, done bool, presented chain) {
		w.Inc("op")
		kp := expect(presented)
		if t.Chance(200) { // the keyprint a user finds in the address of the hub
			addr := "adcs://hub:411" + []string{"?", "/?", "/?x=1&"}[t.Intn(3)] + "kp=" + []string{kp, url.QueryEscape(kp)}[t.Intn(2)]
			u, err := url.Parse(addr)
			if err != nil {
				panic(err)
			}
			if got := keyprint.FromURL(u); got != kp {
				w.Fail("wrong-keyprints", "FromURL of %q gives %q", addr, got)
			}
			if got := keyprint.FromURL(&url.URL{Scheme: "adcs", Host: "hub"}); got != "" {
				w.Fail("wrong-keyprints", "FromURL of an address without keyprint gives %q", got)
			}
		}
		want := false
		for _, i := range presented.ok {
			if done && idents[i].kp == kp {
				want = true
			}
		}
		all := kpOf(presented)
		check := func(kps []string, what string) {
			if done && strings.Join(kps, " ") != strings.Join(all, " ") {
				w.Fail("wrong-keyprints", "%s: %s reports %q, the peer presented %q", side, what, kps, all)
			}
			if !done && fault != 2 && len(kps) > 0 && strings.Join(kps, " ") != strings.Join(all, " ") {
				w.Fail("wrong-keyprints", "%s: %s reports %q after a failed handshake, the peer presented %q", side, what, kps, all)
			}
		}
		if t.Bool() {
			check(tlskp.GetKeyPrints(c), "GetKeyPrints")
		}
		kps, err := tlskp.VerifyKeyPrint(c, kp)
		switch {
		case err == nil && !done:
			w.Fail("unfinished-verified", "%s: the handshake did not complete, but verification against %q succeeds", side, kp)
		case err == nil && !want:
			w.Fail("wrong-verified", "%s: verification against %q succeeds, the peer presented %q with the key of %q", side, kp, all, idents[presented.key].kp)
		case err != nil && want:
			w.Fail("right-rejected", "%s: verification against %q fails with %v, the peer presented %q", side, kp, err, all)
		}
		check(kps, "VerifyKeyPrint")
		var ik *tlskp.ErrInvalidKeyPrint
		if errors.As(err, &ik) && ik.Expected != kp {
			w.Fail("wrong-error", "%s: the error expects %q instead of %q", side, ik.Expected, kp)
		}
		if err == nil {
			w.Inc("probe.verified")
		} else if done {
			w.Inc("probe.rejected")
		} else {
			w.Inc("probe.unfinished")
		}
	}
	talk := func(side string, raw *Conn, c *tls.Conn, presented chain, first bool) {
		defer raw.Close()
		if t.Chance(150) {
			judge(side, c, false, presented)
		}
		if style == 2 && side == "client" {
			judge(side, c, false, presented)
			return
		}
		if t.Chance(100) || fault == 2 { // a corrupted length makes both sides wait
			raw.SetDeadline(Epoch.Add(w.Now() + time.Duration(1+t.Intn(300))*ms))
		}
		err := c.Handshake()
		if err != nil {
			w.Inc("probe.handshake_failed")
			w.EvStr("handshake", err.Error())
			if style == 1 || side == "server" {
				judge(side, c, false, presented)
				judge(side, c, false, presented)
			}
			return
		}
		w.Inc("probe.handshake_done")
		if c.ConnectionState().DidResume {
			w.Inc("probe.resumed")
		}
		judge(side, c, true, presented)
		if fault != 2 {
			raw.SetDeadline(time.Time{})
		}
		msg := []byte("hello|")
		buf := make([]byte, len(msg))
		if first {
			if _, err = c.Write(msg); err == nil {
				_, err = io.ReadFull(c, buf)
			}
		} else if _, err = io.ReadFull(c, buf); err == nil {
			_, err = c.Write(msg)
		}
		judge(side, c, true, presented)
		if t.Bool() {
			c.Close()
			judge(side, c, true, presented)
		}
	}
	connect := func(n int) []*Task {
		ca, cb := w.NewConnPair(n, ab, ba)
		return []*Task{w.Go("client", func() { talk("client", ca, tls.Client(tlsConn{ca}, conf), srv, true) }),
			w.Go("server", func() {
				switch fault {
				case 4: // not TLS at all
					defer cb.Close()
					w.Inc("fault.not_tls")
					cb.Write([]byte("$Lock EXTENDEDPROTOCOLABCABCABC Pk=sim|"))
					io.Copy(io.Discard, cb)
					return
				case 5: // dies at once or after the first message
					defer cb.Close()
					w.Inc("fault.peer_dies")
					if t.Bool() {
						cb.Read(make([]byte, 2000))
					}
					return
				}
				talk("server", cb, tls.Server(tlsConn{cb}, sconf), cli, false)
			})}
	}
	if n := t.Weighted(6, 2, 1); n == 0 {
		connect(0)
	} else { // the peer is met before, so the last handshake may resume a session
		conf.ClientSessionCache, conf.ServerName = tls.NewLRUClientSessionCache(4), "hub"
		conf.SessionTicketsDisabled, sconf.SessionTicketsDisabled = false, false
		for _, p := range []*Profile{&ab, &ba, &whole[0], &whole[1]} {
			if p.Window > 0 && p.Window < 16<<10 { // session tickets wait there for the first read
				p.Window = 16 << 10
			}
		}
		f, st, a, b := fault, style, ab, ba
		w.Go("caller", func() {
			fault, style, ab, ba = 0, 0, whole[0], whole[1]
			for i := 0; i < n; i++ {
				for _, task := range connect(i) {
					w.Join(task)
				}
			}
			fault, style, ab, ba = f, st, a, b
			connect(n)
		})
	}
	finish(w, "a TLS connection")
}

func runC22(w *World) {
	t := w.T
	mkIdents(t.Intn(16))
	var file bytes.Buffer
	var want []string
	nl := []string{"\n", "\r\n"}[t.Weighted(4, 1)]
	var desc []string
	for i, n := 0, t.Intn(8); i < n; i++ {
		t.Begin()
		k := t.Weighted(6, 2, 2, 2, 1, 1)
		switch k {
		case 0:
			der := idents[t.Intn(len(idents))].der
			if t.Bool() {
				der = t.Blob(t.Size(3000), "")
			}
			want = append(want, refKeyPrint(der))
			b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
			file.WriteString(strings.ReplaceAll(string(b), "\n", nl))
		case 1:
			typ := []string{"PRIVATE KEY", "RSA PRIVATE KEY", "EC PARAMETERS", "CERTIFICATE REQUEST", "TRUSTED CERTIFICATE", "X509 CRL", "certificate"}[t.Intn(7)]
			blk := &pem.Block{Type: typ, Bytes: t.Blob(t.Size(300), "")}
			if t.Bool() {
				blk.Headers = map[string]string{"Proc-Type": "4,ENCRYPTED", "DEK-Info": "AES-128-CBC,00"}
			}
			b := pem.EncodeToMemory(blk)
			file.WriteString(strings.ReplaceAll(string(b), "\n", nl))
		case 2:
			if t.Chance(300) { // text of any kind
				if txt := t.Blob(1+t.Size(200), []string{"", "\x00 a\n", "-\n", "\xef\xbb\xbf\xff\xfe"}[t.Intn(4)]); !bytes.Contains(txt, []byte("-----BEGIN")) {
					file.Write(txt)
					file.WriteString(nl)
				}
				break
			}
			file.WriteString([]string{"Bag Attributes", "subject=/CN=hub", "# comment", "", "  friendlyName: x", "----", "-----"}[t.Intn(7)] + nl)
		case 3: // a certificate with headers
			der := t.Blob(1+t.Size(300), "")
			want = append(want, refKeyPrint(der))
			b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der, Headers: map[string]string{"Name": "hub"}})
			file.WriteString(strings.ReplaceAll(string(b), "\n", nl))
		case 4: // a damaged block is not a certificate block
			file.WriteString("-----BEGIN CERTIFICATE-----" + nl + "!!!!" + nl + "-----END CERTIFICATE-----" + nl)
		case 5:
			file.WriteString(nl)
		}
		desc = append(desc, fmt.Sprint(k))
		t.End()
	}
	if t.Chance(30) && file.Len() > 0 { // behind a lot of other text
		pad := []int{511, 512, 4096, 32 << 10, 64 << 10, 100 << 10, 1 << 20}[t.Weighted(3, 3, 3, 2, 2, 1, 1)]
		b := bytes.Repeat([]byte("# bundle of certificates\n"), pad/25+1)
		if t.Bool() {
			file.Write(b)
		} else {
			file = *bytes.NewBuffer(append(b, file.Bytes()...))
		}
	}
	data := file.Bytes()
	if t.Chance(200) {
		data = bytes.TrimRight(data, "\r\n")
	}
	w.Sample = fmt.Sprintf("blocks %s, %d bytes", strings.Join(desc, ""), len(data))
	for k, n := 0, 1+t.Weighted(4, 1); k < n; k++ {
		t.Begin()
		prof := w.DrawNet()
		prof.CutAt = -1
		prof.Tame(len(data))
		fault := t.Weighted(5, 2, 1)
		at := t.Intn(len(data) + 1)
		ferr := []error{ErrReset, ErrTransient, io.ErrUnexpectedEOF, io.ErrClosedPipe, errors.New("sim: disk error")}[t.Intn(5)]
		switch fault {
		case 1:
			prof.CutAt, prof.CutErr = at, ferr
		case 2:
			prof.RFaults = append(prof.RFaults, &RFault{At: at, Err: ferr})
		}
		p := w.NewPipe(k, prof)
		wrap := t.Chance(250) && fault != 2 && len(data) < 50000
		t.End()
		feeder(w, p, data)
		w.Go(fmt.Sprintf("read%d", k), func() {
			defer p.CloseRead()
			var r io.Reader = p
			if wrap {
				r = &errWithData{r: p}
			}
			kps, err := keyprint.FromFile(r)
			w.Inc("op")
			fired := p.CutFired() || p.Count("") > 0
			switch {
			case fired && err == nil:
				w.Fail("error-lost", "the source failed with %v at %d of %d bytes, but FromFile reports %d keyprints", ferr, at, len(data), len(kps))
			case fired && !errors.Is(err, ferr):
				w.Fail("wrong-error", "the source failed with %v at %d, but FromFile reports %v", ferr, at, err)
			case err != nil && len(kps) != 0:
				w.Fail("keyprints-with-error", "FromFile reports %v and %d keyprints", err, len(kps))
			case fired:
				w.Inc("probe.error_returned")
			case len(want) == 0 && err == nil:
				w.Fail("nothing-found", "a file without certificates gives %q and no error", kps)
			case len(want) > 0 && err != nil:
				w.Fail("false-error", "a file with %d certificates is rejected: %v", len(want), err)
			case strings.Join(kps, " ") != strings.Join(want, " "):
				w.Fail("wrong-keyprints", "FromFile gives %q, the file holds %q", kps, want)
			}
			if len(want) == 0 {
				w.Inc("probe.no_certificate")
			}
		})
	}
	finish(w, "reading a certificate file")
}

// rsource is a simulated random source; every 8 bytes it hands out are unique.
type rsource struct {
	w     *World
	out   []byte
	fails int
	mode  int
	rate  int
	dead  bool
	zeros int
	zrun  int
	calls map[*Task]*rcall
}

// rcall is what a generation has met.
type rcall struct {
	err   error
	bytes []byte // what the source delivered to it
}

var errRandom = errors.New("sim: random source failed")

func (s *rsource) Read(p []byte) (int, error) {
	w := s.w
	t := w.T
	if w.Dying() {
		return 0, io.ErrClosedPipe
	}
	c := s.calls[w.Cur()]
	if t.Chance(300) {
		w.Yield()
	}
	if t.Chance(50) {
		w.Inc("fault.stall")
		w.Sleep(time.Duration(1+t.Intn(100)) * ms)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1 + t.Intn(n)
	case 2:
		n = 1
	}
	if n < len(p) {
		w.Inc("probe.short_reads")
	}
	fail := func(n int) error {
		w.Inc("fault.random_error")
		err := []error{errRandom, io.EOF, io.ErrUnexpectedEOF, ErrTransient}[t.Intn(4)]
		if c != nil && len(c.bytes) < 24 {
			c.err = err
		}
		return err
	}
	if s.dead {
		return 0, fail(0)
	}
	if s.zrun > 0 { // in a row
		s.zrun--
		return 0, nil
	}
	if s.zeros < 3 && t.Chance(40) {
		s.zeros++
		if t.Chance(100) {
			s.zrun, s.zeros = 3+t.Intn(60), 3
		}
		w.Inc("fault.zero_read")
		return 0, nil
	}
	s.zeros = 0
	var err error
	if t.Chance(s.rate) {
		s.dead = t.Bool()
		if t.Bool() {
			n = 0
		} else {
			n = t.Intn(n)
		}
		err = fail(n)
	}
	for i := 0; i < n; i++ {
		k := len(s.out)
		x := Mix(uint64(k/8) + 12345)
		p[i] = byte(x >> (8 * (k % 8)))
		s.out = append(s.out, p[i])
	}
	if c != nil {
		c.bytes = append(c.bytes, p[:n]...)
	}
	w.Ev("random", n)
	return n, err
}

func runC23(w *World) {
	t := w.T
	s := &rsource{w: w, mode: t.Intn(3), calls: map[*Task]*rcall{}}
	if t.Chance(500) {
		s.rate = t.Intn(200)
	}
	old := crand.Reader
	crand.Reader = s
	w.AfterRun = append(w.AfterRun, func() { crand.Reader = old })
	ids := map[atypes.PID]string{}
	n := 1 + t.Weighted(3, 2, 1, 1)
	w.Sample = fmt.Sprintf("%d tasks, mode %d, failure rate %d", n, s.mode, s.rate)
	for k := 0; k < n; k++ {
		gens := 1 + t.Intn(4)
		w.Go(fmt.Sprintf("gen%d", k), func() {
			for g := 0; g < gens; g++ {
				c := &rcall{}
				s.calls[w.Cur()] = c
				id, err := atypes.NewPID()
				delete(s.calls, w.Cur())
				w.Inc("op")
				if err == nil && len(c.bytes) < len(id) {
					w.Fail("not-random", "an id was generated although only %d of %d random bytes were delivered (%v)", len(c.bytes), len(id), c.err)
				}
				if err == nil && c.err != nil {
					w.Fail("error-lost", "the random source failed with %v after %d bytes, but an id was returned", c.err, len(c.bytes))
				}
				if err != nil && c.err == nil {
					w.Fail("false-error", "generating an id reported %v although the source delivered", err)
				}
				if err != nil {
					w.Inc("probe.error_returned")
					continue
				}
				if len(c.bytes) >= len(id) && !bytes.Equal(id[:], c.bytes[:len(id)]) {
					w.Fail("not-random", "the source delivered %x, but the id is %x: its bytes are not the random ones", c.bytes, id[:])
				}
				if by, ok := ids[id]; ok {
					w.Fail("not-unique", "%s got the id %x that %s got before", w.Cur().Name(), id[:], by)
				}
				ids[id] = w.Cur().Name()
				idTexts(w, id)
			}
		})
	}
	finish(w, "generating ids")
}

// idTexts stores a generated id and restores it: no text form loses a byte of it.
func idTexts(w *World, id atypes.PID) {
	t := w.T
	text := refBase32(id[:])
	tb, err := id.MarshalText()
	var ab bytes.Buffer
	err2 := id.MarshalADC(&ab)
	for i, s := range []string{id.String(), id.Base32(), string(tb), ab.String()} {
		if s != text || err != nil || err2 != nil {
			w.Fail("text-form", "the text of the id %x is %s in form %d, want %s (%v, %v)", id[:], q([]byte(s)), i, text, err, err2)
		}
	}
	if id.IsZero() != (id == atypes.PID{}) {
		w.Fail("text-form", "the id %x is zero: %v", id[:], id.IsZero())
	}
	bad, wrong := badBase32(t, text)
	for _, f := range []struct {
		name string
		f    func(id *atypes.CID, s string) error
	}{
		{"FromBase32", (*atypes.CID).FromBase32},
		{"UnmarshalText", func(h *atypes.CID, s string) error { return h.UnmarshalText([]byte(s)) }},
		{"UnmarshalADC", func(h *atypes.CID, s string) error { return h.UnmarshalADC([]byte(s)) }},
		{"MustParseCID", func(h *atypes.CID, s string) error {
			return orPanic(func() { *h = atypes.MustParseCID(s) })
		}},
		{"MustParseCIDP", func(h *atypes.CID, s string) error {
			return orPanic(func() { *h = *atypes.MustParseCIDP(s) })
		}},
	} {
		var got atypes.CID
		if t.Bool() {
			copy(got[:], t.Blob(len(got), ""))
		}
		if err := f.f(&got, text); err != nil || got != id {
			w.Fail("text-form", "%s of %s gives %x (%v), want %x", f.name, text, got[:], err, id[:])
		}
		if wrong && f.f(&got, bad) == nil {
			w.Fail("text-form", "%s accepts %s", f.name, q([]byte(bad)))
		}
	}
	w.Inc("probe.texts")
}
