package props

import (
	"bytes"
	"encoding/base32"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	atypes "github.com/direct-connect/go-dc/adc/types"

	. "verifsim/kernel"
)

// agen draws ADC packets the protocol can represent, with the line an
// independent encoder gives them.
type agen struct {
	t     *Tape
	big   bool
	focus []int // kinds of messages to draw, any if empty
	kept  map[string]adc.WriteStream
	packs map[string]adc.Packet
}

// aenc is the payload of a message as the protocol defines it.
type aenc struct {
	pos  []string // positional parameters
	tags []string // named parameters
	any  bool     // the order of the tags is free (SUP is a set)
	gen  bool     // named parameters may come in any order, unknown ones may be added
	nums []string // names of the numbers, given or not
}

func (e aenc) String() string {
	return strings.Join(append(append([]string{}, e.pos...), e.tags...), " ")
}

var adcChunks = []string{"a", "hello", " ", "\n", "\\", "\\s", "\\n", "\\\\", "é", "日本", "$", "|", "/", ":", "+", "-", "\r", "\t", "ID", "NI", "SS1", "0", "😀", "\"", "AD", "  ", "\xff", "\u2028"}

func (g *agen) str(no string) string {
	t := g.t
	n := 0
	switch t.Weighted(2, 8, 2) {
	case 1:
		n = 1 + t.Intn(4)
	case 2:
		n = 1 + t.Intn(24)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		c := adcChunks[t.Intn(len(adcChunks))]
		if no != "" && strings.ContainsAny(c, no) {
			c = "x"
		}
		sb.WriteString(c)
	}
	s := sb.String()
	if g.big && t.Chance(80) {
		s = strings.Repeat(s, 1+t.Intn(600))
	}
	return s
}

func aesc(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ':
			sb.WriteString(`\s`)
		case '\n':
			sb.WriteString(`\n`)
		case '\\':
			sb.WriteString(`\\`)
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func (g *agen) sid() (id adc.SID) {
	copy(id[:], g.t.Blob(4, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"))
	return
}

func (g *agen) hash() (h adc.CID) {
	copy(h[:], g.t.Blob(24, ""))
	return
}

var b32 = base32.StdEncoding.WithPadding(base32.NoPadding)

func hb32(h [24]byte) string { return b32.EncodeToString(h[:]) }

func (g *agen) num() int64 {
	t := g.t
	return []int64{0, 1, 2, 9, 42, 411, 65535, 1<<31 - 1, 1 << 31, 1<<53 + 1, 1<<63 - 1, -1, -5}[t.Intn(13)]
}

func (g *agen) feature() (f adc.Feature) {
	t := g.t
	if t.Chance(600) {
		return afeatures[t.Intn(len(afeatures))].lib
	}
	copy(f[:], t.Blob(4, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
	return
}

// tagger collects named parameters.
type tagger struct{ aenc }

func (e *tagger) s(tag, v string, req bool) {
	if v != "" || req {
		e.tags = append(e.tags, tag+aesc(v))
	}
}
func (e *tagger) n(tag string, v int64, req bool) {
	e.nums = append(e.nums, tag)
	if v != 0 || req {
		e.tags = append(e.tags, tag+strconv.FormatInt(v, 10))
	}
}

func (g *agen) strs() []string {
	t := g.t
	if t.Bool() {
		return nil
	}
	var l []string
	for i, n := 0, 1+many(g.t, g.big, 3); i < n; i++ {
		l = append(l, g.str(""))
	}
	return l
}

const adcKinds = 19

var (
	acats   = []symbol{{int(adc.CategoryHub), 1}, {int(adc.CategoryUser), 2}, {int(adc.CategorySearch), 4}, {int(adc.CategoryFileList), 8}}
	autypes = []symbol{{int(adc.UserTypeBot), 1}, {int(adc.UserTypeRegistered), 2}, {int(adc.UserTypeOperator), 4}, {int(adc.UserTypeSuperUser), 8},
		{int(adc.UserTypeHubOwner), 16}, {int(adc.UserTypeHub), 32}, {int(adc.UserTypeHidden), 64}}
	aaway   = []symbol{{int(adc.AwayTypeNone), 0}, {int(adc.AwayTypeNormal), 1}, {int(adc.AwayTypeExtended), 2}}
	afiles  = []symbol{{int(adc.FileTypeAny), 0}, {int(adc.FileTypeFile), 1}, {int(adc.FileTypeDir), 2}}
	agroups = []symbol{{int(adc.ExtAudio), 1}, {int(adc.ExtArch), 2}, {int(adc.ExtDoc), 4}, {int(adc.ExtExe), 8}, {int(adc.ExtImage), 16}, {int(adc.ExtVideo), 32}}
	asevs   = []symbol{{int(adc.Success), 0}, {int(adc.Recoverable), 1}, {int(adc.Fatal), 2}}
)

// bits draws a set of flags: the value of the library and that of the protocol.
func (g *agen) bits(tab []symbol) (lib, wire int) {
	set := g.t.Intn(1 << len(tab))
	for i, s := range tab {
		if set>>i&1 != 0 {
			lib |= s.lib
			wire |= s.wire
		}
	}
	return
}

func (g *agen) one(tab []symbol) (lib, wire int) {
	s := tab[g.t.Intn(len(tab))]
	return s.lib, s.wire
}

// features of the library and their names.
var afeatures = []struct {
	lib  adc.Feature
	name string
}{{adc.FeaBASE, "BASE"}, {adc.FeaBAS0, "BAS0"}, {adc.FeaTIGR, "TIGR"}, {adc.FeaPING, "PING"}, {adc.FeaONID, "ONID"}, {adc.FeaBZIP, "BZIP"}, {adc.FeaTS, "TS00"},
	{adc.FeaZLIF, "ZLIF"}, {adc.FeaZLIG, "ZLIG"}, {adc.FeaSEGA, "SEGA"}, {adc.FeaUCMD, "UCMD"}, {adc.FeaUCM0, "UCM0"}, {adc.FeaADCS, "ADCS"}, {adc.FeaADC0, "ADC0"},
	{adc.FeaNAT0, "NAT0"}, {adc.FeaASCH, "ASCH"}, {adc.FeaSUD1, "SUD1"}, {adc.FeaSUDP, "SUDP"}, {adc.FeaCCPM, "CCPM"}, {adc.FeaBLO0, "BLO0"}, {adc.FeaSIPR, "SIPR"},
	{adc.FeaTCP4, "TCP4"}, {adc.FeaTCP6, "TCP6"}, {adc.FeaUDP4, "UDP4"}, {adc.FeaUDP6, "UDP6"}}

// feaName is the name of a feature on the wire.
func feaName(f adc.Feature) string {
	for _, s := range afeatures {
		if s.lib == f {
			return s.name
		}
	}
	return string(f[:])
}

// msg draws a message of kind k.
func (g *agen) msg(k int) (adc.Message, aenc) {
	t := g.t
	var e tagger
	opt := func() string {
		if t.Chance(600) {
			return ""
		}
		return g.str("")
	}
	optN := func() int64 {
		if t.Chance(600) {
			return 0
		}
		return g.num()
	}
	switch k {
	case 0:
		m := adc.ChatMessage{Text: g.str(""), Me: t.Chance(200), TS: optN()}
		e.pos = []string{aesc(m.Text)}
		if t.Chance(300) {
			id := g.sid()
			m.PM = &id
			e.tags = append(e.tags, "PM"+string(id[:]))
		}
		if m.Me {
			e.tags = append(e.tags, "ME1")
		}
		e.n("TS", m.TS, false)
		e.gen = true
		return m, e.aenc
	case 1:
		m := adc.UserInfo{}
		if t.Chance(700) {
			m.Id = g.hash()
		}
		if m.Id != (adc.CID{}) {
			e.tags = append(e.tags, "ID"+hb32(m.Id))
		}
		if t.Chance(300) {
			id := adc.PID(g.hash())
			m.Pid = &id
			e.tags = append(e.tags, "PD"+hb32(id))
		}
		m.Name, m.Ip4, m.Ip6 = g.str(""), opt(), opt()
		e.s("NI", m.Name, true)
		e.s("I4", m.Ip4, false)
		e.s("I6", m.Ip6, false)
		m.Udp4, m.Udp6 = int(optN()), int(optN())
		e.n("U4", int64(m.Udp4), false)
		e.n("U6", int64(m.Udp6), false)
		m.ShareSize, m.ShareFiles = g.num(), int(g.num())
		e.n("SS", m.ShareSize, true)
		e.n("SF", int64(m.ShareFiles), true)
		m.Version, m.Application, m.MaxUpload, m.MaxDownload = opt(), opt(), opt(), opt()
		e.s("VE", m.Version, true)
		e.s("AP", m.Application, false)
		e.s("US", m.MaxUpload, false)
		e.s("DS", m.MaxDownload, false)
		m.Slots, m.SlotsFree, m.AutoSlotLimit = int(optN()), int(optN()), int(optN())
		e.n("SL", int64(m.Slots), true)
		e.n("FS", int64(m.SlotsFree), true)
		e.n("AS", int64(m.AutoSlotLimit), false)
		m.Email, m.Desc = opt(), opt()
		e.s("EM", m.Email, false)
		e.s("DE", m.Desc, false)
		m.HubsNormal, m.HubsRegistered, m.HubsOperator = int(optN()), int(optN()), int(optN())
		e.n("HN", int64(m.HubsNormal), true)
		e.n("HR", int64(m.HubsRegistered), true)
		e.n("HO", int64(m.HubsOperator), true)
		m.Token = opt()
		e.s("TO", m.Token, false)
		ct, wct := g.bits(autypes)
		aw, waw := g.one(aaway)
		m.Type, m.Away = adc.UserType(ct), adc.AwayType(aw)
		e.n("CT", int64(wct), false)
		e.n("AW", int64(waw), false)
		m.Ref = opt()
		e.s("RF", m.Ref, false)
		su := "SU"
		for i, n := 0, many(g.t, g.big, 5); i < n; i++ {
			f := g.feature()
			m.Features = append(m.Features, f)
			if i > 0 {
				su += ","
			}
			su += feaName(f)
		}
		e.tags = append(e.tags, su)
		m.KP, m.Address = opt(), opt()
		e.s("KP", m.KP, false)
		e.s("EA", m.Address, false)
		e.gen = true
		return m, e.aenc
	case 2:
		m := adc.SearchRequest{Token: opt(), And: g.strs(), Not: g.strs(), Ext: g.strs()}
		e.s("TO", m.Token, false)
		for _, s := range m.And {
			e.s("AN", s, true)
		}
		for _, s := range m.Not {
			e.s("NO", s, true)
		}
		for _, s := range m.Ext {
			e.s("EX", s, true)
		}
		m.Le, m.Ge, m.Eq = optN(), optN(), optN()
		e.n("LE", m.Le, false)
		e.n("GE", m.Ge, false)
		e.n("EQ", m.Eq, false)
		ty, wty := g.one(afiles)
		m.Type = adc.FileType(ty)
		e.n("TY", int64(wty), false)
		if t.Bool() {
			h := adc.TTH(g.hash())
			m.TTH = &h
			e.tags = append(e.tags, "TR"+hb32(h))
		}
		gr, wgr := g.bits(agroups)
		m.Group = adc.ExtGroup(gr)
		e.n("GR", int64(wgr), false)
		m.NoExt = g.strs()
		for _, s := range m.NoExt {
			e.s("RX", s, true)
		}
		e.gen = true
		return m, e.aenc
	case 3:
		m := adc.SearchResult{Token: opt(), Path: g.str(""), Size: g.num(), Slots: int(optN())}
		e.s("TO", m.Token, false)
		e.s("FN", m.Path, false)
		e.n("SI", m.Size, false)
		e.n("SL", int64(m.Slots), false)
		if t.Bool() {
			h := adc.TTH(g.hash())
			m.TTH = &h
			e.tags = append(e.tags, "TR"+hb32(h))
		}
		e.gen = true
		return m, e.aenc
	case 4:
		m := adc.Supported{Features: adc.ModFeatures{}}
		for i, n := 0, t.Intn(6); i < n; i++ {
			m.Features[g.feature()] = t.Bool()
		}
		for f, on := range m.Features {
			p := "RM"
			if on {
				p = "AD"
			}
			e.tags = append(e.tags, p+feaName(f))
		}
		sort.Strings(e.tags)
		e.any, e.gen = true, true
		return m, e.aenc
	case 5:
		sev, wsev := g.one(asevs)
		m := adc.Status{Sev: adc.Severity(sev), Code: []int{0, 1, 10, 51, 99, 20}[t.Intn(6)], Msg: g.str("")}
		e.pos = []string{fmt.Sprintf("%d%d%d", wsev, m.Code/10, m.Code%10), aesc(m.Msg)}
		return m, e.aenc
	case 6:
		return adc.ZOff{}, e.aenc
	case 7:
		m := adc.SIDAssign{SID: g.sid()}
		e.pos = []string{string(m.SID[:])}
		return m, e.aenc
	case 8:
		cat, wcat := g.bits(acats)
		m := adc.UserCommand{Command: opt(), Category: adc.Category(cat), Remove: t.Intn(2), Constrained: t.Intn(2), Separator: t.Intn(2)}
		var p []string
		for i, n := 0, 1+many(g.t, g.big, 3); i < n; i++ {
			c := g.str("/")
			m.Path = append(m.Path, c)
			p = append(p, aesc(c))
		}
		e.pos = []string{strings.Join(p, "/")}
		e.s("TT", m.Command, false)
		e.n("CT", int64(wcat), false)
		e.n("RM", int64(m.Remove), false)
		e.n("CO", int64(m.Constrained), false)
		e.n("SP", int64(m.Separator), false)
		e.gen = true
		return m, e.aenc
	case 9:
		m := adc.GetPassword{Salt: t.Blob(1+t.Intn(40), "")}
		e.pos = []string{b32.EncodeToString(m.Salt)}
		return m, e.aenc
	case 10:
		m := adc.Password{}
		m.Hash = [24]byte(g.hash())
		e.pos = []string{hb32(m.Hash)}
		return m, e.aenc
	case 11:
		m := adc.Disconnect{ID: g.sid(), Message: opt(), Duration: int(optN()), Redirect: opt()}
		e.pos = []string{string(m.ID[:])}
		e.s("MS", m.Message, false)
		if t.Bool() {
			m.By = g.sid()
			e.tags = append(e.tags, "ID"+string(m.By[:]))
		}
		e.n("TL", int64(m.Duration), false)
		e.s("RD", m.Redirect, false)
		e.gen = true
		return m, e.aenc
	case 12:
		m := adc.GetInfoRequest{Type: g.str(""), Path: g.str("")}
		e.pos = []string{aesc(m.Type), aesc(m.Path)}
		return m, e.aenc
	case 13, 14:
		m := adc.GetRequest{Type: g.str(""), Path: g.str(""), Start: g.num(), Bytes: g.num(), Compressed: t.Bool()}
		e.pos = []string{aesc(m.Type), aesc(m.Path), fmt.Sprint(m.Start), fmt.Sprint(m.Bytes)}
		if m.Compressed {
			e.pos = append(e.pos, "ZL1")
		}
		if k == 14 {
			return adc.GetResponse(m), e.aenc
		}
		return m, e.aenc
	case 15:
		m := adc.RevConnectRequest{Proto: g.str(""), Token: g.str("")}
		e.pos = []string{aesc(m.Proto), aesc(m.Token)}
		return m, e.aenc
	case 16:
		m := adc.ConnectRequest{Proto: g.str(""), Port: int(g.num()), Token: g.str("")}
		e.pos = []string{aesc(m.Proto), fmt.Sprint(m.Port), aesc(m.Token)}
		return m, e.aenc
	case 17:
		m := &adc.RawMessage{Type: adc.MsgType{'F', 'O', "ABC"[t.Intn(3)]}, Data: []byte(aesc(g.str("")))}
		if t.Chance(200) {
			m.Data = []byte(" lead" + string(m.Data))
		}
		e.pos = []string{string(m.Data)}
		return m, e.aenc
	}
	// a message of a known command with its raw payload
	in, ie := g.msg(t.Intn(17))
	return &adc.RawMessage{Type: adc.MsgType([]byte(cmdName(in))), Data: []byte(ie.String())}, aenc{pos: []string{ie.String()}}
}

// hubInfo draws the alternative form of an INF message.
func (g *agen) hubInfo() (adc.HubInfo, aenc) {
	t := g.t
	var e tagger
	m := adc.HubInfo{Name: g.str(""), Version: g.str(""), Application: g.str(""), Desc: g.str("")}
	ct, wct := g.bits(autypes)
	m.Type = adc.UserType(ct)
	e.s("NI", m.Name, true)
	e.s("VE", m.Version, true)
	e.s("AP", m.Application, false)
	e.s("DE", m.Desc, false)
	e.n("CT", int64(wct), false)
	m.Address, m.Website, m.Network, m.Owner = g.str(""), g.str(""), g.str(""), g.str("")
	e.s("HH", m.Address, false)
	e.s("WS", m.Website, false)
	e.s("NE", m.Network, false)
	e.s("OW", m.Owner, false)
	n := func(tag string, p *int) {
		if t.Chance(400) {
			*p = int(g.num())
		}
		e.n(tag, int64(*p), false)
	}
	n("UC", &m.Users)
	n("SS", &m.Share)
	n("SF", &m.Files)
	n("MS", &m.MinShare)
	if t.Chance(400) {
		m.MaxShare = g.num()
	}
	e.n("XS", m.MaxShare, false)
	n("ML", &m.MinSlots)
	n("XL", &m.MaxSlots)
	n("MC", &m.UsersLimit)
	n("UP", &m.Uptime)
	n("XU", &m.MaxHubsUser)
	n("XR", &m.MaxHubsReg)
	n("XO", &m.MaxHubsOp)
	e.gen = true
	return m, e.aenc
}

// fields draws the generic form of an INF message.
func (g *agen) fields() (adc.UserInfoMod, aenc) {
	t := g.t
	var m adc.UserInfoMod
	var e tagger
	for i, n := 0, many(g.t, g.big, 6); i < n; i++ {
		f := adc.Field{Tag: [2]byte{"ABNSX"[t.Intn(5)], "I12Z"[t.Intn(4)]}, Value: g.str("")}
		if i > 0 && t.Chance(120) { // the same again
			f = m[t.Intn(i)]
			if t.Bool() {
				f = m[i-1]
			}
		}
		m = append(m, f)
		e.s(string(f.Tag[:]), f.Value, true)
	}
	return m, e.aenc
}

// apkt is a drawn packet.
type apkt struct {
	pkt  adc.Packet // as sent
	want adc.Packet // as decoded
	enc  aenc
	head string // everything before the payload
	kind byte
}

func (a *apkt) line() []byte {
	s := a.head
	if p := a.enc.String(); p != "" {
		s += " " + p
	}
	return []byte(s + "\n")
}

// normal makes lines comparable when the order of some parameters is free.
func (a *apkt) normal(line []byte) string {
	if !a.enc.any {
		return string(line)
	}
	s := strings.TrimSuffix(string(line), "\n")
	if !strings.HasPrefix(s, a.head+" ") {
		return string(line)
	}
	f := strings.Split(s[len(a.head)+1:], " ")
	sort.Strings(f)
	return a.head + " " + strings.Join(f, " ") + "\n"
}

// spell writes numbers with an exponent or a fraction of zero, as some clients
// do, and spells out what is left out when it is zero.
func (e aenc) spell(t *Tape) []string {
	tags := append([]string{}, e.tags...)
	given := map[string]bool{}
	for i, s := range tags {
		tag := s[:2]
		given[tag] = true
		v, err := strconv.ParseInt(s[2:], 10, 64)
		if err != nil || v > 1<<53 || v < -1<<53 || !t.Chance(300) {
			continue
		}
		switch tag {
		case "CT", "AW", "TY", "GR", "RM", "CO", "SP": // no quantities
			continue
		}
		for _, n := range e.nums {
			if n == tag {
				tags[i] = tag + strconv.FormatFloat(float64(v), 'e', -1, 64)
				if t.Bool() {
					tags[i] = s + ".0"
				}
				break
			}
		}
	}
	for _, n := range append([]string{"ME"}, e.nums...) {
		if !given[n] && (n != "ME" || len(e.pos) == 1 && len(e.nums) == 1 && e.nums[0] == "TS") && t.Chance(200) {
			i := t.Intn(len(tags) + 1)
			tags = append(tags[:i], append([]string{n + "0"}, tags[i:]...)...)
		}
	}
	return tags
}

// alt is the same packet as another implementation may write it.
func (a *apkt) alt(t *Tape) []byte {
	e := a.enc
	if e.gen && (len(e.tags) > 0 || e.String() != "" && t.Chance(300)) {
		tags := append([]string{}, e.tags...)
		if !t.Bool() {
			// stable order of equal names, free order of different ones
			sort.SliceStable(tags, func(i, j int) bool {
				return Mix(uint64(tags[i][0])<<8|uint64(tags[i][1])+uint64(len(tags))) < Mix(uint64(tags[j][0])<<8|uint64(tags[j][1])+uint64(len(tags)))
			})
		}
		if t.Bool() {
			i := t.Intn(len(tags) + 1)
			tags = append(tags[:i], append([]string{"ZZun\\sknown"}, tags[i:]...)...)
		}
		if t.Chance(400) {
			e.tags = tags
			tags = e.spell(t)
		}
		e.tags = tags
	}
	head := a.head
	if fp, ok := a.pkt.(*adc.FeaturePacket); ok && len(fp.Sel) > 1 && t.Bool() {
		i := strings.IndexAny(head, "+-")
		head = head[:i] + strings.ReplaceAll(head[i:], " ", "")
	}
	s := head
	if p := e.String(); p != "" {
		s += " " + p
	}
	return []byte(s + "\n")
}

// cmdName is the command of a message on the wire.
func cmdName(m adc.Message) string {
	switch m := m.(type) {
	case adc.ChatMessage:
		return "MSG"
	case adc.UserInfo, adc.HubInfo, adc.UserInfoMod:
		return "INF"
	case adc.SearchRequest:
		return "SCH"
	case adc.SearchResult:
		return "RES"
	case adc.Supported:
		return "SUP"
	case adc.Status:
		return "STA"
	case adc.ZOn:
		return "ZON"
	case adc.ZOff:
		return "ZOF"
	case adc.SIDAssign:
		return "SID"
	case adc.UserCommand:
		return "CMD"
	case adc.GetPassword:
		return "GPA"
	case adc.Password:
		return "PAS"
	case adc.Disconnect:
		return "QUI"
	case adc.GetInfoRequest:
		return "GFI"
	case adc.GetRequest:
		return "GET"
	case adc.GetResponse:
		return "SND"
	case adc.RevConnectRequest:
		return "RCM"
	case adc.ConnectRequest:
		return "CTM"
	case *adc.RawMessage:
		return string(m.Type[:])
	case appMsg:
		return "ZAP"
	}
	c := m.Cmd()
	return string(c[:])
}

// ptrTo returns a pointer to a copy of a message.
func ptrTo(m adc.Message) adc.Message {
	rv := reflect.ValueOf(m)
	if rv.Kind() == reflect.Ptr {
		return m
	}
	p := reflect.New(rv.Type())
	p.Elem().Set(rv)
	return p.Interface().(adc.Message)
}

// wrap puts a message in a packet of a drawn kind.
func (g *agen) wrap(m adc.Message, e aenc, kinds string) *apkt {
	t := g.t
	a := &apkt{enc: e}
	k := kinds[t.Intn(len(kinds))]
	pay := e.String()
	if k == 'F' && pay != "" && strings.Contains("+- ", pay[:1]) {
		k = 'B'
		if !strings.Contains(kinds, "B") {
			k = kinds[0]
		}
	}
	a.kind = k
	a.head = string(k) + cmdName(m)
	mk := func(p, w adc.Packet) {
		a.pkt, a.want = p, w
		sm := g.asSent(m, a)
		if t.Chance(250) {
			sm = ptrTo(sm)
		}
		p.SetMessage(sm)
		w.SetMessage(m)
	}
	id, to := g.sid(), g.sid()
	switch k {
	case 'I':
		mk(&adc.InfoPacket{}, &adc.InfoPacket{})
	case 'H':
		mk(&adc.HubPacket{}, &adc.HubPacket{})
	case 'C':
		mk(&adc.ClientPacket{}, &adc.ClientPacket{})
	case 'B':
		mk(&adc.BroadcastPacket{ID: id}, &adc.BroadcastPacket{ID: id})
		a.head += " " + string(id[:])
	case 'D':
		mk(&adc.DirectPacket{ID: id, To: to}, &adc.DirectPacket{ID: id, To: to})
		a.head += " " + string(id[:]) + " " + string(to[:])
	case 'E':
		mk(&adc.EchoPacket{ID: id, To: to}, &adc.EchoPacket{ID: id, To: to})
		a.head += " " + string(id[:]) + " " + string(to[:])
	case 'F':
		var sel []adc.FeatureSel
		for i, n := 0, many(g.t, g.big, 4); i < n; i++ {
			sel = append(sel, adc.FeatureSel{Fea: g.feature(), Sel: t.Bool()})
		}
		mk(&adc.FeaturePacket{ID: id, Sel: sel}, &adc.FeaturePacket{ID: id, Sel: sel})
		a.head += " " + string(id[:])
		for _, s := range sel {
			a.head += " " + map[bool]string{true: "+", false: "-"}[s.Sel] + feaName(s.Fea)
		}
	case 'U':
		cid := g.hash()
		mk(&adc.UDPPacket{ID: cid}, &adc.UDPPacket{ID: cid})
		a.head += " " + hb32(cid)
	}
	return a
}

const adcAll = "IHCBDEFU"

// apacket draws a packet; raw payloads of known commands are not drawn.
func (g *agen) apacket() *apkt {
	k := g.t.Intn(19)
	if len(g.focus) > 0 {
		k = g.focus[k%len(g.focus)]
	}
	if k == 18 {
		m, e := g.appMsg()
		return g.wrap(m, e, adcAll)
	}
	m, e := g.msg(k)
	return g.wrap(m, e, adcAll)
}

// packet draws a packet, its line and the canonical text of its decoded form.
// The line of a set is the one the real encoder gives.
func (g *agen) packet() (adc.Packet, []byte, string) {
	a := g.apacket()
	line := a.line()
	if a.enc.any {
		var b bytes.Buffer
		if err := a.pkt.MarshalPacketADC(&b); err == nil {
			line = b.Bytes()
		}
	}
	return a.pkt, line, canon(a.want)
}

// write sends a packet through a drawn entry point: as it is, copied into a
// packet that an earlier call was given, or through a new or an old stream.
func (g *agen) write(aw *adc.Writer, p adc.Packet) error {
	how := g.t.Weighted(3, 3, 2, 2, 2)
	if how == 0 {
		return aw.WritePacket(p)
	}
	key := fmt.Sprintf("%p %c", aw, p.Kind())
	if how == 4 {
		old := g.packs[key]
		if old == nil {
			if g.packs == nil {
				g.packs = map[string]adc.Packet{}
			}
			old = reflect.New(reflect.TypeOf(p).Elem()).Interface().(adc.Packet)
			g.packs[key] = old
		}
		reflect.ValueOf(old).Elem().Set(reflect.ValueOf(p).Elem())
		return aw.WritePacket(old)
	}
	var s adc.WriteStream
	m := p.Message()
	switch p := p.(type) {
	case *adc.InfoPacket:
		if s = aw.InfoStream(); how == 1 {
			return aw.WriteInfo(m)
		}
	case *adc.HubPacket:
		if s = aw.HubStream(); how == 1 {
			return aw.WriteHub(m)
		}
	case *adc.ClientPacket:
		if s = aw.ClientStream(); how == 1 {
			return aw.WriteClient(m)
		}
	case *adc.BroadcastPacket:
		if s = aw.BroadcastStream(p.ID); how == 1 {
			return aw.WriteBroadcast(p.ID, m)
		}
		key += p.ID.String()
	case *adc.DirectPacket:
		if s = aw.DirectStream(p.ID, p.To); how == 1 {
			return aw.WriteDirect(p.ID, p.To, m)
		}
		key += p.ID.String() + p.To.String()
	case *adc.EchoPacket:
		if s = aw.EchoStream(p.ID, p.To); how == 1 {
			return aw.WriteEcho(p.ID, p.To, m)
		}
		key += p.ID.String() + p.To.String()
	case *adc.FeaturePacket:
		if s = aw.FeatureStream(p.ID, append([]adc.FeatureSel(nil), p.Sel...)); how == 1 {
			return aw.WriteFeature(p.ID, p.Sel, m)
		}
		key += p.ID.String() + fmt.Sprint(p.Sel)
	default:
		return aw.WritePacket(p)
	}
	if how == 3 {
		if old := g.kept[key]; old != nil {
			s = old
		} else {
			if g.kept == nil {
				g.kept = map[string]adc.WriteStream{}
			}
			g.kept[key] = s
		}
	}
	return s.WriteMessage(m)
}

// flush flushes a writer directly or through a stream of any kind; all kinds
// of streams share the one buffer.
func (g *agen) flush(aw *adc.Writer) error {
	if g.t.Bool() {
		return aw.Flush()
	}
	return anyStream(g.t, aw).Flush()
}

func anyStream(t *Tape, aw *adc.Writer) adc.WriteStream {
	a, b := atypes.SIDFromInt(uint32(t.Intn(1<<20))), atypes.SIDFromInt(uint32(t.Intn(1<<20)))
	switch t.Intn(7) {
	case 0:
		return aw.InfoStream()
	case 1:
		return aw.HubStream()
	case 2:
		return aw.ClientStream()
	case 3:
		return aw.BroadcastStream(a)
	case 4:
		return aw.DirectStream(a, b)
	case 5:
		return aw.EchoStream(a, b)
	}
	return aw.FeatureStream(a, nil)
}

// addressed checks what a packet says about its own kind and addresses.
func (a *apkt) addressed(w *World, p adc.Packet) {
	if p.Kind() != a.kind {
		w.Fail("wrong-address", "the packet %s says it is of the kind %q", q(a.line()), p.Kind())
	}
	head := strings.Fields(a.head)
	if len(head) > 1 && strings.IndexByte("BDEF", a.kind) >= 0 {
		if s := p.(adc.PeerPacket).Source(); s.String() != head[1] {
			w.Fail("wrong-address", "the packet %s says it comes from %s", q(a.line()), s)
		}
	}
	if len(head) > 2 && (a.kind == 'D' || a.kind == 'E') {
		if s := p.(adc.TargetPacket).Target(); s.String() != head[2] {
			w.Fail("wrong-address", "the packet %s says it goes to %s", q(a.line()), s)
		}
	}
}

// newLike returns a pointer to a zero message of the type of m.
func newLike(m adc.Message) adc.Message {
	rt := reflect.TypeOf(m)
	if rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return reflect.New(rt).Interface().(adc.Message)
}

// valueOf is the message a pointer points to; raw messages stay pointers.
func valueOf(m adc.Message) adc.Message {
	if _, ok := m.(*adc.RawMessage); ok {
		return m
	}
	rv := reflect.ValueOf(m)
	if rv.Kind() == reflect.Ptr {
		return rv.Elem().Interface().(adc.Message)
	}
	return m
}
