package props

import (
	"encoding/base32"
	"errors"
	"os"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	. "verifsim/kernel"
)

// appMsg is a command of an application: the package lets programs register
// their own, described by field tags.
type appMsg struct {
	Flag bool    `adc:"#"`
	Num  int64   `adc:"#"`
	Ptr  *string `adc:"#"`
	Note string  // stays in the program
	Who  adc.SID `adc:"#"`
	Skip string  `adc:"-"`
	Str  string  `adc:"#"`

	OptFlag bool            `adc:"OF"`
	ReqFlag bool            `adc:"QF,req"`
	Bit     adc.BoolInt     `adc:"BI"`
	ReqBit  adc.BoolInt     `adc:"BQ,req"`
	I32     int32           `adc:"IA"`
	I16     int16           `adc:"IB,req"`
	PS      *string         `adc:"PS"`
	PN      *int64          `adc:"PN"`
	PB      *bool           `adc:"PB"`
	PH      *adc.TTH        `adc:"PH"`
	Nums    []int64         `adc:"NM"`
	Flags   []bool          `adc:"FL"`
	Sids    []adc.SID       `adc:"SI"`
	Text    adc.String      `adc:"ST"`
	Fea     adc.Feature     `adc:"FE"`
	Path    adc.Path        `adc:"PA,req"`
	Feas    adc.ExtFeatures `adc:"EF,req"`
}

func (appMsg) Cmd() adc.MsgType { return adc.MsgType{'Z', 'A', 'P'} }

// appAdd is the way a program announces only additions.
type appAdd struct{ adc.AddFeatures }

func (appAdd) Cmd() adc.MsgType { return adc.MsgType{'S', 'U', 'P'} }

func init() { adc.RegisterMessage(appMsg{}) }

func bit(v bool) string {
	if v {
		return "1"
	}
	return "0"
}

// appMsg draws a message of an application.
func (g *agen) appMsg() (adc.Message, aenc) {
	t := g.t
	var e tagger
	num := func() int64 { return []int64{0, 1, -1, 7, 300, 32767, -32768}[t.Intn(7)] }
	m := appMsg{Flag: t.Bool(), Num: g.num(), Who: g.sid(), Str: g.str("")}
	ptr := ""
	if t.Bool() {
		if s := g.str(""); s != "" {
			m.Ptr, ptr = &s, aesc(s)
		}
	}
	e.pos = []string{bit(m.Flag), strconv.FormatInt(m.Num, 10), ptr, string(m.Who[:]), aesc(m.Str)}
	tag := func(s string) { e.tags = append(e.tags, s) }
	if m.OptFlag = t.Bool(); m.OptFlag {
		tag("OF1")
	}
	m.ReqFlag = t.Bool()
	tag("QF" + bit(m.ReqFlag))
	if b := t.Bool(); b {
		m.Bit = true
		tag("BI1")
	}
	m.ReqBit = adc.BoolInt(t.Bool())
	tag("BQ" + bit(bool(m.ReqBit)))
	m.I32 = int32([]int64{0, 1, -1, 65536, 1<<31 - 1, -1 << 31}[t.Intn(6)])
	e.n("IA", int64(m.I32), false)
	m.I16 = int16(num())
	e.n("IB", int64(m.I16), true)
	if t.Bool() {
		if s := g.str(""); s != "" {
			m.PS = &s
			e.s("PS", s, true)
		}
	}
	if t.Bool() {
		v := g.num()
		m.PN = &v
		e.n("PN", v, true)
	}
	if t.Bool() {
		v := t.Bool()
		m.PB = &v
		tag("PB" + bit(v))
	}
	if t.Chance(300) {
		h := adc.TTH(g.hash())
		m.PH = &h
		tag("PH" + hb32(h))
	}
	if t.Bool() {
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			m.Nums = append(m.Nums, g.num())
			e.n("NM", m.Nums[i], true)
		}
	}
	if t.Bool() {
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			m.Flags = append(m.Flags, t.Bool())
			tag("FL" + bit(m.Flags[i]))
		}
	}
	if t.Bool() {
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			m.Sids = append(m.Sids, g.sid())
			tag("SI" + string(m.Sids[i][:]))
		}
	}
	m.Text = adc.String(g.str(""))
	e.s("ST", string(m.Text), false)
	if t.Bool() {
		m.Fea = g.feature()
		tag("FE" + feaName(m.Fea))
	}
	var p, f []string
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		s := g.str("/")
		m.Path = append(m.Path, s)
		p = append(p, aesc(s))
	}
	tag("PA" + strings.Join(p, "/"))
	for i, n := 0, t.Intn(4); i < n; i++ {
		m.Feas = append(m.Feas, g.feature())
		f = append(f, feaName(m.Feas[i]))
	}
	tag("EF" + strings.Join(f, ","))
	e.gen = true
	return m, e.aenc
}

// asSent is the value a program hands over for a message.
func (g *agen) asSent(m adc.Message, a *apkt) adc.Message {
	t := g.t
	switch x := m.(type) {
	case appMsg:
		x.Note, x.Skip = "kept here", "kept here, too"
		return x
	case adc.Supported:
		if !t.Chance(300) {
			break
		}
		var add adc.AddFeatures
		for _, s := range a.enc.tags {
			if !strings.HasPrefix(s, "AD") {
				return m
			}
			add = append(add, s[2:])
		}
		return appAdd{add}
	}
	return m
}

// asked compares what the accessors of a decoded message say with the
// parameters on the wire.
func asked(w *World, m adc.Message, e aenc) {
	tagv := func(name string) (string, bool) {
		for _, s := range e.tags {
			if strings.HasPrefix(s, name) {
				return s[len(name):], true
			}
		}
		return "", false
	}
	user := func(ut adc.UserType) {
		ct, _ := tagv("CT")
		n, _ := strconv.Atoi(ct)
		for _, s := range autypes {
			if got := ut.Is(adc.UserType(s.lib)); got != (n&s.wire != 0) {
				w.Fail("wrong-answer", "CT%d: UserType.Is(%d) = %v", n, s.wire, got)
			}
		}
	}
	switch x := m.(type) {
	case adc.UserInfo:
		user(x.Type)
		ve, ap := x.Version, x.Application
		wantV, wantA := ve, ap
		if i := strings.LastIndexByte(ve, ' '); ap == "" && i >= 0 {
			wantA, wantV = ve[:i], ve[i+1:]
		}
		y := x
		y.Normalize()
		if y.Version != wantV || y.Application != wantA {
			w.Fail("wrong-answer", "Normalize of VE %s AP %s gives version %s, application %s", q([]byte(ve)), q([]byte(ap)), q([]byte(y.Version)), q([]byte(y.Application)))
		}
		y.Version, y.Application = ve, ap
		if canon(y) != canon(x) {
			w.Fail("wrong-answer", "Normalize changed other fields: %s", canon(y))
		}
	case adc.HubInfo:
		user(x.Type)
	case adc.Status:
		sev, code := e.pos[0][0]-'0', e.pos[0][1:]
		err := x.Err()
		var ae adc.Error
		switch {
		case x.Ok() != (sev == 0), x.Recoverable() != (sev <= 1), (err == nil) != (sev == 0):
			w.Fail("wrong-answer", "status %s: Ok %v, Recoverable %v, Err %v", e.pos[0], x.Ok(), x.Recoverable(), err)
		case err != nil && code == "51":
			if !errors.Is(err, os.ErrNotExist) {
				w.Fail("wrong-answer", "status %s: Err is %v, not os.ErrNotExist", e.pos[0], err)
			}
		case err != nil && (!errors.As(err, &ae) || ae.Status != x):
			w.Fail("wrong-answer", "status %s %s: Err is %v", e.pos[0], e.pos[1], err)
		}
	case adc.Supported:
		for _, s := range e.tags {
			f := adc.Feature([]byte(s[2:]))
			if !x.Features.IsSet(f) || x.Features[f] != (s[:2] == "AD") {
				w.Fail("wrong-answer", "%s: IsSet %v, added %v", s, x.Features.IsSet(f), x.Features[f])
			}
		}
	}
}

// running is what a peer keeps over several messages: a feature set, what it
// knows about a user, and messages it decodes into again.
type running struct {
	real adc.Supported
	want map[string]bool

	info, user adc.UserInfo // decoded into, expected
	get        adc.GetRequest
	snd        adc.GetResponse
	cmd        adc.UserCommand
	sta        adc.Status
	msg        adc.ChatMessage
	rel        adc.UserCommand // what cmd must be
}

func (r *running) apply(w *World, p adc.Packet, tags []string) {
	if err := p.DecodeMessageTo(&r.real); err != nil {
		w.Fail("decode-error", "DecodeMessageTo a kept feature set: %v", err)
	}
	if r.want == nil {
		r.want = map[string]bool{}
	}
	for _, s := range tags {
		r.want[s[2:]] = s[:2] == "AD"
	}
	if len(r.real.Features) != len(r.want) {
		w.Fail("wrong-answer", "a feature set kept over several SUP has %d features, sent %d", len(r.real.Features), len(r.want))
	}
	for _, f := range sortedKeys(r.want) {
		if got, ok := r.real.Features[adc.Feature([]byte(f))]; !ok || got != r.want[f] {
			w.Fail("wrong-answer", "a feature set kept over several SUP has %s %v (known %v), want %v", f, got, ok, r.want[f])
		}
	}
}

// infoStr and infoNum are the fields of a user by their names on the wire.
var infoStr = map[string]func(*adc.UserInfo) *string{
	"NI": func(u *adc.UserInfo) *string { return &u.Name },
	"I4": func(u *adc.UserInfo) *string { return &u.Ip4 },
	"I6": func(u *adc.UserInfo) *string { return &u.Ip6 },
	"VE": func(u *adc.UserInfo) *string { return &u.Version },
	"AP": func(u *adc.UserInfo) *string { return &u.Application },
	"US": func(u *adc.UserInfo) *string { return &u.MaxUpload },
	"DS": func(u *adc.UserInfo) *string { return &u.MaxDownload },
	"EM": func(u *adc.UserInfo) *string { return &u.Email },
	"DE": func(u *adc.UserInfo) *string { return &u.Desc },
	"TO": func(u *adc.UserInfo) *string { return &u.Token },
	"RF": func(u *adc.UserInfo) *string { return &u.Ref },
	"KP": func(u *adc.UserInfo) *string { return &u.KP },
	"EA": func(u *adc.UserInfo) *string { return &u.Address },
}

var infoNum = map[string]func(*adc.UserInfo, int64){
	"U4": func(u *adc.UserInfo, v int64) { u.Udp4 = int(v) },
	"U6": func(u *adc.UserInfo, v int64) { u.Udp6 = int(v) },
	"SS": func(u *adc.UserInfo, v int64) { u.ShareSize = v },
	"SF": func(u *adc.UserInfo, v int64) { u.ShareFiles = int(v) },
	"SL": func(u *adc.UserInfo, v int64) { u.Slots = int(v) },
	"FS": func(u *adc.UserInfo, v int64) { u.SlotsFree = int(v) },
	"AS": func(u *adc.UserInfo, v int64) { u.AutoSlotLimit = int(v) },
	"HN": func(u *adc.UserInfo, v int64) { u.HubsNormal = int(v) },
	"HR": func(u *adc.UserInfo, v int64) { u.HubsRegistered = int(v) },
	"HO": func(u *adc.UserInfo, v int64) { u.HubsOperator = int(v) },
	"CT": func(u *adc.UserInfo, v int64) {
		u.Type = 0
		for _, s := range autypes {
			if int(v)&s.wire != 0 {
				u.Type |= adc.UserType(s.lib)
			}
		}
	},
	"AW": func(u *adc.UserInfo, v int64) {
		u.Away = 0
		for _, s := range aaway {
			if int(v) == s.wire {
				u.Away = adc.AwayType(s.lib)
			}
		}
	},
}

func aunesc(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 's':
				c = ' '
			case 'n':
				c = '\n'
			case '\\':
			default:
				b = append(b, c)
				c = s[i]
			}
		}
		b = append(b, c)
	}
	return string(b)
}

// change applies one named parameter to what is known about a user.
func change(u *adc.UserInfo, tag, val string) {
	switch {
	case infoStr[tag] != nil:
		*infoStr[tag](u) = aunesc(val)
	case infoNum[tag] != nil:
		v, _ := strconv.ParseInt(val, 10, 64) // an empty value stands for zero
		infoNum[tag](u, v)
	case tag == "ID" || tag == "PD":
		var h adc.CID
		b, _ := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(val)
		copy(h[:], b)
		if tag == "ID" {
			u.Id = h
		} else if val == "" {
			u.Pid = nil
		} else {
			u.Pid = &h
		}
	case tag == "SU":
		u.Features = nil
		for _, f := range strings.Split(val, ",") {
			if f != "" {
				u.Features = append(u.Features, adc.Feature([]byte(f)))
			}
		}
	}
}

// update draws a change of some fields of a user; an empty value clears one.
func (g *agen) update() (adc.UserInfoMod, aenc) {
	t := g.t
	var m adc.UserInfoMod
	var e tagger
	tags := append(append(sortedKeys(infoStr), sortedKeys(infoNum)...), "SU", "PD", "ID")
	used := map[string]bool{}
	for i, n := 0, 1+t.Intn(5); i < n; i++ {
		tag := tags[t.Intn(len(tags))]
		if used[tag] {
			continue
		}
		used[tag] = true
		val := ""
		full := t.Chance(650)
		switch {
		case tag == "ID" || tag == "PD" && full:
			val = hb32(g.hash())
		case !full:
		case tag == "CT":
			_, v := g.bits(autypes)
			val = strconv.Itoa(v)
		case tag == "AW":
			_, v := g.one(aaway)
			val = strconv.Itoa(v)
		case infoNum[tag] != nil:
			val = strconv.FormatInt(g.num(), 10)
		case tag == "SU":
			for j, k := 0, 1+t.Intn(4); j < k; j++ {
				if j > 0 {
					val += ","
				}
				val += feaName(g.feature())
			}
		default:
			val = g.str("")
		}
		m = append(m, adc.Field{Tag: [2]byte{tag[0], tag[1]}, Value: val})
		e.s(tag, val, true)
	}
	return m, e.aenc
}

// reuse decodes into messages that were decoded into before.
func (r *running) reuse(w *World, p adc.Packet, a *apkt, to int) {
	into := func(m adc.Message) {
		if err := p.DecodeMessageTo(m); err != nil {
			w.Fail("decode-error", "DecodeMessageTo a kept message: %v of %s", err, q(a.line()))
		}
		w.Inc("probe.kept")
	}
	named := func() []string { // the parameters as they came
		if raw, ok := p.Message().(*adc.RawMessage); ok && len(raw.Data) > 0 {
			return strings.Split(string(raw.Data), " ")[len(a.enc.pos):]
		}
		return nil
	}
	same := func(got, want interface{}) {
		if g, x := canon(got), canon(want); g != x {
			i := firstDiff([]byte(g), []byte(x))
			lo := max(0, i-60)
			w.Fail("stale-value", "a kept %T after %s, near %d: ...%s, want ...%s", got, q(a.line()), i, short(g[min(lo, len(g)):]), short(x[min(lo, len(x)):]))
		}
	}
	switch m := a.want.Message().(type) {
	case adc.UserInfo, adc.UserInfoMod:
		if to == 2 {
			return
		}
		into(&r.info)
		known := map[string]bool{}
		for _, s := range a.enc.tags {
			known[s[:2]] = true
			change(&r.user, s[:2], s[2:])
		}
		for _, s := range named() { // zeros spelled out by another implementation
			if len(s) > 2 && !known[s[:2]] {
				change(&r.user, s[:2], s[2:])
			}
		}
		same(&r.info, &r.user)
		if to == 3 {
			w.Inc("probe.update")
		}
	case adc.GetRequest:
		into(&r.get)
		same(&r.get, &m)
	case adc.GetResponse:
		into(&r.snd)
		same(&r.snd, &m)
	case adc.Status:
		into(&r.sta)
		same(&r.sta, &m)
	case adc.UserCommand:
		into(&r.cmd)
		x := &r.rel
		x.Path = m.Path
		for _, s := range named() {
			switch s[:2] {
			case "TT":
				x.Command = aunesc(s[2:])
			case "CT":
				x.Category = m.Category
			case "RM":
				x.Remove = m.Remove
			case "CO":
				x.Constrained = m.Constrained
			case "SP":
				x.Separator = m.Separator
			}
		}
		same(&r.cmd, x)
	case adc.ChatMessage:
		r.msg.Me = w.T.Bool()
		into(&r.msg)
		same(r.msg.Text, m.Text)
		for _, s := range named() {
			switch s[:2] {
			case "ME":
				same(r.msg.Me, m.Me)
			case "TS":
				same(r.msg.TS, m.TS)
			case "PM":
				same(r.msg.PM, m.PM)
			}
		}
	}
}
