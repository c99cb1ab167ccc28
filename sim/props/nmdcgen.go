package props

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"github.com/direct-connect/go-dc/types"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"

	. "verifsim/kernel"
)

// charset is a text encoding and characters it can represent.
type charset struct {
	name  string
	enc   encoding.Encoding // nil is UTF-8
	extra []string
	bytes []byte // sequences of bytes of the encoding that are not UTF-8, one per character
}

var charsets = []*charset{
	{name: "utf-8", extra: []string{"é", "Ж", "日本", "😀", "\u00a0", "ß"}},
	{name: "windows-1251", enc: charmap.Windows1251, extra: []string{"Ж", "ёж", "привет", "№", "Я"}},
	{name: "windows-1252", enc: charmap.Windows1252, extra: []string{"é", "ß", "Ünï", "€", "ÿ"}},
	{name: "gbk", enc: simplifiedchinese.GBK, extra: []string{"中文", "誠", "垾", "踅", "聕"}},
	{name: "shift_jis", enc: japanese.ShiftJIS, extra: []string{"表示", "ソ", "予", "ポ", "能", "ﾊﾟ"}},
}

func (c *charset) encoder() *nmdc.TextEncoder {
	if c.enc == nil {
		return nil
	}
	return c.enc.NewEncoder()
}

// strictUTF8 has a decoder that rejects bad text itself.
var strictUTF8 = &charset{name: "strict utf-8", extra: charsets[0].extra}

func (c *charset) decoder() *nmdc.TextDecoder {
	if c.name == strictUTF8.name {
		return &encoding.Decoder{Transformer: encoding.UTF8Validator}
	}
	if c.enc == nil {
		return nil
	}
	return c.enc.NewDecoder()
}

// ngen draws NMDC messages the protocol can represent.
type ngen struct {
	t   *Tape
	cs  *charset
	big bool     // long texts too
	few []string // types of messages to draw, any if empty
}

var strChunks = []string{"a", "Zz", "7", "hello", " ", "&", "$", "|", "<", ">", "> ", "&amp;", "&#36;", "&#124;", "&lt", ";", "#", "\\", "/", "?", "~", "`", ":", "\r\n", "\n", "$$", "\x01", "\x7f", "\"", "%", ",", "(", ")", "@", "-1", "TTH:", "amp;", "\t", "\v", "=", "+", "*", "^", "{", "}", "[", "]", "!", "'", "_", ".", "\x1b", "\x1a", "Hub:", "From: ", "&#x41;", "&nbsp;", "&quot;", "&#0;"}

func (g *ngen) chunks(n int, list []string, no string) string {
	t := g.t
	var sb strings.Builder
	for i := 0; i < n; i++ {
		var c string
		if len(g.cs.extra) > 0 && t.Chance(250) {
			c = g.cs.extra[t.Intn(len(g.cs.extra))]
		} else {
			c = list[t.Intn(len(list))]
		}
		if no != "" && strings.ContainsAny(c, no) {
			c = "x"
		}
		sb.WriteString(c)
	}
	return sb.String()
}

// str is any text without the bytes in no.
func (g *ngen) str(no string) string {
	t := g.t
	switch t.Weighted(3, 8, 3) {
	case 0:
		return ""
	case 1:
		return g.chunks(1+t.Intn(4), strChunks, no)
	}
	if g.big && t.Chance(100) {
		return strings.Repeat(g.chunks(1+t.Intn(6), strChunks, no), 1+t.Intn(900))
	}
	return g.chunks(1+t.Intn(24), strChunks, no)
}

func (g *ngen) str1(no string) string {
	s := g.str(no)
	if s == "" {
		return "x"
	}
	return s
}

var nameChunks = []string{"a", "bob", "[RU]", "&", "<", ">", "|", "-", "_", "'", "7", "x;", "&amp;", "#", "?", ":", "/", "\\", "(x)", ")", "`", "~", "%", "@", "=", ",", "!", "+", "{", "}", "^", "*", ".", "\"", "\x01", "\x7f", "&#36;", "&#x41;", "&nbsp;", "Hub:", "V:"}

func escLen(b string) int {
	n := 0
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '|':
			n += 6
		case '&', '$':
			n += 5
		case '<', '>':
			n += 4
		default:
			n++
		}
	}
	return n
}

// nameLen is the length of a name on the wire, in UTF-8 or the charset.
func (g *ngen) nameLen(s string) int {
	n := escLen(s)
	if g.cs.enc != nil {
		b, err := g.cs.enc.NewEncoder().String(s)
		if err != nil {
			panic(err)
		}
		n = max(n, escLen(b))
	}
	return n
}

// name is a user name without spaces, not empty.
func (g *ngen) name() string {
	t := g.t
	s := g.chunks(1+t.Intn(4), nameChunks, " ")
	if t.Chance(30) { // as long as it may get
		if n := g.nameLen(s); n < 256 {
			s += strings.Repeat("n", 256-n)
		}
	}
	return s
}

// nameSp may contain spaces inside.
func (g *ngen) nameSp() string {
	s := g.name()
	if g.t.Chance(200) && g.nameLen(s) < 200 {
		s += " " + g.name()
	}
	if g.nameLen(s) > 256 {
		return "long"
	}
	return s
}

var tokChunks = []string{"a", "Zz", "7", "x.y", ":", "-", "+", "_", "192.168.1.2", "[::1]", "0", "foo"}

// many is a number below n, or rarely a large one.
func (g *ngen) many(n int) int { return many(g.t, g.big, n) }

func many(t *Tape, big bool, n int) int {
	if big && t.Chance(100) {
		return t.Intn(300)
	}
	return t.Intn(n)
}

// tok is a raw ASCII token.
func (g *ngen) tok() string {
	s := ""
	for i, n := 0, 1+g.t.Intn(3); i < n; i++ {
		s += tokChunks[g.t.Intn(len(tokChunks))]
	}
	return s
}

func (g *ngen) addr() string {
	t := g.t
	switch t.Intn(3) {
	case 0:
		return fmt.Sprintf("10.%d.0.1:%d", t.Intn(256), t.Intn(65536))
	case 1:
		return fmt.Sprintf("[fe80::%x]:%d", t.Intn(65536), t.Intn(65536))
	}
	return fmt.Sprintf("hub%d.example.org:%d", t.Intn(9), 1+t.Intn(65535))
}

func (g *ngen) u64() uint64 {
	t := g.t
	switch t.Weighted(3, 2, 2, 1) {
	case 0:
		return uint64(t.Intn(10))
	case 1:
		return uint64(t.Intn(1 << 30))
	case 2:
		return uint64(t.Intn(1<<30))<<34 | uint64(t.Intn(1<<30))
	}
	return []uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1<<32 - 1, 1 << 32, 999999999, 1000000000, 18446744073709551609, 1<<64 - 2}[t.Intn(9)]
}

// cnt is a count: mostly small, sometimes as large as an int gets.
func (g *ngen) cnt() int {
	t := g.t
	switch t.Weighted(5, 2, 1) {
	case 0:
		return t.Intn(12)
	case 1:
		return t.Intn(1 << 20)
	}
	return []int{999999999, 1000000000, 2147483647, 1<<63 - 1, 123456789012}[t.Intn(5)]
}

func (g *ngen) tth() tiger.Hash {
	var h tiger.Hash
	switch g.t.Intn(4) {
	case 0: // zero
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	default:
		copy(h[:], g.t.Blob(len(h), ""))
	}
	return h
}

// raw is arbitrary bytes a raw field can carry.
func (g *ngen) raw() []byte {
	b := g.t.Blob(g.t.Size(40), "")
	for i, c := range b {
		if c == '|' || c == 0 {
			b[i] = ' '
		}
	}
	return b
}

func (g *ngen) names() []string {
	var a []string
	for i, n := 0, g.many(5); i < n; i++ {
		a = append(a, g.nameSp())
	}
	return a
}

// hubName is the name of a hub in a result, which may not look like a hash.
func hubName(g *ngen) string {
	s := g.str("\x05")
	if g.t.Chance(200) {
		s += []string{" (", "(", ")", " (x)", ") ", " (1.2.3.4:411)"}[g.t.Intn(6)] + g.str("\x05")
	}
	if strings.HasPrefix(s, "TTH:") {
		s = "tth" + s[4:]
	}
	return s
}

func (g *ngen) optErr() error {
	if s := g.str(""); s != "" {
		return errors.New(s)
	}
	return nil
}

// of draws a message of one registered type; nil if the type is not known here.
func (g *ngen) of(typ string) nmdc.Message {
	t := g.t
	switch typ {
	case "": // chat
		m := &nmdc.ChatMessage{}
		if t.Chance(700) {
			m.Name = g.nameSp()
			m.Text = g.str("")
			return m
		}
		m.Text = g.str1("")
		if m.Text[0] == '<' {
			m.Text = "x" + m.Text
		}
		return m
	case "To:":
		return &nmdc.PrivateMessage{To: g.name(), From: g.name(), Name: g.nameSp(), Text: g.str("")}
	case "MCTo":
		return &nmdc.MCTo{To: g.name(), From: g.name(), Text: g.str("")}
	case "UserCommand":
		m := &nmdc.UserCommand{Typ: nmdc.UCmdType(drawSymbol(t, ucmdTypes)), Context: nmdc.UCmdContext(drawSymbol(t, ucmdCtx))}
		if t.Chance(250) {
			m.Typ, m.Context = nmdc.UCmdType(3+t.Intn(1000)), nmdc.UCmdContext(16+t.Intn(16))
			if m.Typ == 255 {
				m.Typ = 256
			}
		}
		if t.Chance(700) {
			for i, n := 0, 1+g.many(3); i < n; i++ {
				m.Path = append(m.Path, g.str1("\\"))
			}
			if last := &m.Path[len(m.Path)-1]; strings.HasSuffix(*last, " ") { // not told from the separator
				*last += "p"
			}
			m.Command = g.str("")
		}
		return m
	case "ConnectToMe":
		m := &nmdc.ConnectToMe{Targ: g.name(), Address: g.addr(), Kind: nmdc.CTMKind(t.Intn(3)), Secure: t.Bool()}
		if m.Kind == nmdc.CTMPassiveReq {
			m.Src = g.name()
		}
		return m
	case "RevConnectToMe":
		return &nmdc.RevConnectToMe{From: g.name(), To: g.name()}
	case "ADCGET":
		m := &nmdc.ADCGet{ContentType: nmdc.String(g.str1(" ")), Identifier: nmdc.String(g.str1(" ")), Start: g.u64(), Length: int64(g.u64() >> 1), Compressed: t.Bool()}
		if t.Chance(300) {
			m.Length = -1
		}
		if t.Chance(400) {
			v := g.u64()
			m.DownloadedBytes = &v
		}
		return m
	case "ADCSND":
		return &nmdc.ADCSnd{ContentType: nmdc.String(g.str1(" ")), Identifier: nmdc.String(g.str1(" ")), Start: g.u64(), Length: g.u64(), Compressed: t.Bool()}
	case "Direction":
		return &nmdc.Direction{Upload: t.Bool(), Number: uint([]int{1, 32767, 1 + t.Intn(32767)}[t.Intn(3)])}
	case "Hello":
		return &nmdc.Hello{Name: nmdc.Name(g.nameSp())}
	case "HubName":
		return &nmdc.HubName{String: nmdc.String(g.str(""))}
	case "Version":
		return &nmdc.Version{Vers: g.tok()}
	case "HubTopic":
		return &nmdc.HubTopic{Text: g.str("")}
	case "FailOver":
		m := &nmdc.FailOver{}
		for i, n := 0, g.many(4); i < n; i++ {
			m.Host = append(m.Host, g.addr())
		}
		return m
	case "Lock":
		m := &nmdc.Lock{NoExt: t.Bool(), Lock: g.tok()}
		if t.Bool() {
			m.PK = g.tok()
			if t.Chance(100) {
				m.PK = "Pk=" + m.PK
			}
		}
		if t.Chance(300) {
			m.Ref = g.tok()
			if t.Chance(200) {
				m.Ref += []string{"Ref=", "Pk=", "?Ref=x", " Ref=", "EXTENDEDPROTOCOL"}[t.Intn(5)]
			}
		}
		return m
	case "Key":
		return &nmdc.Key{Key: string(g.raw())}
	case "BotINFO":
		return &nmdc.BotINFO{String: nmdc.String(g.str(""))}
	case "SetIcon":
		return &nmdc.SetIcon{String: nmdc.String(g.str(""))}
	case "SetLogo":
		return &nmdc.SetLogo{String: nmdc.String(g.str(""))}
	case "SetTopic":
		return &nmdc.SetTopic{String: nmdc.String(g.str(""))}
	case "MyPass":
		return &nmdc.MyPass{String: nmdc.String(g.str(""))}
	case "HubINFO":
		m := &nmdc.HubINFO{Name: g.str(""), Host: g.addr(), Desc: g.str(""), I1: g.cnt(), I2: g.cnt(), I3: -g.cnt(), I4: g.cnt(), Owner: g.str(""), State: g.str(""), Encoding: g.tok()}
		m.Soft.Name = g.tok()
		if t.Bool() {
			m.Soft.Name = []string{m.Soft.Name, m.Soft.Name + " x", " x", ""}[t.Intn(4)]
			m.Soft.Version = g.tok()
		}
		return m
	case "Search":
		m := &nmdc.Search{SizeRestricted: t.Bool(), Size: g.u64(), DataType: nmdc.DataType(drawSymbol(t, dataTypes))}
		if t.Bool() {
			m.Address = g.addr()
		} else {
			m.User = g.name()
		}
		m.IsMaxSize = !m.SizeRestricted || t.Bool()
		if m.DataType == nmdc.DataTypeTTH {
			h := g.tth()
			m.TTH = &h
		} else {
			m.Pattern = g.str("")
		}
		return m
	case "SR":
		m := &nmdc.SR{From: g.name(), IsDir: t.Bool(), FreeSlots: g.cnt(), TotalSlots: g.cnt(), HubAddress: g.addr()}
		for i, n := 0, 1+g.many(3); i < n; i++ {
			m.Path = append(m.Path, g.str("\\/\x05"))
		}
		if t.Chance(300) {
			m.Path[t.Intn(len(m.Path))] += []string{"/", " ", " 1/2", "/3"}[t.Intn(4)] + g.str("\\\x05")
			if !m.IsDir { // a '/' followed by digits and the end would look like slots
				m.Path[len(m.Path)-1] += "p"
			}
		}
		if !m.IsDir {
			m.Size = g.u64()
		}
		if t.Bool() {
			h := g.tth()
			m.TTH = &h
		} else {
			m.HubName = hubName(g)
		}
		if t.Bool() {
			m.To = g.nameSp()
		}
		return m
	case "SA":
		return &nmdc.TTHSearchActive{TTH: g.tth(), Address: g.addr()}
	case "SP":
		return &nmdc.TTHSearchPassive{TTH: g.tth(), User: g.nameSp()}
	case "Supports":
		m := &nmdc.Supports{}
		for i, n := 0, g.many(6); i < n; i++ {
			m.Ext = append(m.Ext, g.tok())
		}
		return m
	case "ValidateNick":
		return &nmdc.ValidateNick{Name: nmdc.Name(g.nameSp())}
	case "ValidateDenide":
		return &nmdc.ValidateDenide{Name: nmdc.Name(g.nameSp())}
	case "MyNick":
		return &nmdc.MyNick{Name: nmdc.Name(g.nameSp())}
	case "Quit":
		return &nmdc.Quit{Name: nmdc.Name(g.nameSp())}
	case "LogedIn":
		return &nmdc.LogedIn{Name: nmdc.Name(g.nameSp())}
	case "Kick":
		return &nmdc.Kick{Name: nmdc.Name(g.nameSp())}
	case "Close":
		return &nmdc.Close{Name: nmdc.Name(g.nameSp())}
	case "MyINFO":
		m := &nmdc.MyINFO{Name: g.name(), Desc: g.str(""), Mode: nmdc.UserMode(drawSymbol(t, userModes)),
			HubsNormal: g.cnt(), HubsRegistered: g.cnt(), HubsOperator: g.cnt(), Slots: g.cnt(),
			Conn: g.str(""), Flag: nmdc.UserFlag(drawSymbol(t, userFlags)), Email: g.str(""), ShareSize: g.u64()}
		if t.Chance(250) {
			m.Mode = 0
		}
		if f := 1 + t.Intn(255); f != '$' && f != '|' && t.Bool() {
			m.Flag = nmdc.UserFlag(f)
		}
		m.Client = types.Software{Name: g.tok(), Version: g.tok()}
		if t.Chance(300) {
			m.Client.Name += " v2 x"
		}
		for i, n := 0, t.Intn(4); i < n; i++ {
			k := []string{"L", "B", "O", "XX", "key", "7"}[t.Intn(6)]
			if m.Extra == nil {
				m.Extra = map[string]string{}
			}
			m.Extra[k] = g.tok()
		}
		return m
	case "OpList":
		return &nmdc.OpList{Names: g.names()}
	case "BotList":
		return &nmdc.BotList{Names: g.names()}
	case "UserIP":
		m := &nmdc.UserIP{}
		for i, n := 0, g.many(4); i < n; i++ {
			a := nmdc.UserAddress{Name: g.nameSp()}
			if t.Chance(800) {
				a.IP = g.addr()
			}
			m.List = append(m.List, a)
		}
		return m
	case "Failed":
		return &nmdc.Failed{Err: g.optErr()}
	case "Error":
		return &nmdc.Error{Err: g.optErr()}
	case "ForceMove":
		return &nmdc.ForceMove{Address: g.addr()}
	case "MaxedOut", "HubIsFull", "GetNickList", "GetTopic", "BadPass", "GetPass":
		return nmdc.NewMessage(typ)
	case "ZOn": // a signal, sent by ZOn
		return nil
	}
	return nil
}

func (g *ngen) unknown() nmdc.Message {
	t := g.t
	typ := []string{"X", "Foo", "to:", "MyINFO2", "zon", "A-b_c.d:e/f", strings.Repeat("K", 32), "ExtJSON", "0"}[t.Intn(9)]
	return &nmdc.RawMessage{Typ: typ, Data: g.raw()}
}

// msg draws any message.
func (g *ngen) msg() nmdc.Message {
	t := g.t
	t.Begin()
	defer t.End()
	if len(g.few) > 0 {
		if m := g.of(g.few[t.Intn(len(g.few))]); m != nil {
			return m
		}
	}
	switch t.Weighted(2, 1, 8) {
	case 0:
		return g.of("")
	case 1:
		return g.unknown()
	}
	if m := g.of(ntypes[t.Intn(len(ntypes))]); m != nil {
		return m
	}
	return g.of("HubTopic")
}

// canon is a canonical text form of a value: pointers are followed, nil and
// empty lists are the same, errors are their text.
func canon(v any) string {
	var sb strings.Builder
	canonTo(&sb, reflect.ValueOf(v))
	return sb.String()
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func canonTo(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type().Implements(errType) && v.Kind() != reflect.Struct {
		if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
		}
		if v.CanInterface() {
			fmt.Fprintf(sb, "err(%q)", v.Interface().(error).Error())
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		canonTo(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString(v.Type().String())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			canonTo(sb, v.Field(i))
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", v.Interface())
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			canonTo(sb, v.Index(i))
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		type kv struct{ k, v string }
		var l []kv
		for _, k := range v.MapKeys() {
			l = append(l, kv{canon(k.Interface()), canon(v.MapIndex(k).Interface())})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		fmt.Fprintf(sb, "map%v", l)
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func short(s string) string {
	if len(s) > 240 {
		return s[:240] + "..."
	}
	return s
}

// diffMsg compares two messages; empty when they are equal.
func diffMsg(got, want any) string {
	a, b := canon(got), canon(want)
	if a == b {
		return ""
	}
	i := firstDiff([]byte(a), []byte(b))
	lo := max(0, i-30)
	cut := func(s string) string {
		e := min(len(s), i+60)
		if lo > e {
			return ""
		}
		return s[lo:e]
	}
	return fmt.Sprintf("%T differs near ...%s..., want ...%s...", got, cut(a), cut(b))
}
