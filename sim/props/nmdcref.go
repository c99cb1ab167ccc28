package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	. "verifsim/kernel"
)

// ntypes are the commands of the protocol the library knows.
var ntypes = []string{
	"", "ADCGET", "ADCSND", "BadPass", "BotINFO", "BotList", "Close", "ConnectToMe", "Direction", "Error", "FailOver", "Failed",
	"ForceMove", "GetNickList", "GetPass", "GetTopic", "Hello", "HubINFO", "HubIsFull", "HubName", "HubTopic", "Key", "Kick",
	"Lock", "LogedIn", "MCTo", "MaxedOut", "MyINFO", "MyNick", "MyPass", "OpList", "Quit", "RevConnectToMe", "SA", "SP", "SR",
	"Search", "SetIcon", "SetLogo", "SetTopic", "Supports", "To:", "UserCommand", "UserIP", "ValidateDenide", "ValidateNick",
	"Version", "ZOn",
}

// symbol is a named constant of the library and the value the protocol gives it.
type symbol struct{ lib, wire int }

var (
	ucmdTypes = []symbol{{int(nmdc.TypeSeparator), 0}, {int(nmdc.TypeRaw), 1}, {int(nmdc.TypeRawNickLimited), 2}, {int(nmdc.TypeErase), 255}}
	ucmdCtx   = []symbol{{int(nmdc.ContextHub), 1}, {int(nmdc.ContextUser), 2}, {int(nmdc.ContextSearch), 4}, {int(nmdc.ContextFileList), 8},
		{int(nmdc.ContextHub | nmdc.ContextUser), 3}, {int(nmdc.ContextSearch | nmdc.ContextFileList | nmdc.ContextUser), 14}}
	dataTypes = []symbol{{int(nmdc.DataTypeAny), 1}, {int(nmdc.DataTypeAudio), 2}, {int(nmdc.DataTypeCompressed), 3}, {int(nmdc.DataTypeDocument), 4},
		{int(nmdc.DataTypeExecutable), 5}, {int(nmdc.DataTypePicture), 6}, {int(nmdc.DataTypeVideo), 7}, {int(nmdc.DataTypeFolders), 8},
		{int(nmdc.DataTypeTTH), 9}, {int(nmdc.DataTypeDiskImage), 10}, {int(nmdc.DataTypeComics), 11}, {int(nmdc.DataTypeBook), 12}, {int(nmdc.DataTypeMagnet), 13}}
	userFlags = []symbol{{int(nmdc.FlagStatusNormal), 1}, {int(nmdc.FlagStatusAway), 2}, {int(nmdc.FlagStatusServer), 4}, {int(nmdc.FlagStatusFireball), 8},
		{int(nmdc.FlagTLSDownload), 0x10}, {int(nmdc.FlagTLSUpload), 0x20}, {int(nmdc.FlagTLS), 0x30}, {int(nmdc.FlagIPv4), 0x40}, {int(nmdc.FlagIPv6), 0x80},
		{int(nmdc.FlagStatusNormal | nmdc.FlagTLS), 0x31}, {int(nmdc.FlagStatusAway | nmdc.FlagIPv4 | nmdc.FlagIPv6), 0xC2}}
	userModes = []symbol{{int(nmdc.UserModeActive), 'A'}, {int(nmdc.UserModePassive), 'P'}, {int(nmdc.UserModeSOCKS5), '5'}}
)

func drawSymbol(t *Tape, tab []symbol) int { return tab[t.Intn(len(tab))].lib }

// wireOf is the value the protocol gives to a constant of the library; other
// values stand for themselves. It is -1 when the library mixes constants up.
func wireOf(tab []symbol, v int) int {
	out, named := v, false
	for _, s := range tab {
		if s.lib == v {
			if named && out != s.wire {
				return -1
			}
			out, named = s.wire, true
		}
	}
	return out
}

// nenc is an encoder of the protocol that shares no code with the library.
type nenc struct {
	cs  *charset
	b   bytes.Buffer
	err error
	old *Tape  // some characters are escaped as older clients do
	lax string // a name or text written as it is, although the protocol forbids it
}

func (e *nenc) text(s string) string {
	if e.cs.enc == nil {
		return s
	}
	b, err := e.cs.enc.NewEncoder().String(s)
	if err != nil && e.err == nil {
		e.err = err
	}
	return b
}

func (e *nenc) str(s string) {
	if e.lax != "" && s == e.lax {
		e.b.WriteString(s)
		return
	}
	for _, c := range []byte(e.text(s)) {
		if e.old != nil && legacy[c] != "" && e.old.Chance(300) {
			e.b.WriteString(legacy[c])
			continue
		}
		switch c {
		case 0:
			e.err = fmt.Errorf("zero byte")
		case '&':
			e.b.WriteString("&amp;")
		case '$':
			e.b.WriteString("&#36;")
		case '|':
			e.b.WriteString("&#124;")
		default:
			e.b.WriteByte(c)
		}
	}
}

func (e *nenc) name(s string) {
	if e.lax != "" && s == e.lax {
		e.b.WriteString(s)
		return
	}
	b := e.text(s)
	for _, c := range []byte(b) {
		if e.old != nil && len(b) <= 25 && c != '$' && legacy[c] != "" && e.old.Chance(300) {
			e.b.WriteString(legacy[c])
			continue
		}
		switch c {
		case 0, '$', '\r', '\n', '\t':
			e.err = fmt.Errorf("bad character in a name")
		case '&':
			e.b.WriteString("&amp;")
		case '|':
			e.b.WriteString("&#124;")
		case '<':
			e.b.WriteString("&lt;")
		case '>':
			e.b.WriteString("&gt;")
		default:
			e.b.WriteByte(c)
		}
	}
}

func (e *nenc) raw(s string) { e.b.WriteString(s) }
func (e *nenc) num(v any)    { fmt.Fprintf(&e.b, "%d", v) }

// refBase32 is the unpadded base 32 form of b.
func refBase32(b []byte) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	n := (len(b)*8 + 4) / 5
	v := new(big.Int).SetBytes(b)
	v.Lsh(v, uint(n*5-len(b)*8))
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = abc[new(big.Int).And(v, big.NewInt(31)).Int64()]
		v.Rsh(v, 5)
	}
	return string(out)
}

func (e *nenc) tth(h *tiger.Hash) { e.raw(refBase32(h[:])) }

func (e *nenc) list(a []string, sep string, f func(string)) {
	for i, s := range a {
		if i > 0 {
			e.raw(sep)
		}
		f(s)
	}
}

func (e *nenc) names(a []string) {
	if len(a) == 0 {
		e.raw("$$")
	}
	for _, s := range a {
		e.name(s)
		e.raw("$$")
	}
}

// body writes the arguments of m and returns its command.
func (e *nenc) body(m nmdc.Message, extra []string) string {
	flag := func(b bool, s string) {
		if b {
			e.raw(s)
		}
	}
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		if m.Name != "" {
			e.raw("<")
			e.name(m.Name)
			e.raw("> ")
		}
		e.str(m.Text)
		return ""
	case *nmdc.RawMessage:
		e.b.Write(m.Data)
		return m.Typ
	case *nmdc.PrivateMessage:
		e.name(m.To)
		e.raw(" From: ")
		e.name(m.From)
		e.raw(" $<")
		e.name(m.Name)
		e.raw("> ")
		e.str(m.Text)
		return "To:"
	case *nmdc.MCTo:
		e.name(m.To)
		e.raw(" $")
		e.name(m.From)
		e.raw(" ")
		e.str(m.Text)
		return "MCTo"
	case *nmdc.UserCommand:
		e.num(wireOf(ucmdTypes, int(m.Typ)))
		e.raw(" ")
		e.num(wireOf(ucmdCtx, int(m.Context)))
		if len(m.Path) > 0 {
			e.raw(" ")
			e.list(m.Path, "\\", e.str)
		}
		if m.Command != "" || len(m.Path) > 0 {
			e.raw(" $")
			e.str(m.Command)
		}
		return "UserCommand"
	case *nmdc.ConnectToMe:
		e.name(m.Targ)
		e.raw(" " + m.Address)
		switch m.Kind {
		case nmdc.CTMPassiveReq:
			e.raw("N")
		case nmdc.CTMPassiveResp:
			e.raw("R")
		}
		flag(m.Secure, "S")
		if m.Kind == nmdc.CTMPassiveReq {
			e.raw(" ")
			e.name(m.Src)
		}
		return "ConnectToMe"
	case *nmdc.RevConnectToMe:
		e.name(m.From)
		e.raw(" ")
		e.name(m.To)
		return "RevConnectToMe"
	case *nmdc.ADCGet:
		e.str(string(m.ContentType))
		e.raw(" ")
		e.str(string(m.Identifier))
		e.raw(" ")
		e.num(m.Start)
		e.raw(" ")
		e.num(m.Length)
		flag(m.Compressed, " ZL1")
		if m.DownloadedBytes != nil {
			e.raw(" DB")
			e.num(*m.DownloadedBytes)
		}
		return "ADCGET"
	case *nmdc.ADCSnd:
		e.str(string(m.ContentType))
		e.raw(" ")
		e.str(string(m.Identifier))
		e.raw(" ")
		e.num(m.Start)
		e.raw(" ")
		e.num(m.Length)
		flag(m.Compressed, " ZL1")
		return "ADCSND"
	case *nmdc.Direction:
		if m.Upload {
			e.raw("Upload ")
		} else {
			e.raw("Download ")
		}
		e.num(m.Number)
		return "Direction"
	case *nmdc.Version:
		e.raw(m.Vers)
		return "Version"
	case *nmdc.HubTopic:
		e.str(m.Text)
		return "HubTopic"
	case *nmdc.FailOver:
		e.list(m.Host, ",", e.raw)
		return "FailOver"
	case *nmdc.Lock:
		flag(!m.NoExt, "EXTENDEDPROTOCOL")
		e.raw(m.Lock)
		flag(m.PK != "" || m.Ref != "", " ")
		flag(m.PK != "", "Pk="+m.PK)
		flag(m.Ref != "", "Ref="+m.Ref)
		return "Lock"
	case *nmdc.Key:
		e.raw(m.Key)
		return "Key"
	case *nmdc.HubINFO:
		e.str(m.Name)
		e.raw("$" + m.Host + "$")
		e.str(m.Desc)
		for _, v := range []int{m.I1, m.I2, m.I3, m.I4} {
			e.raw("$")
			e.num(v)
		}
		e.raw("$" + m.Soft.Name)
		flag(m.Soft.Version != "", " "+m.Soft.Version)
		e.raw("$")
		e.str(m.Owner)
		e.raw("$")
		e.str(m.State)
		e.raw("$" + m.Encoding)
		return "HubINFO"
	case *nmdc.Search:
		if m.Address != "" {
			e.raw(m.Address)
		} else {
			e.raw("Hub:")
			e.name(m.User)
		}
		switch {
		case !m.SizeRestricted:
			e.raw(" F?T?")
		case m.IsMaxSize:
			e.raw(" T?T?")
		default:
			e.raw(" T?F?")
		}
		e.num(m.Size)
		e.raw("?")
		typ := wireOf(dataTypes, int(m.DataType))
		e.num(typ)
		e.raw("?")
		if typ == 9 {
			e.raw("TTH:")
			e.tth(m.TTH)
		} else {
			e.list(strings.Split(m.Pattern, " "), "$", e.str)
		}
		return "Search"
	case *nmdc.SR:
		e.name(m.From)
		e.raw(" ")
		e.list(m.Path, "\\", e.str)
		if !m.IsDir {
			e.raw("\x05")
			e.num(m.Size)
		}
		e.raw(" ")
		e.num(m.FreeSlots)
		e.raw("/")
		e.num(m.TotalSlots)
		e.raw("\x05")
		if m.TTH != nil {
			e.raw("TTH:")
			e.tth(m.TTH)
		} else {
			e.str(m.HubName)
		}
		e.raw(" (" + m.HubAddress + ")")
		if m.To != "" {
			e.raw("\x05")
			e.name(m.To)
		}
		return "SR"
	case *nmdc.TTHSearchActive:
		e.tth(&m.TTH)
		e.raw(" " + m.Address)
		return "SA"
	case *nmdc.TTHSearchPassive:
		e.tth(&m.TTH)
		e.raw(" ")
		e.name(m.User)
		return "SP"
	case *nmdc.Supports:
		e.list(m.Ext, " ", e.raw)
		return "Supports"
	case *nmdc.MyINFO:
		e.raw("$ALL ")
		e.name(m.Name)
		e.raw(" ")
		e.str(m.Desc)
		e.raw("<" + m.Client.Name + " V:" + m.Client.Version + ",M:")
		if m.Mode == 0 {
			e.raw(" ")
		} else {
			e.b.WriteByte(byte(wireOf(userModes, int(m.Mode))))
		}
		e.raw(",H:" + strconv.Itoa(m.HubsNormal) + "/" + strconv.Itoa(m.HubsRegistered) + "/" + strconv.Itoa(m.HubsOperator))
		e.raw(",S:" + strconv.Itoa(m.Slots))
		for _, k := range extra {
			e.raw("," + k + ":" + m.Extra[k])
		}
		e.raw(">$ $")
		e.str(m.Conn)
		e.b.WriteByte(byte(wireOf(userFlags, int(m.Flag))))
		e.raw("$")
		e.str(m.Email)
		e.raw("$")
		e.num(m.ShareSize)
		e.raw("$")
		return "MyINFO"
	case *nmdc.OpList:
		e.names(m.Names)
		return "OpList"
	case *nmdc.BotList:
		e.names(m.Names)
		return "BotList"
	case *nmdc.UserIP:
		for _, a := range m.List {
			e.name(a.Name)
			e.raw(" " + a.IP + "$$")
		}
		return "UserIP"
	case *nmdc.Failed:
		if m.Err != nil {
			e.str(m.Err.Error())
		}
		return "Failed"
	case *nmdc.Error:
		if m.Err != nil {
			e.str(m.Err.Error())
		}
		return "Error"
	case *nmdc.ForceMove:
		e.raw(m.Address)
		return "ForceMove"
	case *nmdc.Hello:
		e.name(string(m.Name))
		return "Hello"
	case *nmdc.ValidateNick:
		e.name(string(m.Name))
		return "ValidateNick"
	case *nmdc.ValidateDenide:
		e.name(string(m.Name))
		return "ValidateDenide"
	case *nmdc.MyNick:
		e.name(string(m.Name))
		return "MyNick"
	case *nmdc.Quit:
		e.name(string(m.Name))
		return "Quit"
	case *nmdc.LogedIn:
		e.name(string(m.Name))
		return "LogedIn"
	case *nmdc.Kick:
		e.name(string(m.Name))
		return "Kick"
	case *nmdc.Close:
		e.name(string(m.Name))
		return "Close"
	case *nmdc.HubName:
		e.str(string(m.String))
		return "HubName"
	case *nmdc.BotINFO:
		e.str(string(m.String))
		return "BotINFO"
	case *nmdc.SetIcon:
		e.str(string(m.String))
		return "SetIcon"
	case *nmdc.SetLogo:
		e.str(string(m.String))
		return "SetLogo"
	case *nmdc.SetTopic:
		e.str(string(m.String))
		return "SetTopic"
	case *nmdc.MyPass:
		e.str(string(m.String))
		return "MyPass"
	case *nmdc.MaxedOut:
		return "MaxedOut"
	case *nmdc.HubIsFull:
		return "HubIsFull"
	case *nmdc.GetNickList:
		return "GetNickList"
	case *nmdc.GetTopic:
		return "GetTopic"
	case *nmdc.BadPass:
		return "BadPass"
	case *nmdc.GetPass:
		return "GetPass"
	case *nmdc.ZOn:
		return "ZOn"
	}
	panic(fmt.Sprintf("no reference form of %T", m))
}

// nref is every form m may have on the wire: the tags of MyINFO have no order.
func nref(cs *charset, m nmdc.Message) [][]byte {
	var keys []string
	if m, ok := m.(*nmdc.MyINFO); ok {
		for k := range m.Extra {
			keys = append(keys, k)
		}
		sort.Strings(keys)
	}
	var out [][]byte
	permute(keys, 0, func() {
		e := &nenc{cs: cs}
		cmd := e.body(m, keys)
		if e.err != nil {
			panic(fmt.Sprintf("the reference cannot encode %T: %v", m, e.err))
		}
		line := e.b.String()
		switch {
		case cmd == "":
		case line == "":
			line = "$" + cmd
		default:
			line = "$" + cmd + " " + line
		}
		out = append(out, []byte(line+"|"))
	})
	return out
}

func permute(a []string, i int, f func()) {
	if i >= len(a)-1 {
		f()
		return
	}
	for j := i; j < len(a); j++ {
		a[i], a[j] = a[j], a[i]
		permute(a, i+1, f)
		a[i], a[j] = a[j], a[i]
	}
}

// field is a user name or a text of a message.
type field struct {
	name bool
	set  func(string)
}

func fieldsOf(m nmdc.Message) []field {
	n := func(p *string) field { return field{true, func(s string) { *p = s }} }
	s := func(p *string) field { return field{false, func(s string) { *p = s }} }
	nn := func(p *nmdc.Name) []field { return []field{{true, func(s string) { *p = nmdc.Name(s) }}} }
	ss := func(p *nmdc.String) field { return field{false, func(s string) { *p = nmdc.String(s) }} }
	all := func(a []string, f func(*string) field) (out []field) {
		for i := range a {
			out = append(out, f(&a[i]))
		}
		return out
	}
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		if m.Name == "" {
			return []field{s(&m.Text)}
		}
		return []field{n(&m.Name), s(&m.Text)}
	case *nmdc.PrivateMessage:
		return []field{n(&m.To), n(&m.From), n(&m.Name), s(&m.Text)}
	case *nmdc.MCTo:
		return []field{n(&m.To), n(&m.From), s(&m.Text)}
	case *nmdc.UserCommand:
		if len(m.Path) > 0 {
			return append(all(m.Path, s), s(&m.Command))
		}
	case *nmdc.ConnectToMe:
		if m.Kind == nmdc.CTMPassiveReq {
			return []field{n(&m.Targ), n(&m.Src)}
		}
		return []field{n(&m.Targ)}
	case *nmdc.RevConnectToMe:
		return []field{n(&m.From), n(&m.To)}
	case *nmdc.ADCGet:
		return []field{ss(&m.ContentType), ss(&m.Identifier)}
	case *nmdc.ADCSnd:
		return []field{ss(&m.ContentType), ss(&m.Identifier)}
	case *nmdc.HubTopic:
		return []field{s(&m.Text)}
	case *nmdc.HubINFO:
		return []field{s(&m.Name), s(&m.Desc), s(&m.Owner), s(&m.State)}
	case *nmdc.Search:
		var out []field
		if m.Address == "" {
			out = append(out, n(&m.User))
		}
		if m.TTH == nil {
			out = append(out, s(&m.Pattern))
		}
		return out
	case *nmdc.SR:
		out := append(all(m.Path, s), n(&m.From))
		if m.TTH == nil {
			out = append(out, s(&m.HubName))
		}
		if m.To != "" {
			out = append(out, n(&m.To))
		}
		return out
	case *nmdc.TTHSearchPassive:
		return []field{n(&m.User)}
	case *nmdc.MyINFO:
		return []field{n(&m.Name), s(&m.Desc), s(&m.Conn), s(&m.Email)}
	case *nmdc.OpList:
		return all(m.Names, n)
	case *nmdc.BotList:
		return all(m.Names, n)
	case *nmdc.UserIP:
		var out []field
		for i := range m.List {
			out = append(out, n(&m.List[i].Name))
		}
		return out
	case *nmdc.Failed:
		return []field{{false, func(s string) { m.Err = errors.New(s) }}}
	case *nmdc.Error:
		return []field{{false, func(s string) { m.Err = errors.New(s) }}}
	case *nmdc.Hello:
		return nn(&m.Name)
	case *nmdc.ValidateNick:
		return nn(&m.Name)
	case *nmdc.ValidateDenide:
		return nn(&m.Name)
	case *nmdc.MyNick:
		return nn(&m.Name)
	case *nmdc.Quit:
		return nn(&m.Name)
	case *nmdc.LogedIn:
		return nn(&m.Name)
	case *nmdc.Kick:
		return nn(&m.Name)
	case *nmdc.Close:
		return nn(&m.Name)
	case *nmdc.HubName:
		return []field{ss(&m.String)}
	case *nmdc.BotINFO:
		return []field{ss(&m.String)}
	case *nmdc.SetIcon:
		return []field{ss(&m.String)}
	case *nmdc.SetLogo:
		return []field{ss(&m.String)}
	case *nmdc.SetTopic:
		return []field{ss(&m.String)}
	case *nmdc.MyPass:
		return []field{ss(&m.String)}
	}
	return nil
}

// badNumbers are lines of which one number is missing; any of nonNumbers
// there makes them malformed.
var badNumbers = []string{
	"$ADCGET file a # 5", "$ADCGET file a 5 #", "$ADCGET file a 5 5 DB#", "$ADCGET file a 5 5 ZL1 DB#", "$ADCSND file a # 5", "$ADCSND file a 5 #", "$ADCSND file a 5 # ZL1",
	"$Direction Upload #", "$Direction Download #", "$UserCommand # 1", "$UserCommand # 1 path $cmd", "$Search Hub:a T?F?5?#?x", "$Search 1.2.3.4:5 F?T?5?#?x",
	"$SR a p\x05# 1/2\x05h (a)", "$SR a p\x055 #/2\x05h (a)", "$SR a p\x055 1/#\x05h (a)",
	"$MyINFO $ALL a d<c V:1,M:A,H:#/2/3,S:1>$ $c\x01$e$1$", "$MyINFO $ALL a d<c V:1,M:A,H:1/#/3,S:1>$ $c\x01$e$1$", "$MyINFO $ALL a d<c V:1,M:A,H:1/2/#,S:1>$ $c\x01$e$1$",
	"$MyINFO $ALL a d<c V:1,M:A,H:1/2/3,S:#>$ $c\x01$e$1$", "$MyINFO $ALL a d<c V:1,M:A,H:#,S:1>$ $c\x01$e$1$",
	"$HubINFO n$h$d$#$1$1$1$s$o$s$e", "$HubINFO n$h$d$1$#$1$1$s$o$s$e", "$HubINFO n$h$d$1$1$#$1$s$o$s$e", "$HubINFO n$h$d$1$1$1$#$s$o$s$e",
	"$ADCGET file a 0 9223372036854775808", "$ADCGET file a 0 18446744073709551615", "$ADCGET file a -1 5", "$ADCGET file a 0 -2", "$ADCSND file a 0 -1", "$Direction Upload 32768", "$Direction Download 0", "$Direction Upload -1",
}

var nonNumbers = []string{"x", "1x", "x1", "18446744073709551616", "99999999999999999999999999", "18446744073709551620", "18446744073709551629", "18446744073709551699", "27670116110564327424", "36893488147419103232", "184467440737095516150", "0x1", "1.5", "-", "+", "1e3", "-x", "1-"}

// nonInts are numbers too large or too small for the integer fields.
var nonInts = []string{"9223372036854775808", "9999999999999999999", "10000000000000000000", "18446744073709551615", "-9223372036854775809", "-99999999999999999999"}

// intField tells whether the missing number of the line is a signed integer.
func intField(l string) bool {
	return !strings.HasPrefix(l, "$ADC") && !strings.HasPrefix(l, "$Search") && !strings.Contains(l, "\x05#")
}

// badField is a message of the type that is malformed in one of its fields;
// nil if there is none.
func (g *ngen) badField(typ string) []byte {
	t := g.t
	if t.Chance(250) {
		var pool []string
		for _, l := range badNumbers {
			if strings.HasPrefix(l, "$"+typ+" ") {
				pool = append(pool, l)
			}
		}
		if len(pool) > 0 {
			l, bad := pool[t.Intn(len(pool))], nonNumbers[t.Intn(len(nonNumbers))]
			if intField(l) && t.Chance(300) {
				bad = nonInts[t.Intn(len(nonInts))]
			}
			return []byte(strings.Replace(l, "#", bad, 1) + "|")
		}
	}
	m := g.of(typ)
	if m == nil {
		return nil
	}
	fs := fieldsOf(m)
	if len(fs) == 0 {
		return nil
	}
	f := fs[t.Intn(len(fs))]
	var bad string
	k := 1
	if g.cs.enc == nil {
		k = 2
	}
	switch i := t.Intn(k); {
	case i == 1:
		bad = []string{"\xff", "ok\xfe\xffok", "a\xc3", "\x80b", "\xed\xa0\x80"}[t.Intn(5)]
	case f.name:
		bad = []string{"a\rb", "a\nb", "a\tb", "\tb", "a\nb\n", "a\x00b", strings.Repeat("n", 257), strings.Repeat("long", 80)}[t.Intn(8)]
	default:
		bad = "a\x00b"
	}
	f.set(bad)
	e := &nenc{cs: g.cs, lax: bad}
	var keys []string
	if m, ok := m.(*nmdc.MyINFO); ok {
		m.Extra = nil
	}
	cmd := e.body(m, keys)
	if cmd != "" {
		cmd = "$" + cmd + " "
	}
	b := []byte(cmd + e.b.String())
	for i, c := range b {
		if c == '|' {
			b[i] = '!'
		}
	}
	return append(b, '|')
}

// badText makes a message of any type one that cannot be written in the
// encoding; nil if there is none.
func (g *ngen) badText() nmdc.Message {
	t := g.t
	m := g.of(ntypes[t.Intn(len(ntypes))])
	if m == nil {
		return nil
	}
	fs := fieldsOf(m)
	if len(fs) == 0 {
		return nil
	}
	f := fs[t.Intn(len(fs))]
	bad := "a\x00b"
	switch {
	case g.cs.enc != nil && t.Chance(400):
		bad = "not in the charset: 😀"
	case f.name:
		bad = []string{"a$b", "a\rb", "a\nb", "a\tb", "\x00", "$", strings.Repeat("n", 257)}[t.Intn(7)]
	}
	f.set(bad)
	return m
}

// matchWire compares an uncompressed wire with the forms its messages may
// have; a wire that was cut may end anywhere. It is empty when they agree.
func matchWire(wire []byte, want [][][]byte, cut bool) string {
	off := 0
	for i, forms := range want {
		rest := wire[off:]
		ok := false
		for _, f := range forms {
			if bytes.HasPrefix(rest, f) {
				off += len(f)
				ok = true
				break
			}
			if cut && bytes.HasPrefix(f, rest) {
				return ""
			}
		}
		if !ok {
			f := forms[0]
			k := firstDiff(rest, f)
			lo := max(0, k-20)
			return fmt.Sprintf("line %d is ...%s, the protocol says ...%s", i, short(q(rest[min(lo, len(rest)):min(len(rest), k+40)])), short(q(f[lo:min(len(f), k+40)])))
		}
	}
	if off < len(wire) {
		return fmt.Sprintf("after all lines the wire has %s", short(q(wire[off:])))
	}
	return ""
}
