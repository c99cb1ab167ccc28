package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// legacy are the escapes of older clients.
var legacy = map[byte]string{5: "/%DCN005%/", '$': "/%DCN036%/", '`': "/%DCN096%/", '|': "/%DCN124%/", '~': "/%DCN126%/"}

// dialect is a form of m that clients in the wild send, and the message it
// stands for.
func (g *ngen) dialect(m nmdc.Message) ([]byte, nmdc.Message) {
	t := g.t
	e := &nenc{cs: g.cs}
	if _, sr := m.(*nmdc.SR); !sr { // the slots of a result end at any '/'
		e.old = t
	}
	pad := func(v any) {
		s := fmt.Sprint(v)
		e.raw(strings.Repeat(" ", t.Weighted(4, 1, 1)) + s + strings.Repeat(" ", t.Weighted(4, 1, 1)))
	}
	cmd := ""
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		if m.Name == "" || t.Bool() {
			cmd = e.body(m, nil)
			break
		}
		e.raw("<")
		e.name(m.Name)
		e.raw(">")
		text := &nenc{cs: g.cs}
		text.str(m.Text)
		s := text.b.String()
		switch {
		case s == "":
		case !strings.Contains(s, ">") && strings.Trim(s[:1], " \t\r\n\v\f\x80\x85\xa0") != "" && s[0] < 0x80 && t.Bool():
		default:
			e.raw([]string{" ", "\t"}[t.Intn(2)])
		}
		e.raw(s)
	case *nmdc.UserCommand:
		cmd = "UserCommand"
		e.raw(strings.Repeat(" ", t.Intn(2)))
		e.num(wireOf(ucmdTypes, int(m.Typ)))
		e.raw(" ")
		e.num(wireOf(ucmdCtx, int(m.Context)))
		if len(m.Path) == 0 {
			e.raw(strings.Repeat(" ", t.Intn(2)))
			break
		}
		sep := func() { e.raw(strings.Repeat("\\", t.Weighted(3, 1))) }
		e.raw(" ")
		for i, p := range m.Path {
			if i > 0 {
				e.raw("\\")
			}
			sep()
			e.str(p)
		}
		sep()
		e.raw(strings.Repeat(" ", t.Intn(3)) + "$")
		e.str(m.Command)
	case *nmdc.ADCGet:
		cmd = "ADCGET"
		e.str(string(m.ContentType))
		e.raw(" ")
		e.str(string(m.Identifier))
		fmt.Fprintf(&e.b, " %d %d", m.Start, m.Length)
		flags := []string{}
		if m.Compressed {
			flags = append(flags, "ZL1")
		}
		if m.DownloadedBytes != nil {
			flags = append(flags, fmt.Sprintf("DB%d", *m.DownloadedBytes))
		}
		for i, n := 0, t.Intn(3); i < n; i++ {
			flags = append(flags, []string{"ZL2", "XX", "zl1", "5", "D", ""}[t.Intn(6)])
		}
		g.shuffle(flags)
		for _, f := range flags {
			e.raw(" " + f)
		}
	case *nmdc.HubINFO:
		cmd = "HubINFO"
		n := 11
		if t.Bool() {
			n = 3 + t.Intn(9)
		}
		want := &nmdc.HubINFO{}
		for i := 0; i < n; i++ {
			if i > 0 {
				e.raw("$")
			}
			switch i {
			case 0:
				e.str(m.Name)
				want.Name = m.Name
			case 1:
				e.raw(m.Host)
				want.Host = m.Host
			case 2:
				e.str(m.Desc)
				want.Desc = m.Desc
			case 3:
				pad(m.I1)
				want.I1 = m.I1
			case 4:
				pad(m.I2)
				want.I2 = m.I2
			case 5:
				pad(m.I3)
				want.I3 = m.I3
			case 6:
				pad(m.I4)
				want.I4 = m.I4
			case 7:
				want.Soft = m.Soft
				if t.Chance(200) {
					want.Soft = types.Software{}
				}
				e.raw(want.Soft.Name)
				if want.Soft.Version != "" {
					e.raw(" " + want.Soft.Version)
				}
			case 8:
				e.str(m.Owner)
				want.Owner = m.Owner
			case 9:
				e.str(m.State)
				want.State = m.State
			case 10:
				e.raw(m.Encoding)
				want.Encoding = m.Encoding
			}
		}
		return g.line(cmd, e), want
	case *nmdc.Search:
		cmd = "Search"
		want := *m
		if m.Address != "" {
			e.raw(m.Address)
		} else {
			e.raw("Hub:")
			e.name(m.User)
		}
		flag := map[bool]string{true: "T", false: "F"}
		e.raw(" " + flag[m.SizeRestricted] + "?" + flag[m.IsMaxSize] + "?")
		switch t.Intn(4) {
		case 0:
			e.raw("-" + fmt.Sprint(1+t.Intn(9)))
			want.Size, want.SizeRestricted = 0, false
		case 1:
			want.Size = 0
		default:
			pad(m.Size)
		}
		e.raw("?")
		typ := wireOf(dataTypes, int(m.DataType))
		pad(typ)
		e.raw("?")
		if typ == 9 {
			e.raw("TTH:")
			e.tth(m.TTH)
			e.raw(strings.Repeat("$", t.Intn(2)))
			return g.line(cmd, e), &want
		}
		for i, s := range strings.Split(m.Pattern, " ") {
			if i > 0 {
				e.raw([]string{"$", " "}[t.Weighted(3, 1)])
			}
			e.str(s)
		}
		return g.line(cmd, e), &want
	case *nmdc.MyINFO:
		return g.oldInfo(m, e, pad)
	case *nmdc.OpList:
		cmd = "OpList"
		e.list(m.Names, "$$", e.name)
		e.raw(strings.Repeat("$$", t.Intn(2)))
	case *nmdc.BotList:
		cmd = "BotList"
		e.list(m.Names, "$$", e.name)
		e.raw(strings.Repeat("$$", t.Intn(2)))
	case *nmdc.UserIP:
		cmd = "UserIP"
		for i, a := range m.List {
			if i > 0 {
				e.raw("$$")
			}
			e.name(a.Name)
			if a.IP != "" || strings.Contains(a.Name, " ") || t.Bool() {
				e.raw(" " + a.IP)
			}
		}
		e.raw(strings.Repeat("$$", t.Intn(2)) + strings.Repeat("\r", t.Intn(2)))
	case *nmdc.Lock:
		cmd = "Lock"
		if !m.NoExt {
			e.raw("EXTENDEDPROTOCOL")
		}
		e.raw(m.Lock)
		if m.PK != "" || m.Ref != "" || t.Bool() {
			pk := []string{"Pk=", ""}[t.Intn(2)]
			if strings.HasPrefix(m.PK, "Pk=") {
				pk = "Pk="
			}
			e.raw(" " + pk + m.PK)
			if m.Ref != "" {
				e.raw("Ref=" + m.Ref)
			}
		}
	case *nmdc.Direction:
		cmd = "Direction"
		e.raw(map[bool]string{true: "Upload ", false: "Download "}[m.Upload])
		pad(m.Number)
	default:
		cmd = e.body(m, nil)
	}
	return g.line(cmd, e), m
}

func (g *ngen) line(cmd string, e *nenc) []byte {
	if e.err != nil {
		panic(fmt.Sprintf("the reference cannot encode a %s: %v", cmd, e.err))
	}
	s := e.b.String()
	switch {
	case cmd == "":
	case s == "":
		s = "$" + cmd
	default:
		s = "$" + cmd + " " + s
	}
	return []byte(s + "|")
}

func (g *ngen) shuffle(a []string) {
	for i := len(a) - 1; i > 0; i-- {
		j := g.t.Intn(i + 1)
		a[i], a[j] = a[j], a[i]
	}
}

// oldInfo writes a MyINFO with the many forms of its tag.
func (g *ngen) oldInfo(m *nmdc.MyINFO, e *nenc, pad func(any)) ([]byte, nmdc.Message) {
	t := g.t
	want := *m
	e.raw("$ALL ")
	e.name(m.Name)
	e.raw(" ")
	mode := []string{" ", "A", "P"}[t.Intn(3)]
	desc := len(e.b.Bytes())
	e.str(m.Desc)
	if !strings.Contains(e.b.String()[desc:], "<") && t.Chance(250) {
		want.Client, want.Extra = types.Software{}, nil
		want.HubsNormal, want.HubsRegistered, want.HubsOperator, want.Slots = 0, 0, 0, 0
		want.Mode = nmdc.UserModeUnknown
		switch mode {
		case "A":
			want.Mode = nmdc.UserModeActive
		case "P":
			want.Mode = nmdc.UserModePassive
		}
	} else {
		var fs []string
		if m.Mode != 0 {
			fs = append(fs, g.key("M")+":"+string(rune(wireOf(userModes, int(m.Mode)))))
		} else if t.Bool() {
			fs = append(fs, g.key("M")+":"+[]string{"", " "}[t.Intn(2)])
		}
		num := func(n int) string {
			return strings.Repeat(" ", t.Weighted(4, 1)) + strconv.Itoa(n) + strings.Repeat(" ", t.Weighted(4, 1))
		}
		h := g.key("H") + ":"
		switch t.Weighted(3, 1, 1, 1) {
		case 0:
			fs = append(fs, h+num(m.HubsNormal)+"/"+num(m.HubsRegistered)+"/"+num(m.HubsOperator))
		case 1:
			fs = append(fs, h+num(m.HubsNormal))
			want.HubsRegistered, want.HubsOperator = 0, 0
		case 2:
			fs = append(fs, h)
			want.HubsNormal, want.HubsRegistered, want.HubsOperator = 1, 0, 0
		case 3:
			want.HubsNormal, want.HubsRegistered, want.HubsOperator = 0, 0, 0
		}
		if t.Chance(800) {
			fs = append(fs, g.key("S")+":"+num(m.Slots))
		} else {
			want.Slots = 0
		}
		want.Extra = nil
		for _, k := range sortedKeys(m.Extra) {
			if want.Extra == nil {
				want.Extra = map[string]string{}
			}
			want.Extra[k] = m.Extra[k]
			v := m.Extra[k]
			if len(k) == 1 {
				k = g.key(k)
			}
			fs = append(fs, k+":"+v)
		}
		g.shuffle(fs)
		v := g.key("V") + ":" + m.Client.Version
		e.raw("<")
		switch {
		case !strings.Contains(m.Client.Name, ":") && t.Bool(): // a list from the name on
			fs = append(fs, "")
			copy(fs[1:], fs)
			fs[0] = m.Client.Name
			if t.Chance(800) {
				fs = append(fs, v)
				g.shuffle(fs[1:])
			} else {
				want.Client.Version = ""
			}
		default:
			e.raw(m.Client.Name + " ")
			fs = append([]string{v}, fs...)
		}
		for i, f := range fs {
			if i > 0 {
				e.raw("," + strings.Repeat(",", t.Weighted(8, 1)))
			}
			e.raw(f)
		}
		e.raw(strings.Repeat(",", t.Weighted(5, 1)))
		if t.Chance(800) {
			e.raw(">")
		}
	}
	e.raw("$" + mode + "$")
	if m.Conn == "" && t.Chance(300) {
		want.Flag = 0
	} else {
		e.str(m.Conn)
		e.b.WriteByte(byte(wireOf(userFlags, int(m.Flag))))
	}
	e.raw("$")
	e.str(m.Email)
	e.raw("$")
	if t.Chance(800) {
		pad(m.ShareSize)
	} else {
		want.ShareSize = 0
	}
	e.raw("$")
	return g.line("MyINFO", e), &want
}

func (g *ngen) key(k string) string {
	if g.t.Chance(250) {
		return strings.ToLower(k)
	}
	return k
}

func sortedKeys[V any](m map[string]V) []string {
	var a []string
	for k := range m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}
