package props

import (
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	. "verifsim/kernel"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 120000, Thorough: 3000000,
		Rule: "A sender and a receiver of one protocol carry up to 3 hooks in every stage (writer message and line hooks, reader line, raw message, message and keep-alive hooks); each hook call passes, drops or fails as drawn when the history (messages, batches, malformed messages, keep-alives, compression) is drawn, and a reference filter says which calls, wire lines and results must follow.",
		Real: []string{"lineproto.Reader", "lineproto.Writer", "nmdc.Reader", "nmdc.Writer", "adc.Reader", "adc.Writer", "compress/zlib"},
		Stub: []string{"transport (simulated pipe)", "clock"},
		Run:  runC12,
	})
}

const (
	stWMsg  = iota // writer message hooks
	stWLine        // writer line hooks
	stRLine        // reader line hooks
	stKeep         // reader keep-alive hook
	stRaw          // reader raw message hooks
	stRMsg         // reader message hooks
	nStages
)

var stName = [nStages]string{"writer message", "writer line", "reader line", "keep-alive", "raw message", "reader message"}

// hitem is one thing a sender emits.
type hitem struct {
	kind byte // m message, k keep-alive, b malformed, z compression signal
	msg  nmdc.Message
	pkt  adc.Packet
	line []byte
	text string // canonical message
}

// hcall is one hook call the reference filter predicts.
type hcall struct {
	hook, item int
	act        int // 0 pass, 1 drop, 2 fail
	err        error
}

// hres is one result the reader must give.
type hres struct {
	item int   // -1 when only the error is known
	err  error // exact error of a hook
	bad  bool  // some decoding error
}

type hookErr struct{ stage, hook, item int }

func (e *hookErr) Error() string { return fmt.Sprintf("hook %d/%d at %d", e.stage, e.hook, e.item) }

type hookPlan struct {
	w     *World
	items []hitem
	n     [nStages]int
	calls [nStages][]hcall
	at    [nStages]int
	rest  [nStages]int   // permille of a call not passing
	from  [nStages][]int // the call or result before which a hook is registered
	now   [nStages]int   // calls or results so far
}

// late registers the hooks whose time has come.
func (h *hookPlan) late(next *[nStages]int, n int, stages map[int]func(k int)) {
	for st := 0; st < nStages; st++ {
		add := stages[st]
		for add != nil && next[st] < h.n[st] && h.from[st][next[st]] <= n {
			add(next[st])
			next[st]++
			if n > 0 {
				h.w.Inc("probe.late_hook")
			}
		}
	}
}

// stage predicts what happens to an item in a stage: 0 pass, 1 drop, 2 fail.
func (h *hookPlan) stage(st, item int, force bool, fail bool) (int, error) {
	t := h.w.T
	for k := 0; k < h.n[st]; k++ {
		if h.from[st][k] > h.now[st] {
			break
		}
		c := hcall{hook: k, item: item}
		if !force && t.Chance(h.rest[st]) {
			c.act = 1
			if fail && (st == stKeep || t.Chance(400)) {
				c.act = 2
			}
			if st == stKeep && c.act == 1 {
				c.act = 0
			}
		}
		if c.act == 2 {
			c.err = &hookErr{st, k, item}
		}
		h.calls[st] = append(h.calls[st], c)
		if c.act != 0 {
			return c.act, c.err
		}
	}
	return 0, nil
}

// call checks one actual hook call against the prediction.
func (h *hookPlan) call(st, hook int, got string, want func(it hitem) string) (bool, error) {
	w := h.w
	w.Inc("op")
	w.Ev(stName[st], hook, h.at[st])
	if h.at[st] >= len(h.calls[st]) {
		w.Fail("extra-hook-call", "%s hook %d is called with %s after all predicted calls", stName[st], hook, short(got))
		return true, nil
	}
	c := h.calls[st][h.at[st]]
	h.at[st]++
	exp := want(h.items[c.item])
	if c.hook != hook || got != exp {
		w.Fail("wrong-hook-call", "call %d of the %s stage: hook %d with %s instead of hook %d with %s (item %d)", h.at[st]-1, stName[st], hook, short(got), c.hook, short(exp), c.item)
	}
	switch c.act {
	case 1:
		w.Inc("probe.hook_drop")
		return false, nil
	case 2:
		w.Inc("probe.hook_error")
		return w.T.Bool(), c.err
	}
	return true, nil
}

// hookLen is mostly short, sometimes longer than the internal buffers.
func hookLen(t *Tape) int {
	if t.Chance(60) {
		return drawLineLen(t)
	}
	return t.Intn(40)
}

func runC12(w *World) {
	t := w.T
	mode := t.Weighted(2, 5, 3) // lineproto, nmdc, adc
	delim := byte('|')
	if mode == 2 || mode == 0 && t.Bool() {
		delim = '\n'
	}
	h := &hookPlan{w: w}
	for st := range h.n {
		if st == stKeep {
			h.n[st] = t.Intn(2)
		} else {
			h.n[st] = []int{0, 1, 1, 2, 3}[t.Intn(5)]
		}
		h.rest[st] = []int{0, 100, 300, 600}[t.Intn(4)]
	}
	if mode == 0 {
		h.n[stKeep] = 0
	}
	if mode != 1 {
		h.n[stWMsg], h.n[stRaw], h.n[stRMsg] = 0, 0, 0
	}
	late := t.Chance(300)
	for st := range h.n {
		at := 0
		for k := 0; k < h.n[st]; k++ {
			if late && st != stKeep {
				at += t.Intn(4)
			}
			h.from[st] = append(h.from[st], at)
		}
	}
	g := &ngen{t: t, cs: charsets[0], big: t.Chance(100)}
	ag := &agen{t: t, big: t.Chance(100)}
	// the history: calls of the sender
	type wcall struct {
		kind  byte // m, k, b, z, d, f
		items []int
		level int
		err   error
	}
	var calls []wcall
	var results []hres
	kas := 0
	z := false
	emit := func(it hitem) int { h.items = append(h.items, it); return len(h.items) - 1 }
	// arrive predicts the reader's side for an item on the wire
	arrive := func(i int) {
		it := h.items[i]
		h.now[stRLine], h.now[stRaw], h.now[stRMsg] = len(results), len(results), len(results)
		force := it.kind == 'z'
		act, err := h.stage(stRLine, i, force, true)
		if act == 2 {
			results = append(results, hres{item: -1, err: err})
		}
		if act != 0 {
			return
		}
		if it.kind == 'k' && mode > 0 {
			kas++
			if act, err = h.stage(stKeep, i, force, true); act == 2 {
				results = append(results, hres{item: -1, err: err})
			}
			return
		}
		if act, err = h.stage(stRaw, i, force, true); act == 2 {
			results = append(results, hres{item: -1, err: err})
		}
		if act != 0 {
			return
		}
		if it.kind == 'b' {
			results = append(results, hres{item: i, bad: true})
			return
		}
		if act, err = h.stage(stRMsg, i, force, true); act == 2 {
			results = append(results, hres{item: -1, err: err})
		}
		if act == 0 {
			results = append(results, hres{item: i})
		}
	}
	for i, n := 0, 1+t.Intn(10); i < n; i++ {
		t.Begin()
		h.now[stWMsg], h.now[stWLine] = i, i
		c := wcall{}
		switch t.Weighted(10, 3, 2, 2, 1, 3) {
		case 0:
			c.kind = 'm'
			cnt := 1
			if mode == 1 {
				cnt = []int{1, 1, 2, 3, 4}[t.Intn(5)]
			}
			for j := 0; j < cnt; j++ {
				it := hitem{kind: 'm'}
				switch mode {
				case 0:
					it.line = append(lineData(t, delim, 1+hookLen(t)), delim)
				case 1:
					it.msg = g.msg()
					if m, ok := it.msg.(*nmdc.MyINFO); ok {
						for len(m.Extra) > 1 { // these have no order
							delete(m.Extra, slices.Max(slices.Collect(maps.Keys(m.Extra))))
						}
					}
					it.line = g.encode(it.msg)
					it.text = canon(it.msg)
				case 2:
					it.pkt, it.line, it.text = ag.packet()
				}
				if t.Chance(100) { // the same again
					for k := len(h.items) - 1; k >= 0; k-- {
						if h.items[k].kind == 'm' {
							it = h.items[k]
							break
						}
					}
				}
				c.items = append(c.items, emit(it))
			}
		case 1:
			c.kind = 'k'
			c.items = []int{emit(hitem{kind: 'k', line: []byte{delim}})}
		case 2:
			c.kind = 'b'
			it := hitem{kind: 'b'}
			switch mode {
			case 0:
				c.kind = 'f'
			case 1:
				it.line = []byte([]string{"$Direction x|", "<bad|", "$Hello \x01$|", "$UserCommand x|", "$ADCSND file|", "$SR foo|"}[t.Intn(6)])
			case 2:
				it.line = []byte([]string{"Xfoo bar\n", "BMSG AAA hello\n", "IM\n", "ISTA x\n", "HINF SSx\n"}[t.Intn(5)])
			}
			if c.kind == 'b' {
				c.items = []int{emit(it)}
			}
		case 3:
			c.kind = 'f'
			if !z {
				c.kind, z = 'z', true
				c.level = drawLevel(t)
				it := hitem{kind: 'z', line: append([]byte("switch"), delim)}
				switch mode {
				case 1:
					it.line, it.text = []byte("$ZOn|"), canon(&nmdc.ZOn{})
				case 2:
					it.line, it.text = []byte("IZON\n"), canon(&adc.InfoPacket{Msg: adc.ZOn{}})
				}
				c.items = []int{emit(it)}
			}
		case 4:
			c.kind = 'f'
			if z {
				c.kind, z = 'd', false
			}
		case 5:
			c.kind = 'f'
		}
		var pass []int
		for j, it := range c.items {
			act, err := 0, error(nil)
			if c.kind == 'm' {
				act, err = h.stage(stWMsg, it, false, j == len(c.items)-1)
			}
			if act == 0 {
				act, err = h.stage(stWLine, it, c.kind == 'z', false)
			}
			if act == 2 {
				c.err = err
			}
			if act == 0 {
				pass = append(pass, it)
			}
		}
		calls = append(calls, c)
		for _, it := range pass {
			arrive(it)
		}
		t.End()
	}
	// the last call may fail in a line hook
	var last *wcall
	if h.n[stWLine] > 0 && t.Chance(250) {
		it := hitem{kind: 'k', line: []byte{delim}}
		c := wcall{kind: 'k', items: []int{emit(it)}}
		k := t.Intn(h.n[stWLine])
		for j := 0; j <= k; j++ {
			hc := hcall{hook: j, item: c.items[0]}
			if j == k {
				hc.act, hc.err = 2, &hookErr{stWLine, j, hc.item}
				c.err = hc.err
			}
			h.calls[stWLine] = append(h.calls[stWLine], hc)
		}
		last = &c
	}
	desc := ""
	for _, c := range calls {
		desc += fmt.Sprintf(" %c%v", c.kind, c.items)
	}
	w.Sample = fmt.Sprintf("mode %d hooks %v:%s, %d results", mode, h.n, desc, len(results))
	total := 0
	for _, it := range h.items {
		total += len(it.line)
	}
	prof := w.DrawNet()
	prof.CutAt = -1
	prof.Tame(total + 100)
	p := w.NewPipe(0, prof)
	lineWant := func(it hitem) string { return string(it.line) }
	msgWant := func(it hitem) string { return it.text }
	w.Go("sender", func() {
		defer p.CloseWrite()
		var lw *lineproto.Writer
		var nw *nmdc.Writer
		var aw *adc.Writer
		bsz := []int{0, 1, 50, 4096}[t.Intn(4)]
		switch mode {
		case 0:
			lw = lineproto.NewWriterSize(p, bsz)
		case 1:
			nw = nmdc.NewWriterSize(p, bsz)
			lw = nw.Writer
		case 2:
			aw = adc.NewWriterSize(p, bsz)
			lw = aw.Writer
		}
		hooks := map[int]func(k int){
			stWLine: func(k int) {
				lw.OnLine(func(line []byte) (bool, error) { return h.call(stWLine, k, string(line), lineWant) })
			},
			stWMsg: func(k int) {
				nw.OnMessage(func(m nmdc.Message) (bool, error) { return h.call(stWMsg, k, canon(m), msgWant) })
			},
		}
		var next [nStages]int
		do := func(c wcall) error {
			w.Inc("op")
			switch c.kind {
			case 'm':
				switch mode {
				case 0:
					return lw.WriteLine(append([]byte(nil), h.items[c.items[0]].line...))
				case 1:
					var ms []nmdc.Message
					for _, i := range c.items {
						ms = append(ms, h.items[i].msg)
					}
					return nw.WriteMsg(ms...)
				}
				return ag.write(aw, h.items[c.items[0]].pkt)
			case 'k':
				switch mode {
				case 1:
					return nw.WriteKeepAlive()
				case 2:
					return aw.WriteKeepAlive()
				}
				return lw.WriteLine([]byte{delim})
			case 'b':
				return lw.WriteLine(append([]byte(nil), h.items[c.items[0]].line...))
			case 'z':
				if mode == 1 {
					return nw.ZOnLevel(c.level)
				}
				err := error(nil)
				if mode == 2 {
					err = aw.WriteInfo(adc.ZOn{})
				} else {
					err = lw.WriteLine(append([]byte("switch"), delim))
				}
				if err != nil {
					return err
				}
				return lw.EnableZlibLevel(c.level)
			case 'd':
				return lw.DisableZlib()
			}
			return lw.Flush()
		}
		for i, c := range calls {
			h.late(&next, i, hooks)
			if err := do(c); err != c.err {
				w.Fail("writer-result", "call %d (%c%v) of the writer returned %v instead of %v", i, c.kind, c.items, err, c.err)
				return
			}
		}
		if err := lw.Flush(); err != nil {
			w.Fail("writer-result", "the final flush failed: %v", err)
		}
		if last != nil {
			h.late(&next, 1<<30, hooks)
			if err := do(*last); err != last.err {
				w.Fail("writer-result", "the last call of the writer returned %v instead of %v", err, last.err)
			}
			lw.Flush()
		}
		if t.Bool() {
			lw.Close()
		}
	})
	seenKA := 0
	w.Go("receiver", func() {
		defer p.CloseRead()
		var lr *lineproto.Reader
		var nr *nmdc.Reader
		var ar *adc.Reader
		keep := func() error {
			seenKA++
			if h.n[stKeep] == 0 {
				return nil
			}
			_, err := h.call(stKeep, 0, string(delim), lineWant)
			return err
		}
		switch mode {
		case 0:
			lr = lineproto.NewReader(p, delim)
		case 1:
			nr = nmdc.NewReader(p)
			lr = nr.Reader
			nr.OnKeepAlive = keep
		case 2:
			ar = adc.NewReader(p)
			lr = ar.Reader
			ar.OnKeepAlive = keep
		}
		lr.SetMaxLine(0)
		hooks := map[int]func(k int){
			stRLine: func(k int) {
				lr.OnLine(func(line []byte) (bool, error) { return h.call(stRLine, k, string(line), lineWant) })
			},
			stRaw: func(k int) {
				nr.OnRawMessage(func(cmd, args []byte) (bool, error) {
					got := "<chat> " + string(args)
					if cmd != nil {
						got = "$" + string(cmd) + " " + string(args)
					}
					return h.call(stRaw, k, got, func(it hitem) string {
						typ, args := splitCmd(it.line)
						if it.line[0] != '$' {
							return "<chat> " + string(args)
						}
						return "$" + typ + " " + string(args)
					})
				})
			},
			stRMsg: func(k int) {
				nr.OnMessage(func(m nmdc.Message) (bool, error) { return h.call(stRMsg, k, canon(m), msgWant) })
			},
		}
		var next [nStages]int
		for i := 0; i <= len(results); i++ {
			h.late(&next, i, hooks)
			var got string
			var err error
			switch mode {
			case 0:
				var l []byte
				l, err = lr.ReadLine()
				got = string(l)
			case 1:
				var m nmdc.Message
				if m, err = nr.ReadMsg(); err == nil {
					got = canon(m)
				}
			case 2:
				var m adc.Packet
				if m, err = ar.ReadPacket(); err == nil {
					got = canon(m)
				}
			}
			w.Inc("op")
			if i == len(results) {
				if err != io.EOF && err != io.ErrUnexpectedEOF {
					w.Fail("reader-result", "after everything sent the reader gives %s, %v", short(got), err)
				}
				return
			}
			x := results[i]
			if x.err != nil {
				if err != x.err {
					w.Fail("reader-result", "result %d is %s, %v instead of the error %v of a hook", i, short(got), err, x.err)
				}
				continue
			}
			it := h.items[x.item]
			if x.bad {
				var he *hookErr
				if err == nil || errors.Is(err, io.EOF) || errors.As(err, &he) {
					w.Fail("reader-result", "result %d is %s, %v instead of an error about %s", i, short(got), err, q(it.line))
				}
				continue
			}
			want := it.text
			if mode == 0 {
				want = string(it.line)
			}
			if err != nil || got != want {
				w.Fail("reader-result", "result %d is %s, %v instead of %s", i, short(got), err, short(want))
			}
			if it.kind == 'z' {
				if err := lr.EnableZlib(); err != nil {
					w.Fail("zlib", "EnableZlib: %v", err)
				}
			}
		}
	})
	if !finish(w, "a connection with hooks") {
		return
	}
	for st, c := range h.calls {
		if h.at[st] != len(c) {
			w.Fail("missing-hook-call", "the %s hooks were called %d times instead of %d", stName[st], h.at[st], len(c))
		}
	}
	if mode > 0 && seenKA != kas {
		w.Fail("missing-hook-call", "%d keep-alives were seen, %d sent", seenKA, kas)
	}
}
