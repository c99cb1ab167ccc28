package kernel

import (
	"errors"
	"io"
	"net"
	"time"
)

// Errors the simulated transport returns.
var (
	ErrReset     = errors.New("sim: connection reset by peer")
	ErrBroken    = errors.New("sim: broken pipe")
	ErrTransient = &tempError{"sim: transient transport error", false}
	ErrDeadline  = &tempError{"sim: i/o timeout", true}
	ErrClosed    = net.ErrClosed
)

type tempError struct {
	s       string
	timeout bool
}

func (e *tempError) Error() string   { return e.s }
func (e *tempError) Timeout() bool   { return e.timeout }
func (e *tempError) Temporary() bool { return true }

// Fragmentation modes of the reading side.
const (
	FragWhole = iota // everything available, as far as the caller's buffer goes
	FragSmall        // 1..3 bytes
	FragMid          // 1..64 bytes
	FragMTU          // up to 1500 bytes
	FragOne          // one byte at a time
	FragMix          // a mode per read
	fragModes
)

// WFault is a planned failure of a write.
type WFault struct {
	At      int   // after this many accepted bytes
	Err     error // what the transport reports
	Once    bool  // later writes work again
	Zero    bool  // the failing call accepts nothing at all, even what would fit
	Lie     bool  // the failing call accepts everything and still reports an error
	fired   bool
	FiredAt int
}

// RFault is a planned event on the reading side, at a byte offset of the stream.
type RFault struct {
	At    int
	Err   error // ErrTransient-like error delivered once; nil for a pause
	Pause time.Duration
	Data  bool // the error comes together with the data before At, if there is any
	fired bool
}

// Profile says how a pipe behaves. The zero value is a perfect, instant pipe.
type Profile struct {
	LatMin, LatMax time.Duration // delivery delay of each written chunk
	Window         int           // bytes in flight plus unread before a writer blocks; 0 is unlimited
	Piece          int           // a write is accepted in pieces of at most this size, with a schedule point between; 0 is whole
	Frag           int
	ZeroRead       int  // permille of reads that return 0 bytes and no error
	DataEOF        bool // return the final data together with io.EOF
	CutAt          int  // bytes delivered before the stream ends abruptly; -1 never
	CutErr         error
	WFault         *WFault
	RFaults        []*RFault
	Scribble       bool  // use the reader's spare buffer space as scratch, as io.Reader permits
	Flip           []int // byte offsets at which one bit is flipped
	FlipMask       byte
}

type chunk struct {
	data []byte
	at   time.Duration
}

// Pipe is one direction of a simulated connection.
type Pipe struct {
	W    *World
	ID   int
	P    Profile
	fly  []chunk // in flight, in order
	buf  []byte  // arrived, not yet read
	flyN int

	Wire      []byte // every byte the transport accepted
	Delivered int    // bytes handed to the reader
	WCalls    int
	RCalls    int
	ClosedW   bool // writer closed (EOF after the data)
	eofAt     time.Duration
	ClosedR   bool // reader closed
	cut       bool
	trans     int
	TransData int // transient errors that came with data; the reader may report or ignore them
	lastAt    time.Duration

	rwait, wwait   []*Task
	RDeadline      time.Duration // 0 none
	WDeadline      time.Duration
	zeros, zrun    int
	OnWrite        func(p []byte) // called at entry of each transport write
	OnAccept       func(n int, err error)
	OnRead         func() // called at entry of each transport read
	writing        bool
	reading        bool
	BlockedWriteNs time.Duration
}

// NewPipe makes one direction of a connection.
func (w *World) NewPipe(id int, p Profile) *Pipe {
	return &Pipe{W: w, ID: id, P: p}
}

func (p *Pipe) wakeR() {
	for _, t := range p.rwait {
		p.W.ready(t)
	}
	p.rwait = p.rwait[:0]
}
func (p *Pipe) wakeW() {
	for _, t := range p.wwait {
		p.W.ready(t)
	}
	p.wwait = p.wwait[:0]
}

func (p *Pipe) room() int {
	if p.P.Window <= 0 {
		return 1 << 30
	}
	return p.P.Window - len(p.buf) - p.flyN
}

// Write implements io.Writer: it may block on the window, accept the data in
// pieces and fail as planned.
func (p *Pipe) Write(b []byte) (int, error) {
	w := p.W
	if w.Dying() {
		return 0, ErrClosed
	}
	p.WCalls++
	if p.OnWrite != nil {
		p.OnWrite(b)
	}
	w.EvBytes("twrite", p.ID, b)
	n, err := p.write(b)
	if p.OnAccept != nil {
		p.OnAccept(n, err)
	}
	if err != nil {
		w.Ev("twrite-err", p.ID, n)
	}
	return n, err
}

func (p *Pipe) write(b []byte) (int, error) {
	w := p.W
	done := 0
	if f := p.P.WFault; f != nil && (f.fired && !f.Once) {
		return 0, f.Err
	}
	for {
		if p.ClosedW {
			return done, ErrClosed
		}
		if p.ClosedR || p.cut {
			w.Inc("fault.broken_pipe")
			return done, ErrBroken
		}
		if p.WDeadline != 0 && w.now >= p.WDeadline {
			w.Inc("fault.write_deadline")
			return done, ErrDeadline
		}
		if done >= len(b) {
			return done, nil
		}
		n := len(b) - done
		if r := p.room(); r < n {
			n = r
		}
		if n <= 0 {
			w.Inc("probe.window_full")
			p.wwait = append(p.wwait, w.cur)
			p.armW()
			w.Park("transport write")
			if w.Dying() {
				return done, ErrClosed
			}
			continue
		}
		if p.P.Piece > 0 && n > p.P.Piece {
			n = 1 + w.T.Intn(p.P.Piece)
		}
		if f := p.P.WFault; f != nil && !f.fired && len(p.Wire)+len(b)-done > f.At {
			// this call crosses the planned offset
			k := f.At - len(p.Wire)
			if k <= n {
				if k < 0 {
					k = 0
				}
				if f.Zero && done == 0 {
					k = 0
				}
				if f.Lie {
					k = n
				}
				f.fired = true
				f.FiredAt = len(p.Wire) + k
				p.accept(b[done : done+k])
				w.Inc("fault.write_error")
				if k > 0 && k < len(b) {
					w.Inc("fault.short_write")
				}
				return done + k, f.Err
			}
		}
		p.accept(b[done : done+n])
		done += n
		if done < len(b) || w.T.Chance(100) {
			w.Yield()
			if w.Dying() {
				return done, ErrClosed
			}
		}
		if done >= len(b) {
			return done, nil
		}
	}
}

func (p *Pipe) armW() {
	if p.WDeadline != 0 {
		d := p.WDeadline - p.W.now
		p.W.After(d, p.wakeW)
	}
}

func (p *Pipe) accept(b []byte) {
	if len(b) == 0 {
		return
	}
	w := p.W
	c := append([]byte(nil), b...)
	for _, off := range p.P.Flip {
		if off >= len(p.Wire) && off < len(p.Wire)+len(c) {
			m := p.P.FlipMask
			if m == 0 {
				m = 1
			}
			c[off-len(p.Wire)] ^= m
			w.Inc("fault.bit_flip")
		}
	}
	p.Wire = append(p.Wire, b...)
	lat := p.P.LatMin
	if p.P.LatMax > p.P.LatMin {
		lat += time.Duration(w.T.Intn(8)) * (p.P.LatMax - p.P.LatMin) / 7
	}
	at := w.now + lat
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	if at <= w.now && len(p.fly) == 0 {
		p.buf = append(p.buf, c...)
		p.wakeR()
		return
	}
	p.fly = append(p.fly, chunk{c, at})
	p.flyN += len(c)
	w.After(at-w.now, p.land)
}

func (p *Pipe) land() {
	for len(p.fly) > 0 && p.fly[0].at <= p.W.now {
		p.buf = append(p.buf, p.fly[0].data...)
		p.flyN -= len(p.fly[0].data)
		p.fly = p.fly[1:]
	}
	p.wakeR()
}

// CloseWrite ends the stream after the data written so far.
func (p *Pipe) CloseWrite() {
	if p.ClosedW {
		return
	}
	p.ClosedW = true
	p.eofAt = p.lastAt
	p.W.Ev("tclosew", p.ID)
	if p.eofAt > p.W.now {
		p.W.After(p.eofAt-p.W.now, p.wakeR)
	}
	p.wakeR()
	p.wakeW()
}

// CloseRead makes further writes fail.
func (p *Pipe) CloseRead() {
	p.ClosedR = true
	p.wakeW()
	p.wakeR()
}

func (p *Pipe) setRDeadline(d time.Duration) {
	p.RDeadline = d
	if d != 0 {
		p.W.After(d-p.W.now, p.wakeR)
	}
	p.wakeR()
}

func (p *Pipe) setWDeadline(d time.Duration) {
	p.WDeadline = d
	if d != 0 {
		p.W.After(d-p.W.now, p.wakeW)
	}
	p.wakeW()
}

// Read implements io.Reader.
func (p *Pipe) Read(b []byte) (int, error) {
	w := p.W
	if w.Dying() {
		return 0, ErrClosed
	}
	p.RCalls++
	if p.OnRead != nil {
		p.OnRead()
	}
	if w.T.Chance(120) {
		w.Yield()
		if w.Dying() {
			return 0, ErrClosed
		}
	}
	n, err := p.read(b)
	if n >= 0 && p.P.Scribble && n < len(b) {
		for i := n; i < len(b); i++ {
			b[i] = 0xA5
		}
	}
	w.EvBytes("tread", p.ID, b[:n])
	if err != nil {
		w.EvStr("tread-err", err.Error())
	}
	return n, err
}

func (p *Pipe) read(b []byte) (int, error) {
	w := p.W
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if p.ClosedR {
			return 0, ErrClosed
		}
		for _, f := range p.P.RFaults {
			if !f.fired && f.At == p.Delivered {
				f.fired = true
				if f.Err != nil {
					w.Inc("fault.transient_read")
					p.trans++
					return 0, f.Err
				}
				w.Inc("fault.stall")
				w.Sleep(f.Pause)
				if w.Dying() {
					return 0, ErrClosed
				}
			}
		}
		if p.P.CutErr != nil && p.Delivered >= p.P.CutAt {
			if !p.cut {
				p.cut = true
				w.Inc("fault.cut")
				p.wakeW()
			}
			return 0, p.P.CutErr
		}
		if p.zrun > 0 { // in a row
			p.zrun--
			w.Inc("fault.zero_read")
			return 0, nil
		}
		if p.P.ZeroRead > 0 && p.zeros < 3 && w.T.Chance(p.P.ZeroRead) {
			p.zeros++
			if w.T.Chance(40) {
				p.zrun, p.zeros = 3+w.T.Intn(60), 3
			}
			w.Inc("fault.zero_read")
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := len(b)
			if n > len(p.buf) {
				n = len(p.buf)
			}
			n = p.frag(n)
			for _, f := range p.P.RFaults {
				if !f.fired && f.At > p.Delivered && f.At < p.Delivered+n {
					n = f.At - p.Delivered
				}
			}
			var with error
			for _, f := range p.P.RFaults {
				if !f.fired && f.Data && f.Err != nil && f.At == p.Delivered+n && (p.P.CutErr == nil || n <= p.P.CutAt-p.Delivered) {
					f.fired = true
					with = f.Err
				}
			}
			if p.P.CutErr != nil && n > p.P.CutAt-p.Delivered {
				n = p.P.CutAt - p.Delivered
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.buf = nil
			}
			p.Delivered += n
			p.zeros = 0
			p.wakeW()
			if n < len(b) && n > 0 {
				w.Add("probe.short_reads", 1)
			}
			if with != nil {
				w.Inc("fault.error_with_data")
				p.TransData++
				return n, with
			}
			if p.P.DataEOF && p.ended() {
				w.Inc("fault.data_with_eof")
				return n, io.EOF
			}
			return n, nil
		}
		if p.ended() {
			return 0, io.EOF
		}
		if p.RDeadline != 0 && w.now >= p.RDeadline {
			w.Inc("fault.read_deadline")
			return 0, ErrDeadline
		}
		p.rwait = append(p.rwait, w.cur)
		w.Park("transport read")
		if w.Dying() {
			return 0, ErrClosed
		}
	}
}

func (p *Pipe) ended() bool {
	if len(p.buf) != 0 || len(p.fly) != 0 || !p.ClosedW {
		return false
	}
	if p.P.CutErr != nil && p.Delivered >= p.P.CutAt {
		return false
	}
	return p.W.now >= p.eofAt
}

func (p *Pipe) frag(n int) int {
	m := p.P.Frag
	if m == FragMix {
		m = p.W.T.Intn(FragMix)
	}
	k := n
	switch m {
	case FragSmall:
		k = 1 + p.W.T.Intn(3)
	case FragMid:
		k = 1 + p.W.T.Intn(64)
	case FragMTU:
		k = 1 + p.W.T.Intn(1500)
	case FragOne:
		k = 1
	}
	if k > n {
		k = n
	}
	return k
}

// CutFired reports whether the planned cut has been seen by the reader.
func (p *Pipe) CutFired() bool { return p.cut }

// Count gives the number of transient read errors this pipe has returned.
func (p *Pipe) Count(string) int { return p.trans }

// Unread reports how many accepted bytes the reader has not taken.
func (p *Pipe) Unread() int { return len(p.buf) + p.flyN }

// Conn is one endpoint of a simulated connection. It implements net.Conn.
type Conn struct {
	W    *World
	In   *Pipe
	Out  *Pipe
	Name string
}

// NewConnPair makes both endpoints of a connection.
func (w *World) NewConnPair(id int, ab, ba Profile) (*Conn, *Conn) {
	p, q := w.NewPipe(id*2, ab), w.NewPipe(id*2+1, ba)
	return &Conn{W: w, In: q, Out: p, Name: "a"}, &Conn{W: w, In: p, Out: q, Name: "b"}
}

func (c *Conn) Read(b []byte) (int, error)  { return c.In.Read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.Out.Write(b) }
func (c *Conn) Close() error {
	c.Out.CloseWrite()
	c.In.CloseRead()
	return nil
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return simAddr("local") }
func (c *Conn) RemoteAddr() net.Addr { return simAddr("remote") }

// Epoch is the wall-clock time of simulated time 0.
var Epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func (c *Conn) rel(t time.Time) time.Duration {
	if t.IsZero() {
		return 0
	}
	d := t.Sub(Epoch)
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *Conn) SetDeadline(t time.Time) error {
	c.In.setRDeadline(c.rel(t))
	c.Out.setWDeadline(c.rel(t))
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.In.setRDeadline(c.rel(t)); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.Out.setWDeadline(c.rel(t)); return nil }

// SetWriteTimeout sets the write deadline d from now in simulated time; 0 clears it.
func (p *Pipe) SetWriteTimeout(d time.Duration) {
	if d == 0 {
		p.setWDeadline(0)
	} else {
		p.setWDeadline(p.W.now + d)
	}
}

// SetReadTimeout is the reading counterpart of SetWriteTimeout.
func (p *Pipe) SetReadTimeout(d time.Duration) {
	if d == 0 {
		p.setRDeadline(0)
	} else {
		p.setRDeadline(p.W.now + d)
	}
}

// Feed puts bytes on the wire without a writing task (a recorded peer).
func (p *Pipe) Feed(b []byte) { p.accept(b) }

// DrawNet draws a benign profile: delays, windows and fragmentation, no faults.
func (w *World) DrawNet() Profile {
	t := w.T
	p := Profile{}
	p.Frag = t.Weighted(3, 2, 2, 2, 1, 2)
	switch t.Weighted(4, 2, 2) {
	case 1:
		p.LatMax = time.Duration(1+t.Intn(20)) * time.Millisecond
	case 2:
		p.LatMin = time.Duration(t.Intn(5)) * time.Millisecond
		p.LatMax = p.LatMin + time.Duration(t.Intn(2000))*time.Millisecond
	}
	switch t.Weighted(4, 1, 2) {
	case 1:
		p.Window = 1 + t.Intn(16)
	case 2:
		p.Window = 64 << t.Intn(8)
	}
	switch t.Weighted(3, 1, 2) {
	case 1:
		p.Piece = 1 + t.Intn(8)
	case 2:
		p.Piece = 1 + t.Intn(600)
	}
	if t.Chance(300) {
		p.ZeroRead = 20 + t.Intn(200)
	}
	p.DataEOF = t.Chance(300)
	p.Scribble = t.Chance(500)
	return p
}

// Tame keeps a profile affordable for n bytes of traffic.
func (p *Profile) Tame(n int) {
	if n < 30000 {
		return
	}
	if p.Frag == FragSmall || p.Frag == FragOne || p.Frag == FragMid {
		p.Frag = FragMTU
	}
	if p.Window > 0 && p.Window < 2048 {
		p.Window = 2048
	}
	if p.Piece > 0 && p.Piece < 512 {
		p.Piece = 512
	}
}
