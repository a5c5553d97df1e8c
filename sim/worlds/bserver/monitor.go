// Package bserver simulates the BorIP server: the real main() of boripserver on a simulated network
// with simulated tuners, watched from outside (wire, driver calls, sockets) by a monitor.
package bserver

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/samuel/go-rtlsdr/rtl"
	simnet "verif/sim/simlib/net"
	"verif/sim/simrt"
)

// MaxPacketSamples is what the server announces.
const MaxPacketSamples = 4096

// Line is one command line of a session.
type Line struct {
	Text   string
	Word   string
	Args   []string
	Start  int64 // offset of its end in the client's byte stream
	SentAt int64 // clock when the client had sent it completely (-1: not yet)
	ReadAt int64 // clock when the server had read it completely (-1: not yet)
	SentNS int64
	Over   bool // longer than any line the server has to accept
	Reply  string
	Done   int64 // clock of the reply
	WS     int64 // start of the request's window
}

// Datagram is one send attempt.
type Datagram struct {
	At   int64
	To   string
	Data []byte
	Err  bool
}

// Stream is the monitor's view of one hardware read.
type Stream struct {
	R        *rtl.Read
	Sess     *Sess
	Start    int64
	EndAt    int64 // clock when the read ended (0: not yet)
	EndNS    int64
	Dest     string
	Answered string // reply to the GO that started it ("" not yet)
	StopAt   int64  // clock when the session was told it has stopped (0: not)
	LastReq  int64  // clock at which stopping was first requested (STOP/DEVICE line read), 0: never
	off      int    // bytes accounted for
	seq      int
	n        int // attempts
	lastErr  *Datagram
	bad      bool
}

// Sess is one accepted connection.
type Sess struct {
	Tag          int
	C            *simnet.TCPConn // server end
	Cli          *simnet.TCPConn // client end
	out          []byte          // partial reply line
	cbuf         []byte          // partial command line
	sent         int64
	read         int64
	Lines        []*Line
	replied      int
	Greeted      bool
	Dest         string
	DestAny      bool // model does not know the destination (ambiguous request)
	Streams      []*Stream
	Over         bool // an over-long line was sent: anything but a crash may happen to this session
	Ended        bool // connection over (either end)
	EndNS        int64
	ServerClosed int64 // clock when the server closed the connection
	LastDone     int64
	lastSel      int64
}

// Monitor watches one server.
type Monitor struct {
	S        *simrt.Sim
	N        *simnet.Network
	H        *rtl.Hardware
	Proc     *simrt.Proc
	Prop     string // property under check: harm that every property forbids is reported under it
	clk      int64
	Sess     []*Sess
	byTag    map[int]*Sess
	calls    []callRec
	use      []useRec // ownership intervals
	udpF     []int64  // clocks of failed UDP socket creations
	strm     map[*rtl.Read]*Stream
	DNS      map[string]string
	stopping bool
	Bound    int64
	GoneAt   map[*rtl.Tuner][]int64 // unplug clocks
	pumps    map[*simrt.G]*Stream

	// OnPacket is told about every data packet the server sends (seq counts packets of the stream, off is
	// the position of its first byte in what the tuner delivered).
	OnPacket func(st *Stream, b []byte, err error, seq, off int)
	// Also maps violations of other properties that also break the one under check.
	Also func(prop, class string) bool
}

type callRec struct {
	c   rtl.Call
	clk int64
}
type useRec struct {
	t        *rtl.Tuner
	tag      int
	from, to int64 // to 0: still
	closer   *simrt.G
}

func (m *Monitor) tick() int64 { m.clk++; return m.clk }

// Clock is the monitor's event counter.
func (m *Monitor) Clock() int64 { return m.clk }

// NewMonitor attaches a monitor to the network and hardware of the simulation.
func NewMonitor(s *simrt.Sim, p *simrt.Proc, prop string) *Monitor {
	m := &Monitor{S: s, N: simnet.Of(), H: rtl.Of(), Proc: p, Prop: prop, byTag: map[int]*Sess{}, strm: map[*rtl.Read]*Stream{}, Bound: 10e9,
		GoneAt: map[*rtl.Tuner][]int64{}, pumps: map[*simrt.G]*Stream{}}
	m.N.OnAccept = m.onAccept
	m.N.OnTCPWrite = m.onWrite
	m.N.OnTCPRead = m.onRead
	m.N.OnTCPClose = m.onClose
	m.N.OnUDPSend = m.onUDP
	m.N.OnUDPFail = func() { m.udpF = append(m.udpF, m.tick()) }
	m.N.OnTCPFail = func(c *simnet.TCPConn) {
		if x, ok := c.User.(*Sess); ok {
			m.EndSession(x)
		}
	}
	m.H.OnCall = m.onCall
	m.H.OnMisuse = m.onMisuse
	m.H.OnEnd = m.onReadEnd
	return m
}

func (m *Monitor) violate(prop, class, f string, a ...any) {
	if m.Also != nil && m.Also(prop, class) {
		m.S.Violate(m.Prop, class, f, a...)
	}
	m.S.Violate(prop, class, f, a...)
}

// Stopping tells the monitor that the run is being wound up.
func (m *Monitor) Stopping() { m.stopping = true }

// Unplug records and performs the loss of a tuner.
func (m *Monitor) Unplug(t *rtl.Tuner) {
	m.GoneAt[t] = append(m.GoneAt[t], m.tick())
	m.H.Unplug(t)
}

func (m *Monitor) onAccept(c *simnet.TCPConn) {
	if c.Proc != m.Proc {
		return
	}
	m.tick()
	s := m.sessOf(c)
	_ = s
}

// sessOf finds or makes the session of a server-side connection (the client may write before it is accepted).
func (m *Monitor) sessOf(c *simnet.TCPConn) *Sess {
	if x, ok := c.User.(*Sess); ok {
		return x
	}
	s := &Sess{Tag: len(m.Sess) + 1, C: c, Cli: c.Peer()}
	ip := c.RemoteAddr().(*simnet.TCPAddr).IP.String()
	s.Dest = ip + ":28888"
	c.User = s
	c.Tag = s.Tag
	m.Sess = append(m.Sess, s)
	m.byTag[s.Tag] = s
	return s
}

func splitLine(text string) (string, []string) {
	parts := strings.Split(text, " ")
	return strings.ToUpper(parts[0]), parts[1:]
}

func (m *Monitor) onWrite(c *simnet.TCPConn, b []byte) {
	if !c.Server && c.Peer().Proc == m.Proc {
		s := m.sessOf(c.Peer())
		m.tick()
		for _, x := range b {
			s.sent++
			if x == '\n' {
				txt := strings.TrimSpace(string(s.cbuf))
				over := len(s.cbuf) >= 4095
				s.cbuf = s.cbuf[:0]
				if over {
					s.Over = true
				}
				if txt == "" && !over {
					continue
				}
				w, args := splitLine(txt)
				s.Lines = append(s.Lines, &Line{Text: txt, Word: w, Args: args, Start: s.sent, SentAt: m.clk, SentNS: m.S.Now(), ReadAt: -1, Over: s.Over})
				continue
			}
			s.cbuf = append(s.cbuf, x)
			if len(s.cbuf) > 4090 {
				s.Over = true
			}
		}
		return
	}
	if c.Server && c.Proc == m.Proc {
		s := m.sessOf(c)
		m.tick()
		for _, x := range b {
			if x != '\n' {
				s.out = append(s.out, x)
				continue
			}
			line := string(s.out)
			s.out = nil
			m.reply(s, line)
		}
	}
}

func (m *Monitor) onRead(c *simnet.TCPConn, b []byte) {
	s, ok := c.User.(*Sess)
	if !ok || !c.Server || c.Proc != m.Proc {
		return
	}
	m.tick()
	s.read += int64(len(b))
	for _, l := range s.Lines {
		if l.ReadAt < 0 && l.Start <= s.read {
			l.ReadAt = m.clk
			if l.Word == "STOP" || l.Word == "DEVICE" {
				for _, st := range s.Streams {
					if st.LastReq == 0 {
						st.LastReq = m.clk
					}
				}
			}
		}
	}
}

func (m *Monitor) onClose(c *simnet.TCPConn) {
	var s *Sess
	if c.Server {
		s, _ = c.User.(*Sess)
	} else if c.Peer() != nil && c.Peer().Proc == m.Proc {
		s = m.sessOf(c.Peer())
	}
	if s == nil {
		return
	}
	m.tick()
	if c.Server && s.ServerClosed == 0 {
		s.ServerClosed = m.clk
	}
	if c.Server && !s.Ended && !s.Over && !m.stopping && m.Proc != nil && !m.Proc.Dead && !c.Broken() && s.Cli.Open() {
		m.violate("S03", "session-dropped", "the server closed session %d although the client is connected (last reply %d of %d lines)", s.Tag, s.replied, len(s.Lines))
	}
	m.EndSession(s)
}

// EndSession starts the clock on the release of everything the session holds.
func (m *Monitor) EndSession(s *Sess) {
	if s.Ended {
		return
	}
	s.Ended = true
	s.EndNS = m.S.Now()
	for _, st := range s.Streams {
		if st.LastReq == 0 {
			st.LastReq = m.clk
		}
	}
	m.S.After(m.Bound, func() { m.census(s) })
}

func (m *Monitor) census(s *Sess) {
	if m.Proc.Dead || m.S.Cleaning() {
		return
	}
	m.S.Probe("session_census")
	for _, t := range m.H.Tuners {
		if t.Cur != nil && t.Cur.Tag == s.Tag {
			m.violate("S02", "tuner-kept", "%.1f s after session %d ended, tuner %d is still open on its behalf", float64(m.Bound)/1e9, s.Tag, t.Idx)
		}
	}
	for _, st := range s.Streams {
		if st.R.Active() {
			m.violate("S02", "read-kept", "%.1f s after session %d ended, its hardware read %d is still running", float64(m.Bound)/1e9, s.Tag, st.R.ID)
		}
	}
	for _, u := range m.N.OpenUDP(m.Proc) {
		if u.Tag == s.Tag {
			m.violate("S02", "socket-kept", "%.1f s after session %d ended, one of its data sockets (%s) is still open", float64(m.Bound)/1e9, s.Tag, u.LocalAddr())
			break
		}
	}
	if s.C.Open() {
		m.violate("S02", "connection-kept", "%.1f s after session %d ended, the server's end of its control connection is still open", float64(m.Bound)/1e9, s.Tag)
	}
	if d := m.S.TagDump(m.Proc, s.Tag); d != "" {
		m.violate("S02", "task-kept", "%.1f s after session %d ended, tasks of it remain: %s", float64(m.Bound)/1e9, s.Tag, d)
	}
}

func (m *Monitor) onMisuse(kind string, t *rtl.Tuner, tag int, msg string) {
	m.tick()
	m.violate("S01", kind, "%s", msg)
}

func (m *Monitor) onCall(c *rtl.Call) {
	m.tick()
	m.calls = append(m.calls, callRec{*c, m.clk})
	switch c.Op {
	case "open":
		if !c.Err {
			m.use = append(m.use, useRec{c.Tuner, c.Tag, m.clk, 0, nil})
			for _, t := range m.H.Tuners {
				if t != c.Tuner && t.Cur != nil && t.Cur.Tag == c.Tag && c.Tag != 0 && !m.closing(t) {
					m.violate("S01", "two-tuners", "session %d opened tuner %d while it still holds tuner %d", c.Tag, c.Tuner.Idx, t.Idx)
				}
			}
		}
	case "close":
		for i := range m.use {
			if m.use[i].t == c.Tuner && m.use[i].to == 0 {
				m.use[i].to, m.use[i].closer = m.clk, simrt.Current()
			}
		}
	case "readasync":
		m.S.Probe("streams_started")
		s := m.byTag[c.Tag]
		if s == nil {
			return
		}
		r := m.H.Reads[c.Res-1]
		st := &Stream{R: r, Sess: s, Start: m.clk, Dest: s.Dest}
		if s.DestAny {
			st.Dest = ""
		}
		// concurrent requests to stop that are already read but not yet handled do not concern it
		m.strm[r] = st
		for _, old := range s.Streams {
			if old.StopAt == 0 && old.EndAt == 0 && !old.R.Failed && old.LastReq == 0 && !old.R.Tuner.Lost && !old.R.Aborted {
				m.violate("S05", "double-start", "session %d: hardware read %d was started while read %d of the session is active", s.Tag, r.ID, old.R.ID)
			}
		}
		s.Streams = append(s.Streams, st)
		if s.Ended {
			st.LastReq = m.clk
		}
		for _, l := range s.Lines {
			if l.Done == 0 && l.ReadAt >= 0 && (l.Word == "STOP" || l.Word == "DEVICE") {
				st.LastReq = m.clk
			}
		}
	}
}

func (m *Monitor) closing(t *rtl.Tuner) bool { return false }

func (m *Monitor) onReadEnd(r *rtl.Read) {
	m.tick()
	st := m.strm[r]
	if st == nil {
		return
	}
	st.EndAt = m.clk
	st.EndNS = m.S.Now()
	if r.Stopped && st.LastReq == 0 && !st.Sess.Ended && !st.Sess.Over && !m.Proc.Dead && !st.Sess.C.Broken() && len(st.Sess.cbuf) == 0 {
		// a reset may have reached the server before we know of it: Broken covers that
		m.violate("S05", "stream-ended-by-server", "session %d: the server ended read %d although it was not told to", st.Sess.Tag, r.ID)
	}
	m.S.After(m.Bound, func() {
		if m.Proc.Dead || m.S.Cleaning() {
			return
		}
		// sockets of the session cannot outnumber its running streams
		act := 0
		for _, x := range st.Sess.Streams {
			if x.R.Active() || x.EndNS > m.S.Now()-m.Bound || x.R.StartAt > m.S.Now()-m.Bound {
				act++
			}
		}
		open := 0
		for _, u := range m.N.OpenUDP(m.Proc) {
			if u.Tag == st.Sess.Tag {
				open++
			}
		}
		if open > act {
			m.violate("S02", "stream-socket-kept", "%.1f s after read %d of session %d ended, the session has %d data sockets open for %d streams", float64(m.Bound)/1e9, r.ID, st.Sess.Tag, open, act)
		}
	})
}

// ---------------------------------------------------------------- data packets

func i16(b byte) (byte, byte) { v := b - 128; return v, v }

func (m *Monitor) onUDP(u *simnet.UDPConn, to *simnet.UDPAddr, b []byte, err error) {
	if u.Proc != m.Proc {
		return
	}
	m.tick()
	g := simrt.Current()
	var st *Stream
	for x := g; x != nil && st == nil; x = x.Parent {
		st = m.pumps[x]
		if st == nil && strings.HasPrefix(x.Name, "rtl-read") {
			id, _ := strconv.Atoi(x.Name[len("rtl-read"):])
			if id > 0 && id <= len(m.H.Reads) {
				st = m.strm[m.H.Reads[id-1]]
				if st != nil {
					m.pumps[x] = st
				}
			}
		}
	}
	if st == nil {
		if s := m.byTag[g.Tag]; s != nil && len(s.Streams) > 0 {
			st = s.Streams[len(s.Streams)-1]
		}
	}
	if st == nil {
		m.violate("S05", "stray-packet", "a data packet was sent to %s though no stream was ever started", to)
		return
	}
	m.S.Probe("packets")
	s := st.Sess
	if st.StopAt != 0 {
		m.violate("S05", "packet-after-stop", "session %d: a packet of read %d was sent after the session was told that the stream has stopped (%q)", s.Tag, st.R.ID, st.Answered)
	}
	if st.bad {
		return
	}
	fail := func(class, f string, a ...any) {
		st.bad = true
		if (class == "flags" || class == "sequence") && st.n == 0 {
			m.violate("S05", "not-afresh", "session %d, read %d: the first packet of the stream: %s", s.Tag, st.R.ID, fmt.Sprintf(f, a...))
		}
		m.violate("S04", class, "session %d, read %d, packet %d: %s", s.Tag, st.R.ID, st.n, fmt.Sprintf(f, a...))
	}
	if st.Dest != "" && to.String() != st.Dest {
		fail("destination", "sent to %s, the destination at GO was %s", to, st.Dest)
		return
	}
	if len(b) < 4 {
		fail("short-packet", "%d bytes", len(b))
		return
	}
	// a retry of a packet whose sending failed is not a new packet
	if st.lastErr != nil && string(st.lastErr.Data) == string(b) && err == nil {
		st.lastErr = nil
		return
	}
	flags := byte(0)
	if st.n == 0 {
		flags = 0x10
	}
	if b[0] != flags {
		fail("flags", "flags are %#02x, expected %#02x", b[0], flags)
		return
	}
	if b[1] != 0 {
		fail("header", "second byte is %#02x", b[1])
		return
	}
	if seq := int(b[2]) | int(b[3])<<8; seq != st.seq&0xffff {
		fail("sequence", "sequence number %d, expected %d", seq, st.seq&0xffff)
		return
	}
	if st.seq > 0xffff {
		m.S.Probe("sequence_wrapped")
	}
	p := b[4:]
	if len(p)%4 != 0 {
		fail("length", "payload of %d bytes is not a number of samples", len(p))
		return
	}
	if len(p) > MaxPacketSamples*4 {
		fail("length", "payload of %d samples exceeds the announced %d", len(p)/4, MaxPacketSamples)
		return
	}
	if st.off+len(p)/2 > len(st.R.Bytes) {
		fail("invented", "carries bytes %d..%d, but the tuner has delivered %d", st.off, st.off+len(p)/2, len(st.R.Bytes))
		return
	}
	for i := 0; i < len(p)/2; i++ {
		lo, hi := i16(st.R.Bytes[st.off+i])
		if p[2*i] != lo || p[2*i+1] != hi {
			fail("payload", "value %d is %02x%02x, the tuner's byte %d is %02x (expected %02x%02x)", i, p[2*i], p[2*i+1], st.off+i, st.R.Bytes[st.off+i], lo, hi)
			return
		}
	}
	if m.OnPacket != nil {
		m.OnPacket(st, b, err, st.seq, st.off)
	}
	st.off += len(p) / 2
	st.seq++
	st.n++
	st.lastErr = nil
	if err != nil {
		st.lastErr = &Datagram{Data: b}
	}
}

// complete checks that what the callback accepted has been sent.
func (m *Monitor) complete(st *Stream, upto int, when string) {
	if st.bad {
		return
	}
	if st.off < upto {
		st.bad = true
		m.violate("S04", "lost", "session %d, read %d: %s only %d of the %d bytes the tuner had delivered were sent", st.Sess.Tag, st.R.ID, when, st.off, upto)
	}
}

func (st *Stream) accepted() int {
	if n := len(st.R.Cuts); n > 0 {
		return st.R.Cuts[n-1]
	}
	return 0
}

// acceptedBy is what had been accepted at a time.
func (st *Stream) acceptedBy(ns int64) int {
	for i := len(st.R.Cuts) - 1; i >= 0; i-- {
		if st.R.CutNS[i] <= ns {
			return st.R.Cuts[i]
		}
	}
	return 0
}

// Settled checks completeness of every stream that has been running undisturbed. What was accepted in the last
// second may still be under way inside the server.
func (m *Monitor) Settled() {
	if m.Proc.Dead {
		return
	}
	for _, s := range m.Sess {
		for _, st := range s.Streams {
			if st.LastReq == 0 && !s.Ended {
				m.complete(st, st.acceptedBy(m.S.Now()-1e9), "with the stream running,")
			}
		}
	}
}

// ---------------------------------------------------------------- replies

func (m *Monitor) window(l *Line, s *Sess) int64 {
	ws := l.ReadAt
	if ws < 0 {
		ws = l.SentAt
	}
	if s.LastDone > ws {
		ws = s.LastDone
	}
	return ws
}

func (m *Monitor) callsIn(tag int, from int64, op string) (ok, failed []rtl.Call) {
	for i := len(m.calls) - 1; i >= 0 && m.calls[i].clk > from; i-- {
		c := m.calls[i].c
		if c.Tag == tag && c.Op == op {
			if c.Err {
				failed = append(failed, c)
			} else {
				ok = append(ok, c)
			}
		}
	}
	return
}

// Applied reports whether, of the successful calls of op by a session since a moment, the last set value.
func (m *Monitor) Applied(s *Sess, from int64, op string, value float64) (last int64, any, applied bool) {
	ok, _ := m.callsIn(s.Tag, from, op)
	if len(ok) == 0 {
		return 0, false, false
	}
	last = ok[0].Arg
	return last, true, last == int64(math.Floor(value)) || last == int64(math.Ceil(value))
}

func (m *Monitor) held(s *Sess) *rtl.Tuner {
	for _, t := range m.H.Tuners {
		if t.Cur != nil && t.Cur.Tag == s.Tag {
			return t
		}
	}
	return nil
}

// heldAt reports whether the session held a tuner at a clock.
func (m *Monitor) heldAt(s *Sess, at int64) bool {
	for _, u := range m.use {
		if u.tag == s.Tag && u.from <= at && (u.to == 0 || u.to > at) {
			return true
		}
	}
	return false
}

func (m *Monitor) lostIn(t *rtl.Tuner, from int64) bool {
	if t == nil {
		return false
	}
	if t.Lost {
		return true
	}
	for _, c := range m.GoneAt[t] {
		if c >= from {
			return true
		}
	}
	return false
}

func (m *Monitor) reply(s *Sess, line string) {
	m.S.Event("reply", s.Tag, line)
	if !s.Greeted {
		s.Greeted = true
		if line != "DEVICE -" {
			m.violate("S03", "greeting", "session %d: the first line is %q, not \"DEVICE -\"", s.Tag, line)
		}
		return
	}
	if s.replied >= len(s.Lines) {
		if !s.Over && s.Cli.Open() {
			m.violate("S03", "extra-reply", "session %d: %q answers no command", s.Tag, line)
		}
		return
	}
	l := s.Lines[s.replied]
	s.replied++
	l.Reply, l.Done = line, m.clk
	l.WS = m.window(l, s)
	s.LastDone = m.clk
	if l.Over {
		s.DestAny = true
		return
	}
	m.S.Probe("replies")
	word := line
	rest := ""
	if i := strings.IndexByte(line, ' '); i >= 0 {
		word, rest = line[:i], line[i+1:]
	}
	if word != l.Word && word != strings.ToUpper(l.Text[:min(len(l.Text), max(0, strings.IndexAny(l.Text+" ", " \t")))]) {
		m.violate("S03", "reply-word", "session %d: %q was answered with %q", s.Tag, clip(l.Text), clip(line))
		return
	}
	switch l.Word {
	case "GO":
		m.replyGo(s, l, rest)
	case "STOP":
		m.replyStop(s, l, rest)
	case "DEVICE":
		m.replyDevice(s, l, rest)
	case "FREQ", "RATE", "GAIN":
		m.replyValue(s, l, rest)
	case "ANTENNA":
		m.replyAntenna(s, l, rest)
	case "DEST":
		m.replyDest(s, l, rest)
	default:
		if rest != "UNKNOWN" && !strings.HasPrefix(rest, "UNKNOWN ") {
			m.violate("S03", "unknown", "session %d: the unknown command %q was answered with %q", s.Tag, clip(l.Text), clip(line))
		}
	}
	// coverage: abstract state at each reply
	var act uint64
	if m.activeAt(s, m.clk) == yes {
		act = 1
	}
	h := uint64(0)
	if m.held(s) != nil {
		h = 1
	}
	inuse := uint64(0)
	for _, t := range m.H.Tuners {
		if t.Cur != nil {
			inuse++
		}
	}
	first := rest
	if i := strings.IndexByte(rest, ' '); i >= 0 {
		first = rest[:i]
	}
	if l.Word == "DEVICE" && strings.Contains(rest, "|") {
		first = "granted"
	}
	if len(first) > 0 && (first[0] >= '0' && first[0] <= '9' || len(first) > 8) {
		first = "value"
	}
	w := l.Word
	switch w {
	case "GO", "STOP", "DEVICE", "FREQ", "RATE", "GAIN", "ANTENNA", "DEST":
	default:
		w = "?"
	}
	m.S.State(hashStr(w), hashStr(first), act, h, inuse, uint64(len(m.H.Tuners)), uint64(min(len(s.Streams), 3)))
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type tri int

const (
	no tri = iota
	yes
	maybe
)

// activeAt: is a stream of the session running, as far as the server can know, at a clock?
func (m *Monitor) activeAt(s *Sess, at int64) tri {
	res := no
	for _, st := range s.Streams {
		if st.Start > at || st.StopAt != 0 && st.StopAt <= at {
			continue
		}
		if st.R.SyncFail { // the server was told at once
			continue
		}
		if st.R.Failed || st.R.Aborted || m.lostIn(st.R.Tuner, st.Start) {
			if st.EndAt != 0 && st.EndAt < at && m.notified(st, at) {
				continue
			}
			res = maybe
			continue
		}
		if st.EndAt != 0 && st.EndAt <= at {
			continue
		}
		return yes
	}
	return res
}

// notified: the end of a dead stream has certainly reached the server (a second has passed).
func (m *Monitor) notified(st *Stream, at int64) bool {
	return st.EndNS != 0 && m.nsAt(at) > st.EndNS+1e9
}

func (m *Monitor) nsAt(at int64) int64 {
	// replies and windows are evaluated now or shortly before; use the time of the latest line read
	return m.S.Now() - 1e8
}

func (m *Monitor) replyGo(s *Sess, l *Line, rest string) {
	var started []*Stream
	for _, st := range s.Streams {
		if st.Start > l.WS {
			started = append(started, st)
		}
	}
	before, now := m.activeAt(s, l.WS), m.activeAt(s, m.clk)
	held := m.heldAt(s, l.WS) || m.held(s) != nil
	var t *rtl.Tuner
	if t = m.held(s); t == nil && len(s.Streams) > 0 {
		t = s.Streams[len(s.Streams)-1].R.Tuner
	}
	_, resetF := m.callsIn(s.Tag, l.WS, "reset")
	fault := len(resetF) > 0 || m.lostIn(t, l.WS)
	for _, st := range started {
		fault = fault || st.R.Failed
	}
	for _, c := range m.udpF {
		fault = fault || c > l.WS
	}
	if strings.HasPrefix(s.Dest, "192.0.2.") || strings.HasPrefix(s.Dest, "255.255.255.255") || s.DestAny {
		fault = true
	}
	f := strings.Fields(rest)
	word := ""
	if len(f) > 0 {
		word = f[0]
	}
	for _, st := range started {
		st.Answered = word
	}
	bad := func(class, why string) {
		m.violate("S05", class, "session %d: GO was answered %q, but %s", s.Tag, rest, why)
	}
	if !held {
		if word != "DEVICE" && word != "FAIL" {
			bad("go-without-tuner", "the session holds no tuner")
		}
		if len(started) > 0 {
			bad("go-without-tuner", "a hardware read was started without a tuner")
		}
		return
	}
	switch word {
	case "OK":
		m.S.Probe("go_ok")
		ran := 0
		for _, st := range started {
			if !st.R.SyncFail {
				ran++
			}
		}
		if ran != 1 {
			bad("go-ok-not-started", fmt.Sprintf("%d hardware reads were started for it", ran))
		}
		if before == yes && len(started) == 0 {
			bad("go-ok-running", "the stream was already running")
		}
	case "RUNNING":
		m.S.Probe("go_running")
		if before == no && now == no && !fault {
			bad("go-running-idle", "no stream of the session is active")
		}
		if len(started) > 0 {
			bad("go-running-started", "a hardware read was started for it")
		}
	case "FAIL":
		m.S.Probe("go_fail")
		if !fault {
			bad("go-fail", "there was a destination and a tuner and nothing failed")
		}
		for _, st := range started {
			if !st.R.Failed {
				st.StopAt = m.clk
				if st.R.Active() && !m.lostIn(st.R.Tuner, l.WS) {
					// it may still be cancelling; it must not send anything (StopAt)
					m.S.Probe("go_fail_after_start")
				}
			}
		}
		if before == yes && len(started) == 0 && !fault {
			bad("go-fail", "the stream is running")
		}
	case "DEVICE":
		if !m.lostIn(t, l.WS) {
			bad("go-device", "the session holds a tuner")
		}
	default:
		bad("go-reply", "that is no reply to GO")
	}
}

func (m *Monitor) stopStreams(s *Sess, l *Line) {
	for _, st := range s.Streams {
		if st.StopAt == 0 {
			st.StopAt = m.clk
			if !m.lostIn(st.R.Tuner, st.Start) && !st.R.Aborted {
				// everything the server accepted before the client asked to stop has been sent
				n := 0
				for _, c := range st.R.Cuts {
					n = c
				}
				if st.LastReq != 0 {
					n = min(n, st.accepted())
				}
				m.complete(st, n, "when it was stopped")
			}
		}
	}
}

func (m *Monitor) replyStop(s *Sess, l *Line, rest string) {
	before, now := m.activeAt(s, l.WS), m.activeAt(s, m.clk)
	f := strings.Fields(rest)
	word := ""
	if len(f) > 0 {
		word = f[0]
	}
	switch word {
	case "OK":
		m.S.Probe("stop_ok")
		if before == no && now == no {
			m.violate("S05", "stop-ok-idle", "session %d: STOP was answered OK, but no stream was active", s.Tag)
		}
	case "STOPPED":
		m.S.Probe("stop_stopped")
		if before == yes && now == yes {
			m.violate("S05", "stop-stopped-running", "session %d: STOP was answered STOPPED, but a stream is active", s.Tag)
		} else if before == yes {
			// it may have died on its own only if its tuner did
			for _, st := range s.Streams {
				if st.StopAt == 0 && st.EndAt > l.WS && st.R.Stopped {
					m.violate("S05", "stop-stopped-running", "session %d: STOP was answered STOPPED, but it ended an active stream", s.Tag)
				}
			}
		}
	default:
		m.violate("S05", "stop-reply", "session %d: STOP was answered %q", s.Tag, rest)
		return
	}
	m.stopStreams(s, l)
}

func near(a, b float64) bool { return math.Abs(a-b) <= math.Max(1e-5, 1e-12*math.Abs(b)) }

func (m *Monitor) replyDevice(s *Sess, l *Line, rest string) {
	hint := "-"
	if len(l.Args) > 0 {
		hint = l.Args[0]
	}
	switch hint {
	case "!":
		if rest != "-" {
			m.violate("S06", "release-reply", "session %d: \"DEVICE !\" was answered %q", s.Tag, rest)
		}
		if t := m.held(s); t != nil {
			m.violate("S01", "not-released", "session %d: tuner %d is still open after \"DEVICE !\" was answered", s.Tag, t.Idx)
		}
		m.stopStreams(s, l)
	case "-":
		m.stopStreams(s, l)
		if strings.HasPrefix(rest, "-") {
			m.S.Probe("select_refused")
			if t := m.held(s); t != nil {
				m.violate("S01", "refused-but-held", "session %d was refused a tuner but tuner %d is open on its behalf", s.Tag, t.Idx)
			}
			for _, t := range m.H.Tuners {
				if !m.unavailable(t, s.Tag, l.WS) {
					m.violate("S01", "refused-free", "session %d was refused a tuner although tuner %d was free all the time and opening it did not fail", s.Tag, t.Idx)
					break
				}
			}
			return
		}
		m.S.Probe("select_granted")
		t := m.held(s)
		if t == nil {
			m.violate("S01", "granted-not-open", "session %d was granted %q but no tuner is open on its behalf", s.Tag, clip(rest))
			return
		}
		m.checkDescription(s, l, t, rest)
	default:
		if !strings.HasPrefix(rest, "-") {
			m.violate("S06", "hint", "session %d: unknown hint %q was answered %q", s.Tag, hint, clip(rest))
		}
	}
}

// unavailable: some other session had the tuner, or opening it failed, at some moment since from.
func (m *Monitor) unavailable(t *rtl.Tuner, tag int, from int64) bool {
	if m.lostIn(t, from) {
		return true
	}
	for _, u := range m.use {
		if u.t == t && u.tag != tag && (u.to == 0 || u.to >= from) {
			return true
		}
	}
	for i := len(m.calls) - 1; i >= 0 && m.calls[i].clk > from; i-- {
		if c := m.calls[i].c; c.Op == "open" && c.Tuner == t && (c.Err || c.Tag != tag) {
			return true
		}
	}
	return t.Cur != nil && t.Cur.Tag != tag || m.changingHands(t, tag, from)
}

// failedOpen reports whether a session failed to open the tuner in a part of the run.
func (m *Monitor) failedOpen(t *rtl.Tuner, tag int, from, to int64) bool {
	for i := len(m.calls) - 1; i >= 0 && m.calls[i].clk > from; i-- {
		if c := m.calls[i].c; c.Op == "open" && c.Tuner == t && c.Tag == tag && c.Err && m.calls[i].clk <= to {
			return true
		}
	}
	return false
}

// changingHands reports whether some other session may have been taking or giving back the tuner since a moment:
// its selection was under way or, having held the tuner, its end.
func (m *Monitor) changingHands(t *rtl.Tuner, tag int, from int64) bool {
	held := map[int]useRec{}
	for _, u := range m.use {
		if u.t == t {
			held[u.tag] = u
		}
	}
	for _, o := range m.Sess {
		if o.Tag == tag {
			continue
		}
		if o.ServerClosed != 0 && o.ServerClosed < from && m.closerDone(held[o.Tag]) {
			continue
		}
		_, had := held[o.Tag]
		for i := len(o.Lines) - 1; i >= 0; i-- {
			l := o.Lines[i]
			if l.Done != 0 && l.Done < from {
				break
			}
			if l.ReadAt >= 0 && l.Word == "DEVICE" && (l.Done == 0 || had || !strings.HasPrefix(l.Reply, "DEVICE - ") || m.failedOpen(t, o.Tag, l.WS, l.Done)) {
				return true
			}
		}
		if had && o.Ended {
			return true
		}
	}
	return false
}

func (m *Monitor) closerDone(u useRec) bool { return u.closer == nil || u.closer.Done() }

func (m *Monitor) checkDescription(s *Sess, l *Line, t *rtl.Tuner, rest string) {
	p := strings.Split(rest, "|")
	bad := func(f string, a ...any) {
		m.violate("S06", "description", "session %d: %s in %q", s.Tag, fmt.Sprintf(f, a...), rest)
	}
	if len(p) < 7 {
		bad("fewer than 7 fields")
		return
	}
	if p[0] != t.Name {
		m.violate("S01", "wrong-tuner", "session %d was told it has %q but tuner %q is open on its behalf", s.Tag, p[0], t.Name)
	}
	num := func(i int) float64 {
		v, err := strconv.ParseFloat(p[i], 64)
		if err != nil {
			bad("field %d is not a number", i)
			return math.NaN()
		}
		return v
	}
	mn, mx, st, fq := num(1), num(2), num(3), num(4)
	_, gf := m.callsIn(s.Tag, l.WS, "getgains")
	_, xf := m.callsIn(s.Tag, l.WS, "getxtal")
	wmin, wmax, wst := 0.0, 1.0, 1.0
	g := t.Gains
	lost := m.lostIn(t, l.WS)
	switch {
	case len(gf) > 0 || lost && mn == 0 && mx == 1 && st == 1:
	case len(g) == 0:
		wst = 1
		wmin, wmax = mn, mx
	case len(g) == 1:
		wmin, wmax = float64(g[0]), float64(g[0])
	default:
		wmin, wmax, wst = float64(g[0]), float64(g[len(g)-1]), float64(g[1]-g[0])
	}
	if mn != wmin || mx != wmax || st != wst {
		bad("gains are %v, %v, %v, expected %v, %v, %v", mn, mx, st, wmin, wmax, wst)
	}
	wx := float64(t.XtalTuner)
	if len(xf) > 0 || lost && fq == 0 {
		wx = 0
	}
	if fq != wx {
		bad("tuner frequency %v, expected %v", fq, wx)
	}
	if p[5] != strconv.Itoa(MaxPacketSamples) {
		bad("%s samples per packet", p[5])
	}
	if p[6] == "" {
		bad("no antenna")
	}
	for _, x := range []struct {
		op  string
		arg int64
		is  bool
	}{{"setfreq", 144100000, true}, {"setrate", 1000000, true}, {"setagc", 0, !t.AGC}} {
		ok, f := m.callsIn(s.Tag, l.WS, x.op)
		hit := false
		for _, c := range append(ok, f...) {
			hit = hit || c.Arg == x.arg
		}
		if len(ok) > 0 && ok[0].Arg != x.arg { // the last one wins
			hit = false
		}
		if !hit && !lost {
			m.violate("S06", "defaults", "session %d: %s(%d) was not called when tuner %d was selected", s.Tag, x.op, x.arg, t.Idx)
		}
	}
}

var valueOps = map[string][2]string{"FREQ": {"setfreq", "getfreq"}, "RATE": {"setrate", "getrate"}, "GAIN": {"setgain", "getgain"}}

func actual(t *rtl.Tuner, w string) int64 {
	switch w {
	case "FREQ":
		return int64(t.Freq)
	case "RATE":
		return int64(t.Rate)
	}
	return int64(t.Gain)
}

// form of a numeric argument
func numForm(a string) (v float64, clear, garbage bool) {
	v, err := strconv.ParseFloat(a, 64)
	if err != nil {
		return 0, false, true
	}
	clear = true
	dots := 0
	for i, c := range a {
		switch {
		case c >= '0' && c <= '9':
		case c == '-' && i == 0 && len(a) > 1:
		case c == '.':
			dots++
		default:
			clear = false
		}
	}
	return v, clear && dots <= 1 && math.Abs(v) < 9e15, false
}

func (m *Monitor) replyValue(s *Sess, l *Line, rest string) {
	ops := valueOps[l.Word]
	t := m.held(s)
	f := strings.Fields(rest)
	word := ""
	if len(f) > 0 {
		word = f[0]
	}
	bad := func(class, why string, a ...any) {
		m.violate("S06", class, "session %d: %q was answered %q: %s", s.Tag, l.Text, l.Reply, fmt.Sprintf(why, a...))
	}
	if t == nil {
		if word != "DEVICE" {
			bad("no-tuner", "the session has no tuner")
		}
		return
	}
	if word == "DEVICE" && !m.lostIn(t, l.WS) {
		bad("tuner-denied", "the session holds tuner %d", t.Idx)
		return
	}
	lost := m.lostIn(t, l.WS)
	_, sf := m.callsIn(s.Tag, l.WS, ops[0])
	_, gf := m.callsIn(s.Tag, l.WS, ops[1])
	failed := len(sf) > 0 || len(gf) > 0 || lost
	if len(l.Args) == 0 {
		if word == "-" {
			if !failed {
				bad("query-failed", "nothing failed")
			}
			return
		}
		if len(gf) > 0 {
			bad("query-lie", "the tuner operation failed")
			return
		}
		v, err := strconv.ParseInt(word, 10, 64)
		if err != nil || v != actual(t, l.Word) {
			bad("query-value", "the tuner has %d", actual(t, l.Word))
		}
		m.S.Probe("queries_checked")
		return
	}
	req, clear, garbage := numForm(l.Args[0])
	switch word {
	case "OK":
		m.S.Probe("settings_checked")
		if garbage {
			bad("malformed-accepted", "the argument is no number")
			return
		}
		if len(sf) > 0 || len(gf) > 0 {
			bad("set-lie", "the tuner operation failed")
			return
		}
		ai := 1
		if l.Word == "FREQ" {
			ai = 2
		}
		if len(f) <= ai {
			bad("set-reply", "the actual value is missing")
			return
		}
		v, err := strconv.ParseInt(f[ai], 10, 64)
		if err != nil || v != actual(t, l.Word) {
			bad("set-value", "the tuner has %d", actual(t, l.Word))
			return
		}
		if l.Word == "FREQ" {
			r, err := strconv.ParseFloat(f[1], 64)
			if err != nil || clear && !near(r, req) {
				bad("set-value", "the requested value was %v", req)
			}
			for _, z := range f[3:] {
				if x, err := strconv.ParseFloat(z, 64); err != nil || x != 0 {
					bad("set-reply", "trailing value %q", z)
				}
			}
			if len(f) != 5 {
				bad("set-reply", "expected four values")
			}
		}
		if clear {
			ok, _ := m.callsIn(s.Tag, l.WS, ops[0])
			lo, hi := int64(math.Floor(req)), int64(math.Ceil(req))
			if len(ok) == 0 {
				bad("set-not-applied", "the tuner was not set")
			} else if a := ok[0].Arg; a != lo && a != hi {
				bad("set-not-applied", "the tuner was set to %d", a)
			}
		}
	case "FAIL":
		if clear && !failed && (req >= 1 && req <= math.MaxUint32 || l.Word == "GAIN") {
			bad("set-refused", "nothing failed")
		}
		for _, c := range sf { // the tuner refused: was it asked for what the client asked for?
			if clear && (req >= 0 && req <= math.MaxUint32 || l.Word == "GAIN") && c.Arg != int64(math.Floor(req)) && c.Arg != int64(math.Ceil(req)) {
				bad("set-not-applied", "the tuner was asked for %d", c.Arg)
			}
		}
	case "-":
		bad("set-reply", "a setting is answered OK or FAIL")
	default:
		bad("set-reply", "no such reply")
	}
}

func (m *Monitor) replyAntenna(s *Sess, l *Line, rest string) {
	t := m.held(s)
	f := strings.Fields(rest)
	word := ""
	if len(f) > 0 {
		word = f[0]
	}
	bad := func(why string) {
		m.violate("S06", "antenna", "session %d: %q was answered %q: %s", s.Tag, l.Text, l.Reply, why)
	}
	if t == nil {
		if word != "DEVICE" {
			bad("the session has no tuner")
		}
		return
	}
	if len(l.Args) == 0 {
		if rest != "default" {
			bad("not an advertised antenna")
		}
		return
	}
	if l.Args[0] == "default" && word != "OK" {
		bad("an advertised antenna is refused")
	} else if word != "OK" && word != "FAIL" {
		bad("no such reply")
	}
}

func (m *Monitor) replyDest(s *Sess, l *Line, rest string) {
	bad := func(class, why string) {
		m.violate("S06", class, "session %d: %q was answered %q: %s", s.Tag, l.Text, l.Reply, why)
	}
	if len(l.Args) == 0 {
		if s.DestAny {
			return
		}
		if rest != s.Dest {
			bad("dest-query", "the destination is "+s.Dest)
		}
		return
	}
	a := l.Args[0]
	addr, state := m.resolve(a)
	f := strings.Fields(rest)
	word := ""
	if len(f) > 0 {
		word = f[0]
	}
	switch {
	case word == "OK" && state == no:
		bad("dest-accepted", "the address cannot be resolved")
	case word == "OK":
		if state == maybe {
			s.DestAny = true
			break
		}
		s.Dest, s.DestAny = addr, false
		if len(f) > 1 && f[1] != addr {
			bad("dest-reply", "the address is "+addr)
		}
	case word == "FAIL":
		if state == yes {
			bad("dest-refused", "the address resolves to "+addr)
		}
	default:
		bad("dest-reply", "no such reply")
	}
}

// resolve is the model's idea of an address: yes, no or unspecified.
func (m *Monitor) resolve(a string) (string, tri) {
	host, port, err := simnet.SplitHostPort(a)
	if err != nil {
		return "", no
	}
	p, err := strconv.Atoi(port)
	if err != nil {
		if port == "" {
			return "", maybe
		}
		return "", no
	}
	if p < 0 || p > 65535 {
		return "", no
	}
	if p == 0 || host == "" {
		return "", maybe
	}
	if ip := simnet.ParseIP(host); ip != nil {
		return (&simnet.UDPAddr{IP: ip, Port: p}).String(), yes
	}
	if strings.Contains(host, "%") {
		return "", maybe
	}
	if ip, ok := m.N.DNS[host]; ok {
		return (&simnet.UDPAddr{IP: simnet.ParseIP(ip), Port: p}).String(), yes
	}
	return "", no
}
