package bserver

import (
	"fmt"
	"strconv"
	"strings"

	server "github.com/samuel/go-dsp/boripserver"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-rtlsdr/rtl"
	"verif/sim/harness"
	simnet "verif/sim/simlib/net"
	simtime "verif/sim/simlib/time"
	"verif/sim/simrt"
)

// ServerIP and Port are where the simulated server lives.
const (
	ServerIP = "10.0.0.1"
	Port     = 28888
)

// StartServer starts the real server program as a simulated process.
func StartServer(s *simrt.Sim) *simrt.Proc {
	p := &simrt.Proc{Name: "boripserver", IP: ServerIP, Env: map[string]any{"args": []string{"boripserver"}}}
	s.Spawn(p, "main", func() {
		s.Quiet(func() {
			dsp.SimReset()
			server.SimReset()
		})
		server.SimMain()
		simrt.Exit(0)
	})
	return p
}

// Tuners draws the simulated hardware.
func Tuners(src *simrt.Src, n int) []*rtl.Tuner {
	W := src.W
	tables := [][]int{
		{0, 9, 14, 27, 37, 77, 87, 125, 144, 157, 166, 197, 207, 229, 254, 280, 297, 328, 338, 364, 372, 386, 402, 421, 434, 439, 445, 480, 496},
		{-99, -40, 71, 179, 192}, {-10, 15, 40, 65, 90}, {}, {25}, {-30}, {5, 10},
	}
	var out []*rtl.Tuner
	for i := 0; i < n; i++ {
		t := &rtl.Tuner{Idx: i, Name: fmt.Sprintf("RTL2838UHIDIR-%d", i), XtalRTL: 28800000, FreqMax: 1766000000, RateMax: 3200000, Rate: 2048000, Freq: 100000000}
		t.Gains = tables[W.N(len(tables))]
		t.XtalTuner = []uint{28800000, 16000000, 0, 28799999}[W.N(4)]
		t.FreqStep = []uint{1, 1000, 250}[W.N(3)]
		t.RateStep = []uint{1, 100, 3}[W.N(3)]
		t.GainSnap = W.Chance(1, 2)
		t.FreqMax = []uint{1766000000, 2200000000, 4000000000}[W.N(3)]
		if len(t.Gains) > 0 {
			t.Gain = t.Gains[W.N(len(t.Gains))]
		}
		if W.Chance(1, 4) {
			t.AGC = true
		}
		out = append(out, t)
	}
	return out
}

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

// Faults draws the fault rates of a run (all zero in a fault-free run).
func Faults(src *simrt.Src, n *simnet.Network, h *rtl.Hardware) bool {
	W := src.W
	lat := []int64{50_000, 1_000, 2_000_000, 20_000_000}[W.N(4)]
	n.P.LatMin, n.P.LatMax = lat/10, lat
	h.P.Pace = []int64{16e6, 2e6, 40e6, 300e3}[W.N(4)]
	h.P.ChunkMax = pick(W, 64, 8192, 8194, 16384, 2, 512, 24576, 32768)
	h.P.MaxBytes = pick(W, 1<<15, 1<<12, 1<<17)
	h.P.CancelLat = int64(pick(W, 0, 1_000_000, 30_000_000))
	h.P.OpenDelay = int64(pick(W, 0, 100_000, 30_000_000))
	h.P.NilAfterTrue = W.Chance(1, 2)
	h.P.NilBefore = W.Chance(1, 2)
	h.P.CloseWaits = W.Chance(1, 2)
	if W.Chance(1, 5) {
		return false
	}
	on := func(v ...int) int {
		if !W.Chance(1, 2) {
			return 0
		}
		return pick(W, v...)
	}
	n.P.Frag = on(100, 500, 1000)
	n.P.ShortRead = on(100, 500, 900)
	n.P.Window = pick(W, 65536, 65536, 200, 64)
	n.P.AcceptErr = on(50, 300)
	n.P.UDPDialErr = on(30, 200)
	n.P.UDPSendErr = on(20, 200)
	n.P.ICMP = W.Chance(1, 2)
	n.P.Loss = on(50)
	n.P.Dup = on(50)
	n.P.Reorder = on(50)
	h.P.CallErr = on(20, 100, 400)
	h.P.OpenErr = on(50, 300)
	h.P.StartFail = on(50, 300)
	h.P.SyncFail = on(50, 300)
	h.P.Abort = on(10, 50, 300)
	h.P.CloseErr = on(100, 500)
	h.P.Short = on(100, 500)
	h.P.Empty = on(50)
	h.P.Stall = on(20)
	return true
}

// Calm ends all faults.
func Calm(n *simnet.Network, h *rtl.Hardware) {
	n.P.Frag, n.P.ShortRead, n.P.AcceptErr, n.P.UDPDialErr, n.P.UDPSendErr, n.P.Loss, n.P.Dup, n.P.Reorder = 0, 0, 0, 0, 0, 0, 0, 0
	n.P.ICMP = false
	n.P.Window = 65536
	h.P.CallErr, h.P.OpenErr, h.P.StartFail, h.P.Short, h.P.Empty, h.P.Stall = 0, 0, 0, 0, 0, 0
	h.P.SyncFail, h.P.Abort, h.P.CloseErr = 0, 0, 0
}

// ---------------------------------------------------------------- clients

type opKind int

const (
	opLine   opKind = iota // send text and wait for the reply
	opAsync                // send text without waiting
	opRaw                  // send raw bytes, no newline
	opSleep                // let time pass
	opSettle               // let 2 s pass and check completeness of running streams
	opSync                 // wait for all replies
)

type op struct {
	k    opKind
	text string
	d    int64
	cuts []int // positions at which the bytes are split, with a pause between
	gap  int64
}

type endKind int

const (
	endFIN endKind = iota
	endRST
	endCut
	endHalf
	endFailWrites
	endPartial // FIN in the middle of a line
	endStay    // stays idle to the end of the run
	endCount
)

type script struct {
	start int64
	ops   []op
	end   endKind
	early int64 // the end comes at this time after connecting even if the script is not through (0: no)
	read  int   // 0 reads at once, 1 slowly, 2 never
}

type profile struct {
	weights  map[string]int
	clients  int
	sessions int
	ops      int
	early    int // per cent of sessions that end at an arbitrary time
	pipe     int // per cent of asynchronous sends
}

var profiles = map[string]profile{
	"S01": {map[string]int{"sel": 30, "rel": 14, "go": 6, "stop": 3, "set": 4, "q": 2, "junk": 1, "dest": 1, "sleep": 8, "ant": 1}, 5, 3, 10, 30, 20},
	"S02": {map[string]int{"sel": 20, "rel": 6, "go": 20, "stop": 8, "set": 2, "q": 1, "junk": 1, "dest": 3, "sleep": 10, "ant": 1}, 4, 3, 8, 60, 20},
	"S03": {map[string]int{"sel": 15, "rel": 5, "go": 12, "stop": 8, "set": 10, "q": 8, "junk": 20, "dest": 5, "sleep": 6, "ant": 4}, 4, 2, 14, 35, 40},
	"S04": {map[string]int{"sel": 14, "rel": 3, "go": 24, "stop": 14, "set": 2, "q": 2, "junk": 1, "dest": 5, "sleep": 20, "ant": 1}, 3, 2, 12, 15, 15},
	"S05": {map[string]int{"sel": 12, "rel": 5, "go": 30, "stop": 26, "set": 1, "q": 1, "junk": 1, "dest": 3, "sleep": 10, "ant": 1}, 3, 2, 14, 25, 30},
	"S06": {map[string]int{"sel": 14, "rel": 4, "go": 4, "stop": 2, "set": 34, "q": 22, "junk": 1, "dest": 10, "sleep": 2, "ant": 8}, 3, 2, 20, 15, 20},
}

var opOrder = []string{"sel", "go", "stop", "rel", "set", "q", "ant", "dest", "junk", "sleep"}

func number(W *simrt.Stream, w string) string {
	var v []string
	switch w {
	case "FREQ":
		v = []string{"100000000", "144100000", "98500000.000000", "433920000.7", "1766000001", "24000999", "9.85e7", "1", "1090000000", "2147483648", "2150000001.5", "3999999999"}
	case "RATE":
		v = []string{"1000000", "2048000.000000", "250001", "3200001", "1234567.9", "2.4e6", "0"}
	case "GAIN":
		v = []string{"0", "10", "-10", "-99.000000", "496", "25.5", "-1", "1000", "-0.4", "3e1"}
	}
	if W.Chance(1, 5) {
		v = []string{"abc", "", "12abc", "1e400", "NaN", "-5", "0x10", "99999999999", "1,5", "+7", "--3", "-Inf", "1_000"}
		x := v[W.N(len(v))]
		if x == "" {
			return "x"
		}
		return x
	}
	return v[W.N(len(v))]
}

func caseMix(W *simrt.Stream, t string) string {
	switch W.Weighted(6, 1, 1) {
	case 1:
		i := strings.IndexByte(t+" ", ' ')
		return strings.ToLower(t[:i]) + t[i:]
	case 2:
		i := strings.IndexByte(t+" ", ' ')
		b := []byte(t)
		for j := 0; j < i; j += 2 {
			b[j] |= 0x20
		}
		return string(b)
	}
	return t
}

func junk(W *simrt.Stream) string {
	v := []string{"HELLO", "x", "GOO", "STO", "DEVICES -", "freq?", "\x00\x01\xff", "GO!", "é", "HEADER ON", "-", "!", "|", "STOPP", "FREQ=1", ".", "%s%d%n", "GETUP " + strings.Repeat("z", 60),
		strings.Repeat("A", 300), strings.Repeat("word ", 200) + "end", "B" + strings.Repeat(" -", 1500)}
	return v[W.N(len(v))]
}

func genText(W *simrt.Stream, kind string, ci, si int) string {
	switch kind {
	case "sel":
		return []string{"DEVICE -", "DEVICE", "DEVICE -", "DEVICE RTL", "DEVICE - extra"}[W.Weighted(10, 3, 0, 1, 1)]
	case "rel":
		return "DEVICE !"
	case "go":
		return []string{"GO", "GO now"}[W.Weighted(12, 1)]
	case "stop":
		return []string{"STOP", "STOP please"}[W.Weighted(12, 1)]
	case "set":
		w := []string{"FREQ", "RATE", "GAIN"}[W.N(3)]
		t := w + " " + number(W, w)
		if W.Chance(1, 12) {
			t += " 7"
		}
		return t
	case "q":
		return []string{"FREQ", "RATE", "GAIN"}[W.N(3)]
	case "ant":
		return []string{"ANTENNA", "ANTENNA default", "ANTENNA nosuch"}[W.N(3)]
	case "dest":
		k := W.Weighted(4, 6, 1, 1, 1, 1, 1)
		switch k {
		case 0:
			return "DEST"
		case 1:
			return fmt.Sprintf("DEST 10.7.%d.%d:%d", ci, si, 30000+W.N(8))
		case 2:
			return "DEST nohost.example:30000"
		case 3:
			return fmt.Sprintf("DEST host%d.example:%d", ci, 31000+W.N(8))
		case 4:
			return "DEST " + []string{"10.7.0.1", "10.7.0.1:99999", "10.7.0.1:xx", "junk", "[::1", "10.7.0:80:80"}[W.N(6)]
		case 5:
			return "DEST 192.0.2.9:30000" // resolvable, but there is no route to it
		default:
			return fmt.Sprintf("DEST [fd00::%d:%d]:30000", ci+1, si+1)
		}
	}
	return junk(W)
}

func genScript(src *simrt.Src, p profile, ci, si int) script {
	W := src.W
	var sc script
	sc.start = int64(W.N(4)) * int64(pick(W, 1e5, 1e7, 3e8))
	nops := W.N(p.ops + 1)
	ws := make([]int, len(opOrder))
	for i, k := range opOrder {
		ws[i] = p.weights[k]
	}
	pipe := W.Chance(p.pipe, 100)
	pre := W.Chance(1, 2) // begins with the ordinary sequence
	if pre {
		sc.ops = append(sc.ops, op{k: opLine, text: "DEVICE -\n"})
		if W.Chance(1, 2) {
			sc.ops = append(sc.ops, op{k: opLine, text: "GO\n"})
		}
	}
	async := 0
	for i := 0; i < nops; i++ {
		k := opOrder[W.Weighted(ws...)]
		if k == "sleep" {
			if W.Chance(1, 4) {
				sc.ops = append(sc.ops, op{k: opSettle})
			} else {
				sc.ops = append(sc.ops, op{k: opSleep, d: int64(1+W.N(1000)) * int64(pick(W, 1e6, 1e4, 1e3))})
			}
			continue
		}
		t := genText(W, k, ci, si)
		if k == "junk" && W.Chance(1, 6) {
			t = strings.Repeat(" ", W.N(3)) // a blank line
		} else if len(t) < 100 {
			t = caseMix(W, t)
		}
		t += []string{"\n", "\r\n", " \n", "\n\n"}[W.Weighted(12, 2, 1, 1)]
		if k == "junk" && W.Chance(1, 25) {
			t = strings.Repeat("L", 4096+W.N(3000)) + "\n"
		}
		o := op{k: opLine, text: t}
		if pipe && async < 7 && W.Chance(2, 3) {
			o.k = opAsync
			async++
		} else {
			async = 0
		}
		if W.Chance(1, 6) {
			for n := 1 + W.N(3); n > 0; n-- {
				o.cuts = append(o.cuts, 1+W.N(len(t)))
			}
			o.gap = int64(pick(W, 1e4, 1e6, 5e7))
		}
		sc.ops = append(sc.ops, o)
	}
	sc.end = endKind(W.Weighted(6, 4, 3, 3, 2, 2, 2))
	if W.Chance(p.early, 100) {
		sc.early = int64(1+W.N(1000)) * int64(pick(W, 1e4, 1e5, 1e6, 3e6))
	}
	sc.read = W.Weighted(16, 2, 1)
	return sc
}

// Client is a raw BorIP client.
type Client struct {
	S     *simrt.Sim
	M     *Monitor
	Proc  *simrt.Proc
	Conn  *simnet.TCPConn
	Sess  *Sess
	Lines []string // replies, the greeting first
	part  []byte
	q     simrt.WaitQ
	Done  bool // the reader has seen the end of the connection
	EOF   bool
	hold  bool
	slow  bool
	Prop  string
}

// Connect opens a session and starts its reader.
func Connect(s *simrt.Sim, m *Monitor, p *simrt.Proc, read int) *Client {
	a, _ := simnet.ResolveTCPAddr("tcp", ServerIP+":"+strconv.Itoa(Port))
	c, err := simnet.DialTCP("tcp", nil, a)
	if err != nil {
		if !m.Proc.Dead {
			m.violate(m.Prop, "not-serving", "the server process is alive but does not take connections: %v", err)
		}
		return nil
	}
	cl := &Client{S: s, M: m, Proc: p, Conn: c, Sess: m.sessOf(c.Peer()), hold: read == 2, slow: read == 1}
	s.Spawn(p, "reader", cl.reader)
	return cl
}

func (c *Client) reader() {
	buf := make([]byte, 512)
	for {
		for c.hold {
			simrt.Sleep(20e6)
			if c.Conn == nil || !c.Conn.Open() || c.Conn.Broken() {
				break
			}
		}
		b := buf
		if c.slow {
			simrt.Sleep(2e6)
			b = buf[:16]
		}
		n, err := c.Conn.Read(b)
		for _, x := range b[:n] {
			if x == '\n' {
				c.Lines = append(c.Lines, string(c.part))
				c.part = nil
			} else {
				c.part = append(c.part, x)
			}
		}
		if err != nil {
			c.Done = true
			c.q.WakeAll()
			return
		}
		c.q.WakeAll()
	}
}

// expected is the number of lines the server owes, greeting included.
func (c *Client) expected() int { return 1 + len(c.Sess.Lines) }

// Drain waits until every command is answered; it reports false if the connection is gone.
func (c *Client) Drain() bool {
	if c.hold {
		return true
	}
	dl := c.S.Now() + 10e9
	for len(c.Lines) < c.expected() {
		if c.Done || !c.Conn.Open() || c.M.Proc.Dead {
			return false
		}
		if !c.q.Wait("reply", dl-c.S.Now()) {
			if c.Sess.Over || c.Sess.Ended || c.Conn.Broken() {
				return false
			}
			c.M.noReply(c.Sess)
			return false
		}
	}
	return !c.Done && c.Conn.Open()
}

// Send writes bytes, optionally in pieces.
func (c *Client) Send(o op) {
	b := []byte(o.text)
	cuts := append([]int(nil), o.cuts...)
	for len(b) > 0 && c.Conn.Open() {
		if c.hold { // a client that never reads may find the server not reading either
			c.Conn.SetWriteDeadline(simtime.Now().Add(2 * simtime.Second))
		}
		n := len(b)
		if len(cuts) > 0 {
			n = min(cuts[0], n)
			cuts = cuts[1:]
		}
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if len(b) > 0 {
			simrt.Sleep(o.gap)
		}
	}
}

// Do sends a line and waits for its reply.
func (c *Client) Do(line string) string {
	c.Send(op{text: line + "\n"})
	if !c.Drain() {
		return ""
	}
	if len(c.Lines) == 0 {
		return ""
	}
	return c.Lines[len(c.Lines)-1]
}

func (m *Monitor) noReply(s *Sess) {
	if m.Proc.Dead {
		return
	}
	if !s.Greeted && len(s.Lines) == 0 {
		m.violate("S03", "no-reply", "session %d has not been greeted after 10 s", s.Tag)
		return
	}
	if s.replied >= len(s.Lines) {
		return
	}
	l := s.Lines[s.replied]
	if l.Over || s.Over {
		return
	}
	what := fmt.Sprintf("session %d: %q has not been answered after 10 s (%s)", s.Tag, clip(l.Text), m.S.TagDump(m.Proc, s.Tag))
	if !s.Greeted {
		what = fmt.Sprintf("session %d has not been greeted after 10 s", s.Tag)
	}
	m.violate("S03", "no-reply", "%s", what)
	switch l.Word {
	case "GO", "STOP":
		m.violate("S05", "no-reply", "%s", what)
	case "FREQ", "RATE", "GAIN", "ANTENNA", "DEST":
		m.violate("S06", "no-reply", "%s", what)
	case "DEVICE":
		m.violate("S01", "no-reply", "%s", what)
	}
}

func (c *Client) finish(end endKind) {
	m := c.M
	if !c.Conn.Open() {
		return
	}
	switch end {
	case endRST:
		c.Conn.Abort()
	case endCut:
		c.Conn.Cut()
		m.EndSession(c.Sess)
		c.S.After(3e9, func() {}) // keep time going
		simrt.Sleep(1e6)
		c.Conn.Close()
	case endHalf:
		c.S.Fault("tcp_half_close")
		c.Conn.CloseWrite()
		m.EndSession(c.Sess)
		for i := 0; i < 60 && !c.Done; i++ {
			simrt.Sleep(100e6)
		}
		c.Conn.Close()
	case endFailWrites:
		c.Conn.Peer().FailWrites(fmt.Errorf("broken pipe"))
		c.Send(op{text: "STOP\n"})
		for i := 0; i < 60 && !c.Done && c.Conn.Open(); i++ {
			simrt.Sleep(50e6)
		}
		c.Conn.Close()
	case endPartial:
		c.S.Fault("client_gone_mid_line")
		c.Conn.Write([]byte("FREQ 10000"))
		c.Conn.Close()
	default:
		c.Conn.Close()
	}
}

func (c *Client) run(sc *script) {
	alive := c.Drain()
	for i := range sc.ops {
		o := &sc.ops[i]
		if !alive || c.M.Proc.Dead || !c.Conn.Open() || c.M.stopping {
			return
		}
		switch o.k {
		case opLine:
			c.Send(*o)
			alive = c.Drain()
		case opAsync:
			c.Send(*o)
		case opSleep:
			simrt.Sleep(o.d)
		case opSettle:
			simrt.Sleep(2e9)
			c.M.Settled()
		}
	}
	if alive {
		c.Drain()
	}
}

// patient makes clients pause for long between commands.
func patient(s *simrt.Sim, scripts [][]script) {
	W := s.Src.W
	s.Probe("patient_clients")
	quiet := W.Chance(1, 2) // no streams, so that a day costs nothing
	for i := range scripts {
		for j := range scripts[i] {
			sc := &scripts[i][j]
			sc.read, sc.early = 0, 0
			if quiet {
				ops := sc.ops[:0:0]
				for _, o := range sc.ops {
					if o.k == opSettle || o.k == opSleep || !strings.HasPrefix(strings.ToUpper(strings.TrimSpace(o.text)), "GO") {
						ops = append(ops, o)
					}
				}
				sc.ops = ops
			}
			if len(sc.ops) == 0 || W.Chance(1, 3) {
				continue
			}
			d := int64(pick(W, 100, 20, 330))
			if quiet {
				d = int64(pick(W, 4000, 100_000, 700))
			}
			at := W.N(len(sc.ops))
			sc.ops = append(sc.ops[:at:at], append([]op{{k: opSleep, d: d * 1e9}}, sc.ops[at:]...)...)
		}
	}
}

// crowd makes very many clients, all connected at the same time for a while.
func crowd(s *simrt.Sim, prop string) [][]script {
	W := s.Src.W
	s.Probe("crowd")
	n := pick(W, 12, 20, 35, 70, 130, 270)
	out := make([][]script, n)
	for i := range out {
		sc := script{start: int64(W.N(1000)) * 1e4}
		for k := W.N(3); k > 0; k-- {
			sc.ops = append(sc.ops, op{k: opLine, text: genText(W, []string{"q", "sel", "rel", "junk", "set", "dest", "go"}[W.Weighted(4, 3, 2, 1, 2, 1, 1)], i%250, 0) + "\n"})
		}
		if W.Chance(1, 2) {
			sc.ops = append(sc.ops, op{k: opSleep, d: 3e8}, op{k: opLine, text: genText(W, "q", i%250, 0) + "\n"})
		}
		sc.end = []endKind{endStay, endFIN, endRST}[W.Weighted(4, 3, 1)]
		out[i] = []script{sc}
	}
	return out
}

// marathon makes one client do the same thing again and again.
func marathon(s *simrt.Sim, prop string) [][]script {
	W := s.Src.W
	s.Probe("marathon")
	n := pick(W, 30, 70, 140, 270, 530)
	line := func(t string) op { return op{k: opLine, text: t + "\n"} }
	sc := script{ops: []op{line("DEVICE -")}}
	switch W.N(5) {
	case 0: // streams
		for i := 0; i < n; i++ {
			sc.ops = append(sc.ops, line("GO"), line("STOP"))
		}
	case 1: // selections
		for i := 0; i < n; i++ {
			if W.Chance(1, 2) {
				sc.ops = append(sc.ops, line("DEVICE !"))
			}
			sc.ops = append(sc.ops, line("DEVICE -"))
		}
	case 2: // commands
		for i := 0; i < 2*n; i++ {
			sc.ops = append(sc.ops, line(genText(W, []string{"q", "set", "ant", "dest", "junk"}[W.Weighted(4, 4, 1, 1, 1)], 0, 0)))
		}
	case 3: // sessions, one after the other
		var l []script
		for i := 0; i < n; i++ {
			x := script{end: []endKind{endFIN, endRST, endPartial}[W.Weighted(4, 1, 1)]}
			if W.Chance(2, 3) {
				x.ops = append(x.ops, line("DEVICE -"))
				if W.Chance(1, 4) {
					x.ops = append(x.ops, line("GO"))
				}
			}
			l = append(l, x)
		}
		return [][]script{l}
	default: // commands while streaming
		sc.ops = append(sc.ops, line("GO"))
		for i := 0; i < n; i++ {
			sc.ops = append(sc.ops, line(genText(W, []string{"q", "set", "go", "junk"}[W.Weighted(4, 4, 2, 1)], 0, 0)))
		}
		sc.ops = append(sc.ops, line("STOP"))
	}
	other := script{ops: []op{{k: opSleep, d: 5e8}, line("DEVICE -"), line("FREQ")}, end: endStay}
	return [][]script{{sc}, {other}}
}

type unplug struct {
	at   int64
	t    int
	back int64
}

// World is the server world for one property.
func World(prop string) *harness.World {
	prof := profiles[prop]
	w := &harness.World{Prop: prop}
	w.Config = func(src *simrt.Src) simrt.Config {
		return simrt.Config{MaxSteps: 60_000_000, PreemptMean: pick(src.W, 0, 5, 20, 2, 100, 1000), RaceMean: pick(src.W, 0, 30)}
	}
	w.Root = func(s *simrt.Sim) { root(s, prop, prof) }
	w.After = func(s *simrt.Sim) { After(s, prop) }
	w.Real = []string{"boripserver (main, devices: the whole program, through main())", "dsp.Ui8toi16b"}
	w.Stub = []string{"rtl-sdr driver and tuners (simulated)", "TCP/UDP network, DNS (simulated)", "goroutine scheduler, channels, mutexes, clock, log, flags, signals (simulated)"}
	w.Rule = "the server answered at least one command after its greeting"
	w.State = "abstract server state at each reply: command, kind of reply, stream active, tuner held, tuners in use, tuners present, streams so far"
	w.Assume = []string{"the simulated driver delivers callbacks of one read serially and reuses the transfer buffer, Close waits for running reads",
		"tuner names are unique and not blank; UDP destination ports are not 0", "preemption happens between statements, not inside one"}
	w.Quick, w.Thorough = 25, 420
	return w
}

// After reports a run that came to a halt.
func After(s *simrt.Sim, prop string) {
	switch s.Status {
	case "deadlock":
		s.Violate(prop, "stuck", "nothing can proceed any more")
	case "steps":
		if p, ok := s.Values["server"].(*simrt.Proc); ok && !p.Dead {
			s.Violate("S03", "livelock", "the run does not come to an end: the step budget is exhausted")
			if prop != "S03" {
				s.Violate(prop, "livelock", "the run does not come to an end: the step budget is exhausted")
			}
		}
	}
	if p, ok := s.Values["server"].(*simrt.Proc); ok {
		if p.Crashed {
			s.ViolateFirst(prop, "crash", "the server crashed: %s", p.CrashMsg)
		} else if p.Exited {
			s.ViolateFirst(prop, "exit", "the server exited with code %d", p.ExitCode)
		}
	}
}

func root(s *simrt.Sim, prop string, prof profile) {
	src := s.Src
	W := src.W
	n := simnet.Of()
	h := rtl.Of()
	nt := 1 + W.N(3)
	if prop == "S04" {
		nt = 1 + W.N(2)
	}
	h.Tuners = Tuners(src, nt)
	faulty := Faults(src, n, h)
	wrap := false
	if prop == "S04" && W.Chance(1, 150) {
		wrap = true
		h.P.Tiny, h.P.Pace, h.P.MaxBytes = true, 10_000, 0
		h.P.Stall, n.P.LatMax = 0, n.P.LatMin
	} else if prop == "S04" && W.Chance(1, 3) {
		h.P.ChunkMax = pick(W, 32768, 24576, 8194, 16384)
		h.P.MaxBytes = 1 << 18
	}
	nc := 1 + W.N(prof.clients)
	if wrap {
		nc = min(nc, 2)
	}
	for i := 0; i < nc; i++ {
		n.DNS[fmt.Sprintf("host%d.example", i)] = fmt.Sprintf("10.8.0.%d", i+1)
	}
	scripts := make([][]script, nc)
	for i := range scripts {
		ns := 1 + W.N(prof.sessions)
		if wrap {
			ns = 1
		}
		for j := 0; j < ns; j++ {
			sc := genScript(src, prof, i, j)
			if !faulty {
				sc.early, sc.read = 0, 0
				if sc.end != endStay {
					sc.end = endFIN
				}
			}
			if wrap {
				sc = script{ops: []op{{k: opLine, text: "DEVICE -\n"}, {k: opLine, text: "GO\n"}, {k: opSleep, d: 1_400_000_000}, {k: opLine, text: "STOP\n"}, {k: opLine, text: "GO\n"}, {k: opSleep, d: 1e8}}}
			}
			scripts[i] = append(scripts[i], sc)
		}
	}
	if !wrap {
		switch W.Weighted(280, 24, 3, 6) {
		case 1:
			patient(s, scripts)
		case 2:
			scripts = crowd(s, prop)
		case 3:
			scripts = marathon(s, prop)
		}
		nc = len(scripts)
	}
	var unplugs []unplug
	if faulty && W.Chance(1, 3) {
		for k := 1 + W.N(4); k > 0; k-- {
			unplugs = append(unplugs, unplug{int64(1+W.N(2000)) * int64(pick(W, 1e5, 1e6)), W.N(nt), int64(W.N(1000)) * 1e6})
		}
	}
	srv := StartServer(s)
	s.Values["server"] = srv
	m := NewMonitor(s, srv, prop)
	simrt.Sleep(1e6)
	for i := 0; i < 100 && !n.Listening(srv, Port) && !srv.Dead; i++ {
		simrt.Sleep(10e6)
	}
	for _, u := range unplugs {
		u := u
		s.After(u.at, func() {
			if t := h.Tuners[u.t]; !t.Lost && !m.stopping {
				m.Unplug(t)
				s.After(u.back, func() { h.Replug(t) })
			}
		})
	}
	var q simrt.WaitQ
	running := nc
	var all []*Client
	for i := range scripts {
		i := i
		p := &simrt.Proc{Name: fmt.Sprintf("client%d", i), IP: fmt.Sprintf("10.1.%d.%d", i/250, i%250+1), Harness: true}
		s.Spawn(p, p.Name, func() {
			defer func() { running--; q.WakeAll() }()
			for j := range scripts[i] {
				sc := &scripts[i][j]
				simrt.Sleep(sc.start)
				if srv.Dead || m.stopping {
					return
				}
				c := Connect(s, m, p, sc.read)
				if c == nil {
					return
				}
				all = append(all, c)
				if sc.early > 0 {
					s.Spawn(p, p.Name+"-end", func() {
						simrt.Sleep(sc.early)
						if c.Conn.Open() && sc.end != endStay {
							s.Probe("ended_early")
							c.finish(sc.end)
						}
					})
				}
				c.run(sc)
				if sc.end != endStay {
					c.finish(sc.end)
				}
			}
		})
	}
	for running > 0 && !srv.Dead {
		if !q.Wait("clients", 1e15) {
			break
		}
	}
	if srv.Dead {
		return
	}
	// faults end; everybody leaves; everything must come back
	Calm(n, h)
	m.stopping = true
	h.P.Tiny = false
	if h.P.MaxBytes == 0 {
		h.P.MaxBytes = 1 << 15
	}
	h.P.Pace = 16e6
	for _, t := range h.Tuners {
		if t.Lost {
			h.Replug(t)
		}
	}
	for _, c := range all {
		if c.Conn.Open() {
			c.hold, c.slow = false, false
			if !c.Sess.Ended && !c.Conn.Broken() {
				c.Drain()
			}
			c.Conn.Close()
		}
	}
	simrt.Sleep(m.Bound + 1e9)
	if srv.Dead {
		return
	}
	for _, st := range m.streams() {
		if st.R.Active() {
			m.violate("S02", "read-kept", "all sessions have ended, read %d is still running", st.R.ID)
		}
	}
	m.Probe(s, "final")
	if s.Probes["replies"] > 0 {
		s.Probe("nontrivial")
	}
}

func (m *Monitor) streams() []*Stream {
	var out []*Stream
	for _, s := range m.Sess {
		out = append(out, s.Streams...)
	}
	return out
}

// Probe checks that the server still serves: every tuner can be selected and streams.
func (m *Monitor) Probe(s *simrt.Sim, when string) {
	srv := m.Proc
	if !m.N.Listening(srv, Port) {
		m.violate("S03", "not-listening", "the server process is alive but no longer listens")
		return
	}
	var cs []*Client
	for i := range m.H.Tuners {
		p := &simrt.Proc{Name: fmt.Sprintf("probe%d", i), IP: fmt.Sprintf("10.2.0.%d", i+1), Harness: true}
		done := false
		var q simrt.WaitQ
		s.Spawn(p, p.Name, func() {
			defer func() { done = true; q.WakeAll() }()
			c := Connect(s, m, p, 0)
			if c == nil {
				return
			}
			cs = append(cs, c)
			if !c.Drain() {
				return
			}
			r := c.Do("DEVICE -")
			if srv.Dead || r == "" {
				return
			}
			if !strings.Contains(r, "|") {
				m.violate("S01", "not-available-again", "nobody uses the tuners, but the %s client was answered %q", when, clip(r))
				m.violate("S02", "not-available-again", "nobody uses the tuners, but the %s client was answered %q", when, clip(r))
				return
			}
			if r = c.Do("GO"); r != "GO OK" && !srv.Dead && r != "" {
				m.violate("S05", "go-refused", "on a free tuner and without faults GO was answered %q", r)
				return
			}
			simrt.Sleep(200e6)
		})
		for !done {
			q.Wait("probe", -1)
		}
		if srv.Dead {
			return
		}
	}
	simrt.Sleep(2e9)
	m.Settled()
	for _, c := range cs {
		c := c
		if srv.Dead {
			return
		}
		if c.Conn.Open() && !c.Done && len(c.Sess.Streams) > 0 {
			if len(c.Sess.Streams[0].R.Bytes) > 0 && c.Sess.Streams[0].n == 0 {
				m.violate("S04", "no-packets", "session %d streams but has sent no packet", c.Sess.Tag)
			}
			c.Do("STOP")
		}
		c.Conn.Close()
	}
	simrt.Sleep(m.Bound + 1e9)
}
