// Package bclient simulates the BorIP client package against a scripted, faulty server, and its
// packet reader against a faulty datagram channel.
package bclient

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/samuel/go-dsp/borip"
	"verif/sim/harness"
	simnet "verif/sim/simlib/net"
	simtime "verif/sim/simlib/time"
	"verif/sim/simrt"
)

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

type verdict int

const (
	mustOK verdict = iota
	mustErr
	either
)

// how a reply reaches the client
type brk int

const (
	bNone brk = iota
	bPartialFIN
	bPartialRST
	bNothingFIN
	bNothingRST
	bFullFIN
	bFullRST
	bCut
)

type reply struct {
	text  string
	eol   string
	want  verdict
	val   []float64 // expected values
	str   string
	dev   *borip.Device
	delay int64
	cuts  []int
	gap   int64
	brk   brk
	keep  int // bytes sent of a partial reply

	refusal bool // an error reply, with the server's words
}

type call struct {
	kind    string
	arg     string
	farg    float64
	on      bool
	rep     reply
	idle    int64 // before the call
	idleRST bool
	failW   int // 1..: the connection takes only this many bytes less one of the command, then refuses to take more
}

type session struct {
	dialKind int // 0 fine
	hello    reply
	calls    []call
	closes   int
	failW    int      // as for a call, in Close
	after    int      // calls after Close
	closeRep [2]reply // replies to STOP and DEVICE ! in Close
	start    int64
}

func num(W *simrt.Stream) (string, float64) {
	v := []string{"0", "144100000", "1000000.000000", "28.5", "-12.5", "2.4e6", "250001", "1e-3", "999999999999", "-0.000001"}
	t := v[W.N(len(v))]
	f, _ := strconv.ParseFloat(t, 64)
	return t, f
}

func floatArg(W *simrt.Stream) float64 {
	v := []float64{0, 144100000, 1e6, 123456789.125, 1e-7, -5, 1e15, 0.1, 98500000, -12.5, 2400000.3}
	return v[W.N(len(v))]
}

var messages = []string{"", "no active device", "failed to get frequency", "x", "- -", "OK", strings.Repeat("very long message ", 300), "12", "|||||||"}

// errText makes an error reply.
func errText(W *simrt.Stream, cmd string) string {
	k := []string{"FAIL", "DEVICE", "UNKNOWN", "-"}[W.N(4)]
	t := cmd + " " + k
	if m := messages[W.N(len(messages))]; m != "" {
		t += " " + m
	}
	return t
}

func word(kind string) string {
	switch kind {
	case "SelectDevice", "Release":
		return "DEVICE"
	case "SetFrequency", "Frequency":
		return "FREQ"
	case "SetAntenna", "Antenna":
		return "ANTENNA"
	case "SetRate", "Rate":
		return "RATE"
	case "SetGain", "Gain":
		return "GAIN"
	case "SetDestination", "Destination":
		return "DEST"
	case "SetHeaderEnabled", "HeaderEnabled":
		return "HEADER"
	case "Go":
		return "GO"
	}
	return "STOP"
}

func device(W *simrt.Stream) (string, *borip.Device) {
	d := &borip.Device{}
	d.Name = []string{"RTL2838UHIDIR", "Terratec NOXON (rev 3)", "X", "Generic RTL2832U OEM :: 00000001", strings.Repeat("N", 5000), "Dual  blank   name"}[W.N(6)]
	f := make([]string, 0, 8)
	f = append(f, d.Name)
	for _, p := range []*float64{&d.MinGain, &d.MaxGain, &d.GainStep, &d.FPGAFreq} {
		t, v := num(W)
		*p = v
		f = append(f, t)
	}
	d.SamplesPerPacket = []int{4096, 16256, 1, 0, 32768, 65536, 1000000, 1<<31 - 1}[W.N(8)]
	f = append(f, strconv.Itoa(d.SamplesPerPacket))
	d.ValidAntennas = [][]string{{"default"}, {"(Default)"}, {"TX/RX", "RX2"}, {"A", "B", "C"}, {"left  side", "right side"}}[W.N(5)]
	f = append(f, strings.Join(d.ValidAntennas, ","))
	switch W.N(5) {
	case 4: // there, but empty
		f = append(f, "")
	case 3:
		d.Serial = "S/N  12  34"
		f = append(f, d.Serial)
	case 1:
		d.Serial = "00000001"
		f = append(f, d.Serial)
	case 2:
		d.Serial = "Terratec NOXON (rev 3)"
		f = append(f, d.Serial)
	}
	return strings.Join(f, "|"), d
}

// genReply makes a reply to a call and what the call must then return.
func genReply(W *simrt.Stream, c *call) reply {
	cmd := word(c.kind)
	r := reply{eol: []string{"\n", "\r\n", " \n"}[W.Weighted(6, 2, 1)]}
	class := W.Weighted(10, 4, 2, 2) // good, error, lacking, garbled
	set := func(t string, v verdict) { r.text, r.want = t, v }
	switch class {
	case 1:
		set(errText(W, cmd), mustErr)
		if c.kind == "Go" && W.Chance(1, 3) {
			set("GO RUNNING", mustErr)
		}
		if c.kind == "Stop" && W.Chance(1, 3) {
			set("STOP STOPPED", mustErr)
		}
		if (c.kind == "SelectDevice" || c.kind == "Release") && r.text == "DEVICE -" {
			r.want = either // "no device", not an error when releasing
		}
		r.refusal = r.want == mustErr && (strings.HasPrefix(c.kind, "Set") || c.kind == "Go" || c.kind == "Stop" || c.kind == "SelectDevice" && strings.HasPrefix(r.text, "DEVICE -"))
		return r
	case 2:
		set([]string{cmd, ""}[W.N(2)], mustErr)
		switch c.kind {
		case "SetRate", "SetDestination":
			if W.Chance(1, 2) {
				set(cmd+" OK", mustErr)
			}
		case "SelectDevice":
			if W.Chance(1, 2) {
				t, _ := device(W)
				p := strings.Split(t, "|")
				set(cmd+" "+strings.Join(p[:1+W.N(6)], "|"), mustErr)
			}
		case "SetFrequency":
			if W.Chance(1, 2) {
				set(cmd+" OK", either)
			}
		}
		return r
	case 3:
		switch c.kind {
		case "SetRate":
			set(cmd+" OK "+[]string{"abc", "1.2.3", "12x", "-"}[W.N(4)], mustErr)
			return r
		case "SetFrequency":
			set(cmd+" OK x y z t", either)
			return r
		case "Frequency", "Rate", "Gain":
			set(cmd+" "+[]string{"abc", "1.2.3", "12x", "--4", "OK"}[W.N(5)], mustErr)
			return r
		case "HeaderEnabled":
			set(cmd+" "+[]string{"MAYBE", "1", "ONN"}[W.N(3)], mustErr)
			return r
		case "SelectDevice":
			t, _ := device(W)
			p := strings.Split(t, "|")
			p[1+W.N(5)] = []string{"abc", "", "1.2.3"}[W.N(3)]
			set(cmd+" "+strings.Join(p, "|"), mustErr)
			return r
		case "SetAntenna", "SetGain", "SetHeaderEnabled", "Go", "Stop":
			set(cmd+" "+[]string{"OKAY", "YES", "0", "K"}[W.N(4)], mustErr)
			return r
		}
	}
	switch c.kind {
	case "SelectDevice":
		t, d := device(W)
		set(cmd+" "+t, mustOK)
		r.dev = d
	case "Release":
		set("DEVICE -", mustOK)
	case "SetFrequency":
		set(cmd+" OK", mustOK)
		n := 4
		if W.Chance(1, 4) {
			n = 1 + W.N(3)
		}
		for i := 0; i < n; i++ {
			t, f := num(W)
			r.text += " " + t
			r.val = append(r.val, f)
		}
		for len(r.val) < 4 {
			r.val = append(r.val, 0)
		}
	case "SetRate":
		t, f := num(W)
		set(cmd+" OK "+t, mustOK)
		r.val = []float64{f}
		if W.Chance(1, 6) {
			r.text += " extra"
		}
	case "SetDestination":
		r.str = []string{"10.1.2.3:28888", "[fd00::1]:30000", "host.example:1"}[W.N(3)]
		set(cmd+" OK "+r.str, mustOK)
	case "Frequency", "Rate", "Gain":
		t, f := num(W)
		set(cmd+" "+t, mustOK)
		r.val = []float64{f}
	case "Antenna":
		r.str = []string{"default", "(Default)", "RX2", "A"}[W.N(4)]
		set(cmd+" "+r.str, mustOK)
	case "Destination":
		r.str = []string{"10.1.2.3:28888", "[fd00::1]:30000", "1.1.1.1:1"}[W.N(3)]
		set(cmd+" "+r.str, mustOK)
	case "HeaderEnabled":
		on := W.N(2) == 1
		r.val = []float64{0}
		set(cmd+" OFF", mustOK)
		if on {
			r.val[0] = 1
			set(cmd+" ON", mustOK)
		}
	default:
		set(cmd+" OK", mustOK)
		if W.Chance(1, 6) {
			r.text += " " + []string{"10", "and more", "FAIL"}[W.N(3)]
		}
	}
	return r
}

// patient makes the server answer late and the client pause for long.
func (ss *session) patient(W *simrt.Stream) {
	long := func() int64 { return int64(pick(W, 40, 7, 100, 700, 4000, 100_000)) * 1e9 }
	if W.Chance(1, 4) {
		ss.hello.delay = long()
	}
	if n := len(ss.calls); n > 0 {
		if W.N(2) == 0 {
			ss.calls[W.N(n)].idle = long()
		}
		if W.N(2) == 0 {
			ss.calls[W.N(n)].rep.delay = long()
		}
	}
	if W.N(2) == 0 {
		ss.closeRep[W.N(2)].delay = long()
	}
}

func (r *reply) delivery(W *simrt.Stream, faulty bool) {
	r.delay = int64(W.N(4)) * int64(pick(W, 1e5, 1e7, 1e9))
	n := len(r.text + r.eol)
	if W.Chance(1, 4) {
		for k := 1 + W.N(3); k > 0; k-- {
			r.cuts = append(r.cuts, 1+W.N(n))
		}
		r.gap = int64(pick(W, 1e3, 1e6, 1e8))
	}
	if faulty && W.Chance(1, 10) {
		r.brk = brk(1 + W.N(7))
		switch r.brk {
		case bPartialFIN, bPartialRST:
			r.keep = W.N(n)
			r.want, r.refusal = mustErr, false
			if W.Chance(1, 2) {
				r.keep = n - 1
			}
		case bNothingFIN, bNothingRST:
			r.want, r.refusal = mustErr, false
		case bFullRST, bCut:
			r.want2()
		}
	}
}

// want2: the reply may or may not get through.
func (r *reply) want2() {
	if r.want == mustOK {
		r.want = either
	}
	r.refusal = false
}

var kinds = []string{"SelectDevice", "Go", "Stop", "SetFrequency", "Frequency", "SetRate", "Rate", "SetGain", "Gain", "SetAntenna", "Antenna", "SetDestination", "Destination", "SetHeaderEnabled", "HeaderEnabled", "Release"}

func genSession(W *simrt.Stream, prop string, faulty bool) session {
	var ss session
	ss.start = int64(W.N(3)) * 1e6
	if W.Chance(1, 4) || prop == "C02" && W.Chance(1, 4) {
		ss.dialKind = 1 + W.N(7)
	}
	ss.hello = reply{text: "DEVICE -", eol: "\n"}
	ss.hello.delivery(W, false)
	n := W.N(14)
	ws := []int{3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1}
	if prop == "C02" {
		n = W.N(6)
		ws = []int{8, 10, 8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 4}
	}
	long := W.Chance(1, 60)
	if long { // very many calls on one connection
		n = pick(W, 40, 70, 140, 270, 600)
		faulty = false
	}
	for i := 0; i < n; i++ {
		c := call{kind: kinds[W.Weighted(ws...)]}
		switch c.kind {
		case "SelectDevice":
			c.arg = []string{"-", "RTL", "hackrf"}[W.Weighted(4, 1, 1)]
		case "SetFrequency", "SetRate", "SetGain":
			c.farg = floatArg(W)
		case "SetAntenna":
			c.arg = []string{"default", "RX2"}[W.N(2)]
		case "SetDestination":
			c.arg = []string{"10.1.2.3:28888", "somewhere:99"}[W.N(2)]
		case "SetHeaderEnabled":
			c.on = W.N(2) == 1
		}
		c.rep = genReply(W, &c)
		c.rep.delivery(W, faulty)
		if W.Chance(1, 5) {
			c.idle = int64(1+W.N(50)) * 1e6
			c.idleRST = faulty && W.Chance(1, 10)
		}
		if faulty && W.Chance(1, 25) {
			c.failW = 1 + W.N(3)
		}
		ss.calls = append(ss.calls, c)
	}
	ss.closes = 1 + W.N(3)
	if faulty && W.Chance(1, 12) {
		ss.failW = 1 + W.N(5)
	}
	ss.after = W.N(3)
	for i, k := range []string{"Stop", "Release"} {
		c := call{kind: k}
		ss.closeRep[i] = genReply(W, &c)
		ss.closeRep[i].delivery(W, faulty)
	}
	return ss
}

// expected line on the wire
type want struct {
	text  string
	num   bool // the argument is a number, compared as such
	f     float64
	rep   *reply
	close bool
}

type run struct {
	s       *simrt.Sim
	prop    string
	wants   []want
	got     []string
	part    []byte
	broken  bool // the connection is, or is about to be, gone
	cli     *simnet.TCPConn
	srvEnd  *simnet.TCPConn
	closing bool
	closed  bool
	id      int
}

func (r *run) bad(prop, class, f string, a ...any) {
	r.s.Violate(prop, class, "client %d: "+f, append([]any{r.id}, a...)...)
}

func (r *run) sendReply(c *simnet.TCPConn, rep *reply) bool {
	if rep.delay > 0 {
		simrt.Sleep(rep.delay)
	}
	b := []byte(rep.text + rep.eol)
	full := rep.brk == bNone || rep.brk == bFullFIN || rep.brk == bFullRST || rep.brk == bCut
	switch rep.brk {
	case bPartialFIN, bPartialRST:
		b = b[:rep.keep]
	case bNothingFIN, bNothingRST:
		b = nil
	}
	if rep.brk != bNone {
		r.broken = true
		r.s.Fault([]string{"", "eof_inside_reply", "reset_inside_reply", "eof_instead_of_reply", "reset_instead_of_reply", "eof_after_reply", "reset_after_reply", "connection_cut"}[rep.brk])
	}
	cuts := rep.cuts
	for len(b) > 0 {
		n := len(b)
		if len(cuts) > 0 {
			n = min(n, cuts[0])
			cuts = cuts[1:]
		}
		if full && r.closing && !c.Peer().Open() && !r.broken {
			r.bad("C02", "close-early", "the connection was closed before the answer to the last command of Close had been given")
			r.broken = true
		}
		if _, err := c.Write(b[:n]); err != nil {
			return false
		}
		b = b[n:]
		if len(b) > 0 {
			simrt.Sleep(rep.gap)
		}
	}
	switch rep.brk {
	case bPartialFIN, bNothingFIN, bFullFIN:
		c.CloseWrite()
		simrt.Sleep(20e6)
		c.Close()
		return false
	case bPartialRST, bNothingRST, bFullRST:
		simrt.Sleep(5e6)
		c.Abort()
		return false
	case bCut:
		simrt.Sleep(1e6)
		c.Cut()
		c.Close()
		return false
	}
	return true
}

// serve answers one connection.
func (r *run) serve(c *simnet.TCPConn, ss *session) {
	r.srvEnd = c
	hello := &ss.hello
	h2 := *hello
	switch ss.dialKind {
	case 1:
		h2.brk = bNothingFIN
		hello = &h2
	case 2:
		h2.brk = bNothingRST
		hello = &h2
	case 3:
		h2.brk, h2.keep = bPartialFIN, len(h2.text)
		hello = &h2
	case 4:
		h2.brk, h2.keep = bPartialRST, 3
		hello = &h2
	case 5:
		h2.text = []string{"HELLO", "DEVICE RTL|0|1|1|0|4096|x", "", strings.Repeat("z", 6000)}[len(ss.calls)%4]
		hello = &h2
	case 6:
		h2.brk = bFullFIN
		hello = &h2
	}
	if !r.sendReply(c, hello) {
		return
	}
	buf := make([]byte, 300)
	for {
		n, err := c.Read(buf)
		for _, x := range buf[:n] {
			if x != '\n' {
				r.part = append(r.part, x)
				continue
			}
			line := string(r.part)
			r.part = nil
			k := len(r.got)
			r.got = append(r.got, line)
			prop := "C01"
			if r.closing {
				prop = "C02"
			}
			if k >= len(r.wants) {
				r.bad(prop, "unasked", "%q was sent, which no call asked for", line)
				return
			}
			w := r.wants[k]
			if !w.match(line) {
				r.bad(prop, "wrong-command", "%q was sent instead of %q", line, w.text)
				return
			}
			r.s.Probe("commands")
			if !r.sendReply(c, w.rep) {
				return
			}
		}
		if err != nil {
			if len(r.part) > 0 && !r.broken {
				r.bad("C01", "partial-command", "%q without newline was sent", r.part)
			}
			c.Close()
			return
		}
	}
}

func (w want) match(line string) bool {
	if !w.num {
		return line == w.text
	}
	i := strings.IndexByte(line, ' ')
	if i < 0 || line[:i] != strings.SplitN(w.text, " ", 2)[0] {
		return false
	}
	v, err := strconv.ParseFloat(line[i+1:], 64)
	return err == nil && v == w.f
}

func sameDev(a, b *borip.Device) bool {
	return a != nil && b != nil && fmt.Sprintf("%+v", *a) == fmt.Sprintf("%+v", *b)
}

type outcome struct {
	err  error
	vals []float64
	str  string
	dev  *borip.Device
}

func invoke(b *borip.BorIP, c *call) (o outcome) {
	switch c.kind {
	case "SelectDevice":
		o.dev, o.err = b.SelectDevice(c.arg)
	case "Release":
		o.dev, o.err = b.SelectDevice("!")
	case "SetFrequency":
		o.vals = make([]float64, 4)
		o.vals[0], o.vals[1], o.vals[2], o.vals[3], o.err = b.SetFrequency(c.farg)
	case "Frequency":
		o.vals = make([]float64, 1)
		o.vals[0], o.err = b.Frequency()
	case "SetRate":
		o.vals = make([]float64, 1)
		o.vals[0], o.err = b.SetRate(c.farg)
	case "Rate":
		o.vals = make([]float64, 1)
		o.vals[0], o.err = b.Rate()
	case "SetGain":
		o.err = b.SetGain(c.farg)
	case "Gain":
		o.vals = make([]float64, 1)
		o.vals[0], o.err = b.Gain()
	case "SetAntenna":
		o.err = b.SetAntenna(c.arg)
	case "Antenna":
		o.str, o.err = b.Antenna()
	case "SetDestination":
		o.str, o.err = b.SetDestination(c.arg)
	case "Destination":
		o.str, o.err = b.Destination()
	case "SetHeaderEnabled":
		o.err = b.SetHeaderEnabled(c.on)
	case "HeaderEnabled":
		var on bool
		on, o.err = b.HeaderEnabled()
		o.vals = []float64{0}
		if on {
			o.vals[0] = 1
		}
	case "Go":
		o.err = b.Go()
	case "Stop":
		o.err = b.Stop()
	}
	return
}

func lineOf(c *call) want {
	w := want{text: word(c.kind), rep: &c.rep}
	switch c.kind {
	case "SelectDevice", "SetAntenna", "SetDestination":
		w.text += " " + c.arg
	case "Release":
		w.text += " !"
	case "SetFrequency", "SetRate", "SetGain":
		w.text += " " + strconv.FormatFloat(c.farg, 'f', -1, 64)
		w.num, w.f = true, c.farg
	case "SetHeaderEnabled":
		w.text += map[bool]string{true: " ON", false: " OFF"}[c.on]
	}
	return w
}

// openTo counts the connections of p to the host of addr, which one client uses at a time.
func openTo(n *simnet.Network, p *simrt.Proc, addr string) int {
	host, _, _ := strings.Cut(addr, ":")
	k := 0
	for _, c := range n.OpenTCP(p) {
		if h, _, _ := strings.Cut(c.RemoteAddr().String(), ":"); h == host {
			k++
		}
	}
	return k
}

// failWrites: the connection takes k more bytes, which is less than a command, and then no more. It can still be
// read from and the server does not notice.
func (r *run) failWrites(k int) {
	r.broken = true
	r.cli.FailWritesAfter(k, fmt.Errorf("no buffer space available"))
}

// says reports whether an error's text carries what the server answered.
func says(err error, cmd, rep string) bool {
	f := strings.Fields(rep)
	if len(f) > 0 && f[0] == cmd {
		f = f[1:]
	}
	if len(f) > 0 && f[0] == "-" {
		f = f[1:]
	}
	return strings.Contains(strings.Join(strings.Fields(err.Error()), " "), strings.Join(f, " "))
}

func (r *run) client(p *simrt.Proc, ss *session, addr string) {
	s := r.s
	n := simnet.Of()
	open := openTo(n, p, addr)
	b, err := borip.Dial(addr)
	if (b == nil) == (err == nil) {
		r.bad("C02", "dial-result", "Dial returned %v and error %v", b, err)
		return
	}
	if err != nil {
		s.Probe("dial_failed")
		simrt.Sleep(50e6)
		if k := openTo(n, p, addr); k != open {
			r.bad("C02", "dial-leak", "Dial failed (%v) but %d connection stays open", err, k-open)
		}
		if ss.dialKind == 0 || ss.dialKind == 6 {
			r.bad("C02", "dial-refused", "Dial failed although the server greeted: %v", err)
		}
		return
	}
	if ss.dialKind >= 1 && ss.dialKind <= 4 {
		r.bad("C02", "dial-accepted", "Dial succeeded although the server's greeting could not be read")
	}
	if ss.dialKind == 6 || ss.dialKind >= 1 && ss.dialKind <= 4 {
		r.broken = true
	}
	s.Probe("dialled")
	running := false
	sel := no
	for i := range ss.calls {
		c := &ss.calls[i]
		if c.idle > 0 {
			simrt.Sleep(c.idle)
			if c.idleRST && r.srvEnd != nil && !r.broken {
				r.broken = true
				s.Fault("reset_while_idle")
				r.srvEnd.Abort()
				if i%2 == 0 {
					simrt.Sleep(30e6)
				}
			}
		}
		r.wants = append(r.wants, lineOf(c))
		if c.failW > 0 && !r.broken && r.cli != nil {
			r.failWrites(c.failW - 1)
		}
		pre := r.broken
		before := len(r.got)
		o := invoke(b, c)
		s.Event("call", c.kind, o.err)
		s.Probe("calls")
		v := c.rep.want
		if pre {
			v = mustErr
		}
		st := uint64(0)
		if o.err != nil {
			st = 1
		}
		s.State(hash(c.kind), uint64(v), uint64(c.rep.brk), st, hash(shape(c.rep.text)), b2u(pre), b2u(running), uint64(sel))
		what := fmt.Sprintf("%s answered %q", c.kind, clip(c.rep.text))
		if c.rep.brk != bNone {
			what += fmt.Sprintf(" (connection broken, kind %d)", c.rep.brk)
		}
		if pre {
			what = c.kind + " on a broken connection"
		}
		switch {
		case v == mustErr && o.err == nil:
			r.bad("C01", "false-success", "%s reports success %v %q %+v", what, o.vals, o.str, o.dev)
		case v == mustOK && o.err != nil:
			r.bad("C01", "false-error", "%s reports the error %v", what, o.err)
		case o.err != nil && v == mustErr && !pre && c.rep.refusal && !says(o.err, word(c.kind), c.rep.text):
			r.bad("C01", "error-text", "%s reports the error %q", what, clip(o.err.Error()))
		case o.err == nil && c.rep.dev != nil && !sameDev(o.dev, c.rep.dev):
			r.bad("C01", "device", "%s reports %+v", what, o.dev)
		case o.err == nil && c.rep.str != "" && o.str != c.rep.str:
			r.bad("C01", "value", "%s reports %q", what, o.str)
		case o.err == nil && c.rep.val != nil && fmt.Sprint(o.vals) != fmt.Sprint(c.rep.val):
			r.bad("C01", "value", "%s reports %v", what, o.vals)
		}
		if o.err == nil && c.rep.dev != nil && !sameDev(b.Device(), c.rep.dev) {
			r.bad("C01", "device", "after %s Device() is %+v", what, b.Device())
		}
		if c.kind == "Release" && o.err == nil && v == mustOK && b.Device() != nil {
			r.bad("C01", "device", "after %s Device() is %+v", what, b.Device())
		}
		if !pre && c.rep.brk == bNone && len(r.got) != before+1 {
			r.bad("C01", "lines", "%s: %d lines were sent", what, len(r.got)-before)
		}
		if o.err == nil && !r.broken && len(r.got) < before+1 {
			r.bad("C01", "not-sent", "%s succeeded without anything being sent", what)
		}
		switch c.kind {
		case "Go":
			if o.err == nil {
				running = true
			}
		case "Stop":
			if o.err == nil {
				running = false
			}
		case "SelectDevice":
			switch {
			case o.err == nil && o.dev != nil:
				sel = yes
			case sel == yes:
				sel = maybe
			}
		case "Release":
			switch {
			case o.err == nil:
				sel = no
			case sel == yes && c.rep.brk == bNone && !pre:
				// an error reply: the client may or may not still hold it
				sel = maybe
			case sel == yes:
				sel = maybe
			}
		}
	}
	// Close
	r.closing = true
	base := len(r.wants)
	if running {
		r.wants = append(r.wants, want{text: "STOP", rep: &ss.closeRep[0], close: true})
	}
	if sel != no {
		r.wants = append(r.wants, want{text: "DEVICE !", rep: &ss.closeRep[1], close: true})
	}
	if ss.failW > 0 && !r.broken && r.cli != nil {
		r.failWrites(ss.failW - 1)
	}
	pre := r.broken
	gotPre := len(r.got)
	for k := 0; k < ss.closes; k++ {
		t0 := s.Now()
		b.Close()
		s.Probe("closes")
		if s.Now()-t0 > 20e9+ss.closeRep[0].delay+ss.closeRep[1].delay {
			r.bad("C02", "close-slow", "Close took %d s", (s.Now()-t0)/1e9)
		}
		if r.cli != nil && r.cli.Open() {
			r.bad("C02", "close-leak", "after Close the connection is still open")
		}
		if k == 0 && !pre && !r.broken {
			simrt.Sleep(100e6)
			exp := len(r.wants) - base
			got := len(r.got) - gotPre
			if got != exp && !(sel == maybe && got == exp-1) {
				r.bad("C02", "close-commands", "Close sent %q, expected %d commands (running %v, tuner selected %v)", r.got[gotPre:], exp, running, sel)
			}
		}
		r.closed = true
	}
	for i := 0; i < ss.after && i < len(ss.calls); i++ {
		c := ss.calls[i]
		if o := invoke(b, &c); o.err == nil {
			r.bad("C02", "after-close", "%s after Close reports success", c.kind)
		}
	}
	n2 := len(r.got)
	simrt.Sleep(200e6)
	if len(r.got) != n2 {
		r.bad("C02", "sent-after-close", "%q was sent after Close", r.got[n2:])
	}
}

type tri int

const (
	no tri = iota
	yes
	maybe
)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func clip(t string) string {
	if len(t) > 90 {
		return t[:90] + "..."
	}
	return t
}

func shape(t string) string {
	if i := strings.IndexByte(t, ' '); i >= 0 {
		t = t[i+1:]
	}
	if i := strings.IndexByte(t, ' '); i >= 0 {
		t = t[:i]
	}
	if len(t) > 8 {
		t = t[:8]
	}
	return t
}

func hash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func clientRoot(s *simrt.Sim, prop string) {
	s.Quiet(borip.SimReset)
	W := s.Src.W
	n := simnet.Of()
	lat := []int64{50_000, 1_000, 5_000_000}[W.N(3)]
	n.P.LatMin, n.P.LatMax = lat/5, lat
	faulty := !W.Chance(1, 5)
	if faulty {
		n.P.Frag = pick(W, 0, 300, 1000)
		n.P.ShortRead = pick(W, 0, 300, 900)
		n.P.Window = pick(W, 65536, 65536, 64)
	}
	nc := 1 + W.N(2)
	app := &simrt.Proc{Name: "app", IP: "10.1.0.1"}
	s.Values["app"] = app
	var q simrt.WaitQ
	left := nc
	for i := 0; i < nc; i++ {
		ns := 1 + W.N(2)
		if W.Chance(1, 100) {
			ns = pick(W, 20, 70, 140, 270)
			s.Probe("many_sessions")
		}
		ses := make([]session, ns)
		for j := range ses {
			ses[j] = genSession(W, prop, faulty)
			if W.Chance(1, 12) {
				ses[j].patient(W)
				s.Probe("patient")
			}
			if len(ses[j].calls) > 30 {
				s.Probe("marathon")
			}
		}
		sp := &simrt.Proc{Name: fmt.Sprint("server", i), IP: fmt.Sprintf("10.0.0.%d", i+1), Harness: true}
		addr := fmt.Sprintf("10.0.0.%d:28888", i+1)
		var cur *run
		var curS *session
		accept := make([]*simnet.TCPConn, 0)
		_ = accept
		ready := false
		s.Spawn(sp, sp.Name, func() {
			a, _ := simnet.ResolveTCPAddr("tcp", addr)
			l, err := simnet.ListenTCP("tcp", a)
			if err != nil {
				panic(err)
			}
			ready = true
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				r, ss := cur, curS
				r.cli = c.Peer()
				s.Spawn(sp, sp.Name+"-conn", func() { r.serve(c, ss) })
			}
		})
		i := i
		s.Spawn(app, fmt.Sprint("app", i), func() {
			defer func() { left--; q.WakeAll() }()
			for !ready {
				simrt.Sleep(1e6)
			}
			for j := range ses {
				ss := &ses[j]
				simrt.Sleep(ss.start)
				r := &run{s: s, prop: prop, id: i}
				cur, curS = r, ss
				a := addr
				if ss.dialKind == 7 {
					a = fmt.Sprintf("10.0.0.%d:1", i+1) // nobody listens
					s.Fault("tcp_connect_refused")
				}
				r.client(app, ss, a)
				simrt.Sleep(1e6)
			}
			if k := len(n.OpenTCP(app)); left == 1 && k != 0 {
				s.Violate("C02", "leak", "%d connections stay open after everything was closed", k)
			}
		})
	}
	dl := s.Now() + 1e17
	for left > 0 && !app.Dead {
		if !q.Wait("clients", dl-s.Now()) {
			s.Violate(prop, "hang", "a call does not return although the server has answered or closed the connection: %s", s.TaskDump(app))
			break
		}
	}
	if s.Probes["calls"] > 0 || s.Probes["closes"] > 0 || s.Probes["dial_failed"] > 0 {
		s.Probe("nontrivial")
	}
}

func after(s *simrt.Sim, prop string) {
	switch s.Status {
	case "deadlock":
		s.Violate(prop, "stuck", "nothing can proceed any more")
	case "steps":
		s.Violate(prop, "livelock", "a call does not come to an end")
	}
	if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
		s.ViolateFirst(prop, "panic", "the client panicked: %s", p.CrashMsg)
	} else if ok && p.Exited {
		s.ViolateFirst(prop, "exit", "the client package ended its program with status %d", p.ExitCode)
	}
}

// ClientWorld decides C01 and C02.
func ClientWorld(prop string) *harness.World {
	return &harness.World{
		Prop: prop,
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 3_000_000, PreemptMean: pick(src.W, 0, 5, 20, 2, 100), RaceMean: pick(src.W, 0, 30)}
		},
		Root:   func(s *simrt.Sim) { clientRoot(s, prop) },
		After:  func(s *simrt.Sim) { after(s, prop) },
		Real:   []string{"borip client package (client.go)"},
		Stub:   []string{"BorIP server (scripted replies)", "TCP network (simulated)", "scheduler, clock, log (simulated)"},
		Rule:   "at least one client call, Dial or Close was judged",
		State:  "call, expected verdict, way the reply was delivered or broken, outcome, shape of the reply, connection already broken, stream running, tuner selected",
		Assume: []string{"the server sends one line per command and eventually answers or closes the connection", "a client session is used by one goroutine at a time"},
		Quick:  20, Thorough: 420,
	}
}

var _ = math.NaN
var _ = simtime.Second
