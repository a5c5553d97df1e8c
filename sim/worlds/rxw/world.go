// Package rxw simulates the example receiver program against a scripted BorIP server, a faulty datagram channel, a
// faulty disk and power failures.
package rxw

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
	"syscall"

	"github.com/samuel/go-dsp/borip"
	program "github.com/samuel/go-dsp/borip/example"
	"verif/sim/harness"
	simnet "verif/sim/simlib/net"
	simos "verif/sim/simlib/os"
	"verif/sim/simrt"
)

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

const file = "samples.bin"

// step is one command the program has to send and how it is answered.
type step struct {
	line  string
	num   float64 // argument, if it is a number
	reply string
	bad   bool // the program must not go on
	brk   int  // 1: the connection ends inside the reply, 2: instead of it, 3: is reset instead of it
	delay int64
	cut   int
}

type world struct {
	s     *simrt.Sim
	app   *simrt.Proc
	disk  *simos.Disk
	ip    string
	steps []step
	at    int // commands received
	dest  string
	hdr   bool

	goAt     int64 // when GO was answered
	failAt   int64 // when the first thing went wrong that the program must not survive (-1: nothing yet)
	failWhat string
	slack    int64  // for how long the commands may go on: what failed is not the command itself
	exp      []byte // what the file has to hold
	marks    []int  // lengths of exp after each datagram
	conn     *simnet.UDPConn
	stopAt   int64
	crashed  bool
}

func (w *world) bad(class, f string, a ...any) { w.s.Violate("E02", class, f, a...) }

func (w *world) failed(what string) {
	if w.failAt < 0 {
		w.failAt, w.failWhat, w.slack = w.s.Now(), what, 10e9
	}
}

func (w *world) script(W *simrt.Stream) {
	num := func() string {
		return []string{"0", "484700000", "1000000.000000", "28.5", "-12.5", "2.4e6"}[W.N(6)]
	}
	ants := [][]string{{"default"}, {"TX/RX", "RX2"}, {"A", "B", "C"}}[W.N(3)]
	desc := fmt.Sprintf("RTL|%s|%s|%s|%s|%d|%s", num(), num(), num(), num(), 4096, strings.Join(ants, ","))
	if W.N(2) == 0 {
		desc += "|00000001"
	}
	w.hdr = W.N(2) == 1
	w.dest = []string{"127.0.0.1:2288", "127.0.0.1:2289", "10.1.0.1:30000"}[W.Weighted(4, 1, 1)]
	w.steps = []step{
		{line: "DEVICE RTL", reply: "DEVICE " + desc},
		{line: "FREQ", num: 484.7e6, reply: "FREQ OK " + num() + " " + num() + " " + num() + " " + num()},
		{line: "FREQ", reply: "FREQ " + num()},
		{line: "ANTENNA " + ants[0], reply: "ANTENNA OK"},
		{line: "RATE", num: 1e6, reply: "RATE OK " + num()},
		{line: "HEADER", reply: "HEADER " + map[bool]string{true: "ON", false: "OFF"}[w.hdr]},
		{line: "DEST 127.0.0.1:2288", reply: "DEST OK " + w.dest},
		{line: "GO", reply: "GO OK"},
		{line: "STOP", reply: "STOP OK"},
		{line: "DEVICE !", reply: "DEVICE -"},
	}
	for i := range w.steps {
		st := &w.steps[i]
		st.delay = int64(W.N(3)) * int64(pick(W, 1000, 1e6, 1e8))
		if W.Chance(1, 5) {
			st.cut = 1 + W.N(len(st.reply))
		}
	}
	if W.Chance(1, 3) {
		i := W.N(len(w.steps))
		st := &w.steps[i]
		st.bad = i < 8
		word := strings.Fields(st.line)[0]
		switch W.N(4) {
		case 0:
			st.brk = 1
			st.cut = W.N(len(st.reply))
		case 1:
			st.brk = 2 + W.N(2)
		case 2:
			st.reply = word
			if W.N(2) == 0 {
				st.reply = ""
			}
		default:
			st.reply = word + []string{" FAIL", " DEVICE no device", " UNKNOWN", " - no"}[W.N(4)]
			switch i {
			case 0:
				st.reply = []string{"DEVICE -", "DEVICE - unknown hint", "DEVICE RTL|1|2|3|4"}[W.N(3)]
			case 5:
				st.reply = "HEADER " + []string{"MAYBE", "UNKNOWN", "O"}[W.N(3)]
			case 6:
				st.reply = []string{"DEST FAIL", "DEST OK", "DEST OK nowhere", "DEST OK 127.0.0.1:99999"}[W.N(4)]
			case 7:
				st.reply = []string{"GO FAIL", "GO RUNNING", "GO UNKNOWN", "GO DEVICE no active device"}[W.N(4)]
			}
		}
	}
}

// match tells whether a line is the expected command.
func (st *step) match(line string) bool {
	if st.num == 0 {
		return line == st.line
	}
	f := strings.Split(line, " ")
	if len(f) != 2 || f[0] != st.line {
		return false
	}
	v, err := strconv.ParseFloat(f[1], 64)
	return err == nil && v == st.num
}

// serve is the server's side of the control connection.
func (w *world) serve(c *simnet.TCPConn) {
	s := w.s
	if _, err := c.Write([]byte("DEVICE -\n")); err != nil {
		return
	}
	var part []byte
	buf := make([]byte, 200)
	for {
		n, err := c.Read(buf)
		for _, x := range buf[:n] {
			if x != '\n' {
				part = append(part, x)
				continue
			}
			line := string(part)
			part = nil
			if w.slack < 0 && (line == "STOP" || line == "DEVICE !") {
				c.Write([]byte(line + " OK\n")) // tidying up before it ends
				continue
			}
			if w.at >= len(w.steps) {
				w.bad("unasked", "%q is sent after the last command", line)
				return
			}
			st := &w.steps[w.at]
			if w.failAt >= 0 && s.Now() > w.failAt+w.slack {
				if w.slack < 0 && w.at <= 3 && w.steps[0].reply == "DEVICE -" {
					w.bad("no-device", "the program goes on with %q when the server answered %q", line, w.steps[0].reply)
					c.Abort()
					return
				}
				w.bad("goes-on", "%q is sent after %s", line, w.failWhat)
				return
			}
			if !st.match(line) {
				w.bad("command", "command %d is %q, expected %q", w.at, line, st.line)
				return
			}
			w.at++
			s.Probe("commands")
			switch st.line {
			case "GO":
				if !w.app.Dead && w.listening() == nil {
					w.bad("deaf", "GO is sent before the program listens at %s", w.dest)
				}
			case "STOP":
				w.stopAt = s.Now()
				if d := s.Now() - w.goAt; d < 29_900e6 || d > 40e9 {
					w.bad("duration", "it records for %d ms", d/1e6)
				}
			}
			simrt.Sleep(st.delay)
			b := []byte(st.reply + "\n")
			if st.bad || st.brk != 0 {
				s.Fault([]string{"refusal", "connection_ends_inside_reply", "connection_ends", "connection_reset"}[st.brk])
			}
			switch st.brk {
			case 1:
				b = b[:st.cut]
			case 2, 3:
				b = nil
			}
			if st.cut > 0 && st.cut < len(b) {
				c.Write(b[:st.cut])
				simrt.Sleep(1e6)
				b = b[st.cut:]
			}
			if st.bad {
				w.failed(fmt.Sprintf("%q was answered %q (kind %d)", line, st.reply, st.brk))
				w.slack = -1
			} else if st.line == "GO" {
				w.goAt = s.Now()
			}
			c.Write(b)
			switch st.brk {
			case 1, 2:
				c.Close()
				return
			case 3:
				c.Abort()
				return
			}
		}
		if err != nil {
			c.Close()
			return
		}
	}
}

func (w *world) listening() *simnet.UDPConn {
	for _, u := range simnet.Of().OpenUDP(w.app) {
		if u.LocalAddr().String() == w.dest {
			return u
		}
	}
	return nil
}

type dgram struct {
	size int
	gap  int64
	err  int
}

// samples appends what the file holds for a datagram.
func (w *world) samples(d []byte) {
	if w.hdr {
		if len(d) < 4 {
			w.failed(fmt.Sprintf("a datagram of %d bytes", len(d)))
			return
		}
		d = d[4:]
	}
	for ; len(d) >= 4; d = d[4:] {
		for k := 0; k < 4; k += 2 {
			v := float32(int16(uint16(d[k]) | uint16(d[k+1])<<8))
			w.exp = binary.LittleEndian.AppendUint32(w.exp, math.Float32bits(v))
		}
	}
	w.marks = append(w.marks, len(w.exp))
}

func (w *world) content() (data, durable []byte) {
	if i := w.disk.Files[file]; i != nil {
		return i.Data, i.Durable
	}
	return nil, nil
}

// check compares the file with what was received; all but the last n datagrams must be in it completely.
func (w *world) check(data []byte, n int, when string) {
	if !bytes.HasPrefix(w.exp, data) {
		k := 0
		for k < len(data) && k < len(w.exp) && data[k] == w.exp[k] {
			k++
		}
		w.bad("content", "%s the file of %d bytes differs from the %d bytes received at byte %d", when, len(data), len(w.exp), k)
		return
	}
	if i := len(w.marks) - 1 - n; i >= 0 && len(data) < w.marks[i] {
		w.bad("incomplete", "%s the file holds %d of the %d bytes of the datagrams received before the last", when, len(data), w.marks[i])
	}
}

func root(s *simrt.Sim) {
	W := s.Src.W
	n := simnet.Of()
	n.P.LatMin, n.P.LatMax = 1000, int64(pick(W, 1000, 100_000, 10_000_000))
	faulty := W.Chance(3, 4)
	if faulty {
		n.P.Loss, n.P.Dup, n.P.Reorder = pick(W, 0, 50), pick(W, 0, 50), pick(W, 0, 100)
		n.P.RcvBuf = pick(W, 1<<20, 30_000)
		n.P.Frag, n.P.ShortRead = pick(W, 0, 300), pick(W, 0, 300)
	}
	app := &simrt.Proc{Name: "rx", IP: "10.1.0.1"}
	srv := &simrt.Proc{Name: "server", IP: "10.1.0.1", Harness: true}
	s.Values["app"] = app
	w := &world{s: s, app: app, disk: simos.DiskOf(), failAt: -1}
	w.script(W)
	s.Values["world"] = w
	noServer := faulty && W.Chance(1, 40)
	crashAt := int64(-1)
	if faulty && W.Chance(1, 4) {
		crashAt = int64(1+W.N(1000)) * 35e6
	}
	diskFull, syncFail, createFail := -1, -1, false
	if faulty && W.Chance(1, 5) {
		switch W.N(3) {
		case 0:
			diskFull = W.N(20000)
		case 1:
			syncFail = W.N(20)
		default:
			createFail = true
		}
	}
	var dgs []dgram
	style := W.N(3)
	for k := W.N(40); k > 0; k-- {
		d := dgram{size: 4 * W.N(60)}
		switch style {
		case 1:
			d.size = pick(W, 4, 8, 16388, 16384, 65507, 0, 5, 6, 7, 131)
		case 2:
			d.size = 4 + W.N(300)
		}
		d.gap = int64(W.N(5)) * int64(pick(W, 0, 1e6, 1e8, 1e9))
		if faulty && W.Chance(1, 150) {
			d.err = 1 + W.N(3)
		}
		if w.hdr && d.size < 4 && !(faulty && W.Chance(1, 40)) {
			d.size += 4
		}
		dgs = append(dgs, d)
	}
	seed := uint32(W.N(1 << 20))
	if !noServer {
		s.Spawn(srv, "server", func() {
			a, _ := simnet.ResolveTCPAddr("tcp", "0.0.0.0:28888")
			l, err := simnet.ListenTCP("tcp", a)
			if err != nil {
				panic(err)
			}
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				s.Spawn(srv, "conn", func() { w.serve(c) })
			}
		})
	} else {
		s.Fault("no_server")
		w.failed("no server answers")
	}
	n.OnUDPRecv = func(c *simnet.UDPConn, d []byte) {
		if c.Proc != app || app.Dead {
			return
		}
		// the program asks for another datagram: everything before is on the disk
		_, dur := w.content()
		if w.failAt < 0 {
			w.check(dur, 0, "when another datagram is awaited, of what is safe on the disk,")
		}
		s.Probe("datagrams")
		s.State(uint64(min(len(d), 70000)/64), b2u(w.hdr), uint64(len(w.marks)), b2u(w.failAt >= 0), uint64(w.at))
		w.samples(d)
	}
	written, syncs := 0, 0
	w.disk.WriteN = func(name string, asked int) (int, error) {
		if name != file {
			return asked, nil
		}
		if diskFull >= 0 && written+asked > diskFull {
			k := max(0, diskFull-written)
			written += k
			s.Fault("disk_full")
			w.failed("the disk was full")
			return k, syscall.ENOSPC
		}
		written += asked
		return asked, nil
	}
	w.disk.Fail = func(op, name string) error {
		switch {
		case op == "open" && createFail:
			s.Fault("create_failure")
			w.failed("the file could not be created")
			return syscall.EACCES
		case op == "sync" && syncFail >= 0:
			if syncs++; syncs > syncFail {
				s.Fault("sync_failure")
				w.failed("the file could not be synced")
				return syscall.EIO
			}
		}
		return nil
	}
	s.Spawn(srv, "sender", func() {
		for w.goAt == 0 {
			if app.Dead || s.Now() > 100e9 {
				return
			}
			simrt.Sleep(1e6)
		}
		a, _ := simnet.ResolveUDPAddr("udp", w.dest)
		out, err := simnet.DialUDP("udp", nil, a)
		if err != nil {
			panic(err)
		}
		x := seed
		for _, d := range dgs {
			simrt.Sleep(d.gap)
			if app.Dead {
				return
			}
			if d.err > 0 {
				if c := w.listening(); c != nil && w.stopAt == 0 {
					s.Fault("receive_error")
					w.failed("a receive error")
					c.InjectRecvErr([]error{syscall.ECONNREFUSED, syscall.ENOBUFS, syscall.EHOSTUNREACH}[d.err-1])
				}
				continue
			}
			b := make([]byte, d.size)
			for j := range b {
				x = x*1664525 + 1013904223
				b[j] = byte(x >> 24)
			}
			out.Write(b)
		}
	})
	simrt.Sleep(1e6)
	if crashAt >= 0 {
		s.After(crashAt, func() {
			if !app.Dead {
				s.Fault("power_failure")
				w.crashed = true
				s.KillProc(app)
			}
		})
	}
	s.Quiet(func() { borip.SimReset(); program.SimReset() })
	s.Spawn(app, "main", func() {
		program.SimMain()
		simrt.Exit(0)
	})
	for k := 0; !app.Dead; k++ {
		if k > 200_000 {
			w.bad("hang", "the program does not come to an end: %s", s.TaskDump(app))
			return
		}
		simrt.Sleep(1e6)
		if w.failAt >= 0 && s.Now() > w.failAt+10e9 && !app.Dead {
			if w.at == 8 && w.slack < 0 {
				w.bad("go-ignored", "the program records on although GO was answered %q (kind %d)", w.steps[7].reply, w.steps[7].brk)
				return
			}
			w.bad("goes-on", "10 s after %s the program still runs", w.failWhat)
			return
		}
	}
	if s.Probes["commands"] > 0 {
		s.Probe("nontrivial")
	}
	data, dur := w.content()
	if w.crashed {
		w.check(dur, 1, "after the power failure")
		return
	}
	w.check(data, 1, "when it has ended")
	if app.Crashed {
		return
	}
	s.Probe(fmt.Sprint("exit_", app.ExitCode))
	if w.failAt >= 0 {
		if app.ExitCode == 0 {
			w.bad("exit-status", "the exit status is 0 although %s", w.failWhat)
		}
		return
	}
	if app.ExitCode == 1 && w.over() && strings.HasSuffix(strings.TrimSpace(string(app.Stderr)), "use of closed network connection") {
		w.bad("end-of-recording", "the program ended its recording with exit status 1: %s", tail(app.Stderr))
		return
	}
	if app.ExitCode != 0 {
		w.bad("exit-status", "the exit status is %d although nothing failed: %s", app.ExitCode, tail(app.Stderr))
		return
	}
	if !w.over() {
		w.bad("commands", "only %d of %d commands were sent", w.at, len(w.steps))
	}
}

// over tells whether the recording was ended as it should be.
func (w *world) over() bool {
	return w.at == len(w.steps) || w.steps[8].brk != 0 && w.at == 9
}

func tail(b []byte) string {
	if len(b) > 200 {
		b = b[len(b)-200:]
	}
	return string(b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func after(s *simrt.Sim) {
	switch s.Status {
	case "deadlock":
		s.Violate("E02", "stuck", "nothing can proceed any more")
	case "steps":
		s.Violate("E02", "livelock", "the program does not come to an end")
	}
	if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
		if w, _ := s.Values["world"].(*world); w != nil && w.at <= 3 && w.steps[0].reply == "DEVICE -" {
			s.ViolateFirst("E02", "no-device", "the program panicked when the server answered %q: %s", w.steps[0].reply, p.CrashMsg)
			return
		}
		s.ViolateFirst("E02", "panic", "the program panicked: %s", p.CrashMsg)
	}
}

// World decides E02.
func World() *harness.World {
	return &harness.World{
		Prop: "E02",
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 60_000_000, PreemptMean: pick(src.W, 0, 20, 5, 200), RaceMean: pick(src.W, 0, 30)}
		},
		Root:   root,
		After:  after,
		Real:   []string{"borip/example (the whole program, through main())", "borip client package and packet reader"},
		Stub:   []string{"BorIP server (scripted)", "TCP/UDP network (simulated)", "file system with power failures (simulated)", "scheduler, clock, log (simulated)"},
		Rule:   "the program sent at least one command",
		State:  "at each datagram: its size class, headers on, datagrams so far, a fault pending, commands so far",
		Assume: []string{"the server answers each command with one line or ends the connection", "only synced data survives a power failure, wholly"},
		Quick:  20, Thorough: 300,
	}
}

var _ = borip.ErrShortPacket
