// Package e2e runs this repository's BorIP clients and packet readers against its BorIP server.
package e2e

import (
	"fmt"
	"math"
	"strings"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-rtlsdr/rtl"
	"verif/sim/harness"
	simnet "verif/sim/simlib/net"
	simtime "verif/sim/simlib/time"
	"verif/sim/simrt"
	"verif/sim/worlds/bserver"
)

const prop = "E01"

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

type op struct {
	k    string
	f    float64
	port int // for dest: which of the session's readers
	d    int64
}

type script struct {
	start   int64
	ops     []op
	end     int // 0 Close, 1 process killed, 2 connection cut, 3 reset, 4 Close twice
	early   int64
	bufs    []int
	defDest bool // one reader is bound to the destination the server assumes
}

type sent struct {
	st  *bserver.Stream
	seq int
	off int
	n   int // values
	to  string
	err bool
}

type rec struct {
	ptr     *byte
	hd      borip.PacketHeader
	samples []complex128
}

type reader struct {
	conn *simnet.UDPConn
	addr string
	recs []*rec
	full []byte
	mixH bool
	done bool
}

func (t *reader) ReadFrom(b []byte) (int, simnet.Addr, error) {
	n, a, err := t.conn.ReadFrom(b)
	if err == nil {
		r := &rec{}
		if len(t.full) > 0 {
			r.ptr = &t.full[0]
		}
		t.recs = append(t.recs, r)
	}
	return n, a, err
}

// tap is the socket a packet reader reads.
type tap struct {
	*simnet.UDPConn
	t *reader
}

func (t tap) ReadFrom(b []byte) (int, simnet.Addr, error) { return t.t.ReadFrom(b) }

type world struct {
	live   int // sessions that are going on
	s      *simrt.Sim
	m      *bserver.Monitor
	n      *simnet.Network
	h      *rtl.Hardware
	srv    *simrt.Proc
	faulty bool
	packet map[*byte]*sent
	log    []*sent
	rd     map[*simnet.UDPConn]*reader
	stop   map[*bserver.Stream]bool
	wind   bool
}

func (w *world) bad(class, f string, a ...any) { w.s.Violate(prop, class, f, a...) }

type session struct {
	w       *world
	id      string
	p       *simrt.Proc
	sc      *script
	ip      string
	port    int
	b       *borip.BorIP
	sess    *bserver.Sess
	dev     *borip.Device
	dest    string
	run     bool
	gone    bool // the harness broke the connection
	over    bool
	readers []*reader
}

func (x *session) tuner() *rtl.Tuner {
	for _, t := range x.w.h.Tuners {
		if t.Cur != nil && t.Cur.Tag == x.sess.Tag {
			return t
		}
	}
	return nil
}

// steady reports whether the tuner can be compared with what the client was told.
func (x *session) steady(t *rtl.Tuner) bool {
	return t != nil && !t.Lost && len(x.w.m.GoneAt[t]) == 0 && !x.gone
}

// refused reports whether the last reply of the server was an error reply.
func refused(reply string) bool {
	p := strings.SplitN(reply, " ", 3)
	if len(p) < 2 {
		return true
	}
	switch p[1] {
	case "-":
		return p[0] != "DEVICE" || len(p) > 2
	case "FAIL", "DEVICE", "UNKNOWN", "RUNNING", "STOPPED":
		return true
	}
	return false
}

// outcome checks an error against what the server said; it reports whether the call succeeded.
func (x *session) outcome(what string, err error, mustWork, mustFail bool) bool {
	w := x.w
	if x.gone || w.srv.Dead {
		return err == nil
	}
	reply := ""
	for _, l := range x.sess.Lines {
		if l.Done != 0 {
			reply = l.Reply
		}
	}
	if err != nil {
		w.s.Probe("calls_refused")
		if !refused(reply) && x.sess.Cli.Open() && !x.sess.Cli.Broken() {
			w.bad("client-error", "client %s: %s reports %v although the server answered %q", x.id, what, err, reply)
		}
		if mustWork && !w.faulty {
			w.bad("refused", "client %s: %s fails (%v, server answered %q) without any fault", x.id, what, err, reply)
		}
		return false
	}
	w.s.Probe("calls_succeeded")
	if mustFail {
		w.bad("no-error", "client %s: %s reports success (server answered %q)", x.id, what, reply)
	}
	return true
}

func near(a, b float64) bool { return math.Abs(a-b) <= math.Max(1e-5, 1e-12*math.Abs(b)) }

func (x *session) value(what string, got float64, t *rtl.Tuner, want func() float64) {
	if x.steady(t) && !near(got, want()) {
		x.w.bad("value", "client %s: %s reports %v, the tuner has %v", x.id, what, got, want())
	}
}

func (x *session) step(o *op) {
	w := x.w
	b := x.b
	t := x.tuner()
	has := t != nil
	// after the loss of a tuner the server may have ended the stream
	sure := func() bool { return t == nil || x.steady(t) }
	w.s.Event("call", x.id, o.k)
	from := w.m.Clock()
	// applied checks that a setting that succeeded set the tuner to what was asked for
	applied := func(what, op string) {
		if !x.steady(t) {
			return
		}
		if last, any, ok := w.m.Applied(x.sess, from, op, o.f); !any {
			w.bad("not-set", "client %s: %s(%v) succeeds but the tuner was not set", x.id, what, o.f)
		} else if !ok {
			w.bad("not-set", "client %s: %s(%v) succeeds but set the tuner to %d", x.id, what, o.f, last)
		}
	}
	switch o.k {
	case "select":
		d, err := b.SelectDevice("-")
		x.run = false
		x.dev = nil
		if !x.outcome("SelectDevice", err, false, false) {
			return
		}
		if d == nil {
			w.bad("no-device", "client %s: SelectDevice(\"-\") returns neither a device nor an error", x.id)
			return
		}
		x.dev = d
		t = x.tuner()
		if x.gone {
			return
		}
		if t == nil {
			w.bad("no-tuner", "client %s: SelectDevice(\"-\") succeeds but no tuner is open for it", x.id)
			return
		}
		x.describe(d, t)
	case "release":
		_, err := b.SelectDevice("!")
		x.outcome("SelectDevice(!)", err, true, false)
		if err == nil {
			x.dev, x.run = nil, false
			if t := x.tuner(); t != nil && !x.gone {
				w.bad("still-held", "client %s: SelectDevice(\"!\") succeeds but tuner %d is still open for it", x.id, t.Idx)
			}
		}
	case "setfreq":
		target, act, _, _, err := b.SetFrequency(o.f)
		if x.outcome("SetFrequency", err, has && o.f <= float64(t.FreqMax), !has && x.dev == nil) {
			if !near(target, o.f) {
				w.bad("value", "client %s: SetFrequency(%v) reports the target %v", x.id, o.f, target)
			}
			applied("SetFrequency", "setfreq")
			x.value(fmt.Sprintf("SetFrequency(%v)", o.f), act, t, func() float64 { return float64(t.Freq) })
		}
	case "freq":
		v, err := b.Frequency()
		if x.outcome("Frequency", err, has, !has && x.dev == nil) {
			x.value("Frequency", v, t, func() float64 { return float64(t.Freq) })
		}
	case "setrate":
		v, err := b.SetRate(o.f)
		if x.outcome("SetRate", err, has && o.f >= 1 && uint(o.f) <= t.RateMax, !has && x.dev == nil) {
			applied("SetRate", "setrate")
			x.value(fmt.Sprintf("SetRate(%v)", o.f), v, t, func() float64 { return float64(t.Rate) })
		}
	case "rate":
		v, err := b.Rate()
		if x.outcome("Rate", err, has, !has && x.dev == nil) {
			x.value("Rate", v, t, func() float64 { return float64(t.Rate) })
		}
	case "setgain":
		if x.outcome("SetGain", b.SetGain(o.f), has, !has && x.dev == nil) {
			applied("SetGain", "setgain")
		}
	case "gain":
		v, err := b.Gain()
		if x.outcome("Gain", err, has, !has && x.dev == nil) {
			x.value("Gain", v, t, func() float64 { return float64(t.Gain) })
		}
	case "setant":
		if x.dev != nil && len(x.dev.ValidAntennas) > 0 {
			x.outcome("SetAntenna", b.SetAntenna(x.dev.ValidAntennas[int(o.f)%len(x.dev.ValidAntennas)]), has, false)
		}
	case "ant":
		a, err := b.Antenna()
		if x.outcome("Antenna", err, has, !has && x.dev == nil) && x.dev != nil {
			ok := false
			for _, v := range x.dev.ValidAntennas {
				ok = ok || v == a
			}
			if !ok {
				w.bad("antenna", "client %s: Antenna is %q, the tuner's antennas are %q", x.id, a, x.dev.ValidAntennas)
			}
		}
	case "setdest":
		a := x.readers[o.port%len(x.readers)].addr
		g, err := b.SetDestination(a)
		if x.outcome("SetDestination", err, true, false) {
			if g != a {
				w.bad("destination", "client %s: SetDestination(%q) reports %q", x.id, a, g)
			}
			x.dest = a
		}
	case "dest":
		g, err := b.Destination()
		if x.outcome("Destination", err, true, false) && g != x.dest {
			w.bad("destination", "client %s: Destination reports %q, it is %q", x.id, g, x.dest)
		}
	case "go":
		err := b.Go()
		if x.outcome("Go", err, has && !x.run && sure(), (!has && x.dev == nil) || x.run && sure() && !w.faulty) {
			x.run = true
			if t := x.tuner(); x.steady(t) && !x.streaming() && !w.faulty {
				w.bad("not-streaming", "client %s: Go succeeds but the tuner is not being read", x.id)
			}
		}
	case "stop":
		err := b.Stop()
		if x.outcome("Stop", err, x.run && sure(), !x.run) {
			for _, st := range x.sess.Streams {
				if !st.R.Failed {
					w.stop[st] = true
				}
			}
		}
		if err == nil || !x.gone {
			x.run = false
		}
	case "sleep":
		simrt.Sleep(o.d)
	case "settle":
		simrt.Sleep(2e9)
		w.m.Settled()
	}
	nr := 0
	for _, r := range x.readers {
		nr += len(r.recs)
	}
	if nr > 8 {
		nr = 8
	}
	bit := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	w.s.State(hash(o.k), bit(x.dev != nil), bit(x.run), uint64(nr), uint64(len(x.sess.Streams)), bit(x.gone), uint64(len(w.h.Tuners)))
}

func hash(t string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(t); i++ {
		h = (h ^ uint64(t[i])) * 1099511628211
	}
	return h
}

func (x *session) streaming() bool {
	for _, st := range x.sess.Streams {
		if st.R.Active() {
			return true
		}
	}
	return false
}

func (x *session) describe(d *borip.Device, t *rtl.Tuner) {
	w := x.w
	if !x.steady(t) || w.faulty {
		if d.Name != t.Name {
			w.bad("device", "client %s: the device is %q, the tuner is %q", x.id, d.Name, t.Name)
		}
		return
	}
	if d.Name != t.Name {
		w.bad("device", "client %s: the device is %q, the tuner is %q", x.id, d.Name, t.Name)
	}
	if g := t.Gains; len(g) > 0 {
		if d.MinGain != float64(g[0]) || d.MaxGain != float64(g[len(g)-1]) || len(g) > 1 && d.GainStep != float64(g[1]-g[0]) {
			w.bad("device", "client %s: gains %v to %v by %v, the tuner has %v", x.id, d.MinGain, d.MaxGain, d.GainStep, g)
		}
	}
	if d.FPGAFreq != float64(t.XtalTuner) {
		w.bad("device", "client %s: frequency %v, the tuner has %v", x.id, d.FPGAFreq, t.XtalTuner)
	}
	if d.SamplesPerPacket != bserver.MaxPacketSamples {
		w.bad("device", "client %s: %d samples per packet, packets hold up to %d", x.id, d.SamplesPerPacket, bserver.MaxPacketSamples)
	}
	if len(d.ValidAntennas) == 0 || d.ValidAntennas[0] == "" {
		w.bad("device", "client %s: no antenna", x.id)
	}
}

// open makes a socket and its packet reader.
func (x *session) open(port int) *reader {
	w := x.w
	r := &reader{addr: fmt.Sprintf("%s:%d", x.ip, port)}
	a, _ := simnet.ResolveUDPAddr("udp", fmt.Sprintf("0.0.0.0:%d", port))
	c, err := simnet.ListenUDP("udp", a)
	if err != nil {
		panic(err)
	}
	r.conn = c
	w.rd[c] = r
	bufs := x.sc.bufs
	w.s.Spawn(x.p, "reader-"+x.id, func() {
		rd := borip.NewPacketReader(tap{c, r}, true)
		for k := 0; ; k++ {
			buf := make([]complex128, bufs[k%len(bufs)])
			c.SetReadDeadline(simtime.Now().Add(300 * simtime.Millisecond))
			n, err := rd.ReadSamples(buf)
			if !c.Open() || w.srv.Dead {
				return
			}
			if err != nil {
				if ne, ok := err.(simnet.Error); ok && ne.Timeout() {
					if x.over {
						break
					}
					continue
				}
				w.bad("reader", "client %s: reading samples fails: %v", x.id, err)
				break
			}
			if n < 0 || n > len(buf) || len(r.recs) == 0 {
				w.bad("reader", "client %s: %d samples read into %d", x.id, n, len(buf))
				break
			}
			w.s.Probe("reads")
			q := r.recs[len(r.recs)-1]
			if len(q.samples) == 0 {
				q.hd = rd.Header()
			} else if q.hd != rd.Header() {
				w.bad("header", "client %s: the header changes within a packet", x.id)
			}
			q.samples = append(q.samples, buf[:n]...)
		}
		r.done = true
	})
	return r
}

func (x *session) main() {
	w := x.w
	for i := range x.readers {
		port := x.port + i
		if x.sc.defDest && i == 0 {
			port = 28888
		}
		x.readers[i] = x.open(port)
	}
	b, err := borip.Dial(fmt.Sprintf("%s:%d", bserver.ServerIP, bserver.Port))
	for _, c := range w.m.Sess {
		if c.Cli.Proc == x.p {
			x.sess = c
		}
	}
	if err != nil {
		if !x.gone && !w.srv.Dead {
			w.bad("dial", "client %s: Dial fails: %v", x.id, err)
		}
		return
	}
	if x.sess == nil {
		return
	}
	x.b = b
	x.dest = fmt.Sprintf("%s:28888", x.ip)
	for i := range x.sc.ops {
		if w.srv.Dead || w.wind || x.gone && i > 0 && x.sc.ops[i].k != "stop" {
			break
		}
		x.step(&x.sc.ops[i])
	}
	if x.sc.end == 0 || x.sc.end == 4 || x.gone {
		running := x.run
		b.Close()
		w.s.Probe("closed")
		if !x.gone && !w.srv.Dead && w.s.Now() > 0 {
			if x.sess.Cli.Open() {
				w.bad("not-closed", "client %s: the connection stays open after Close", x.id)
			}
			if running && x.streaming() && !w.faulty {
				w.bad("streams-on", "client %s: the tuner is still being read after Close", x.id)
			}
			if t := x.tuner(); t != nil && x.dev != nil && !w.faulty {
				w.bad("held-on", "client %s: tuner %d is still held after Close", x.id, t.Idx)
			}
		}
		if x.sc.end == 4 {
			b.Close()
		}
	}
}

// vanish breaks the session the hard way.
func (x *session) vanish() {
	w := x.w
	if x.over || x.gone {
		return
	}
	if x.sess == nil {
		for _, c := range w.m.Sess {
			if c.Cli.Proc == x.p {
				x.sess = c
			}
		}
	}
	end := x.sc.end
	if end == 1 && w.live > 1 { // the clients share the package's variables: only the last one can be killed
		end = 2
	}
	switch end {
	case 1:
		w.s.Fault("client_killed")
		x.gone = true
		w.s.KillProc(x.p)
		w.s.Quiet(borip.SimReset)
	case 2:
		if x.sess != nil && x.sess.Cli.Open() {
			x.gone = true
			x.sess.Cli.Cut()
			w.m.EndSession(x.sess)
		}
	case 3:
		if x.sess != nil && x.sess.Cli.Open() {
			x.gone = true
			x.sess.Cli.Abort()
		}
	}
}

func value(b byte) float64 {
	v := b - 128
	return float64(int16(uint16(v)<<8 | uint16(v)))
}

// verify compares what the readers of a session obtained with what its tuner delivered.
func (x *session) verify() {
	w := x.w
	if x.sess == nil || w.srv.Dead {
		return
	}
	fl := w.s.Faults
	clean := fl["udp_loss"]+fl["udp_duplicate"]+fl["udp_reorder"]+fl["udp_rcvbuf_overflow"] == 0
	for _, r := range x.readers {
		if r == nil {
			continue
		}
		last := map[*bserver.Stream]int{}
		got := map[*sent]bool{}
		for i, q := range r.recs {
			p := w.packet[q.ptr]
			if p == nil {
				continue // reported already
			}
			got[p] = true
			if p.st.Sess != x.sess {
				w.bad("foreign-samples", "client %s received a packet of the tuner of session %d", x.id, p.st.Sess.Tag)
				return
			}
			if p.n == 0 {
				continue
			}
			if len(q.samples) == 0 && i == len(r.recs)-1 {
				continue
			}
			w.s.Probe("packets_read")
			if (q.hd.Flags&borip.FlagStreamStart != 0) != (p.seq == 0) {
				w.bad("flags", "client %s: packet %d of its stream is reported with flags %02x", x.id, p.seq, q.hd.Flags)
			}
			if int(q.hd.Idx) != p.seq&0xffff {
				w.bad("sequence", "client %s: a packet is reported with sequence number %d, it is packet %d of its stream", x.id, q.hd.Idx, p.seq)
				return
			}
			part := i == len(r.recs)-1 && !r.done
			if len(q.samples) != p.n/2 && !(part && len(q.samples) < p.n/2) {
				w.bad("samples", "client %s: packet %d yields %d samples, it holds %d", x.id, p.seq, len(q.samples), p.n/2)
				return
			}
			for k, v := range q.samples {
				j := p.off + 2*k
				if e := complex(value(p.st.R.Bytes[j]), value(p.st.R.Bytes[j+1])); v != e {
					w.bad("samples", "client %s: sample %d of packet %d is %v, the tuner delivered %v", x.id, k, p.seq, v, e)
					return
				}
			}
			if clean && w.n.P.LatMin == w.n.P.LatMax {
				if l, ok := last[p.st]; ok && p.seq <= l {
					w.bad("order", "client %s: packet %d is read after packet %d", x.id, p.seq, l)
					return
				}
			}
			last[p.st] = p.seq
		}
		if !clean || x.gone || x.sess.Over || !r.done {
			continue
		}
		for _, p := range w.log {
			if p.st.Sess == x.sess && p.to == r.addr && !p.err && !got[p] && p.n > 0 {
				w.bad("lost", "client %s: packet %d of a stream never reaches the reader although nothing was lost on the way", x.id, p.seq)
				return
			}
		}
		w.s.Probe("complete_sessions")
	}
}

func genScript(src *simrt.Src, faulty, first bool) script {
	W := src.W
	var sc script
	sc.start = int64(W.N(4)) * int64(pick(W, 1e5, 1e7, 3e8))
	sc.defDest = first && W.N(3) == 0
	add := func(k string) {
		o := op{k: k}
		switch k {
		case "setfreq":
			o.f = []float64{100e6, 144.1e6, 98500000.5, 1766000001, 433920000, 24000999, 0, 1, 1420405751, 1090000123.75, 2150000000.5, 3999999999}[W.N(12)]
		case "setrate":
			o.f = []float64{1e6, 2048000, 250001, 3200001, 1234567.25, 0, 1800001, 2999999}[W.N(8)]
		case "setgain":
			o.f = []float64{0, 10, -10, -99, 496, 25.5, -0.5, 1000}[W.N(8)]
		case "setant":
			o.f = float64(W.N(3))
		case "setdest":
			o.port = W.N(2)
		case "sleep":
			o.d = int64(1+W.N(400)) * int64(pick(W, 1e6, 1e5, 1e4))
		}
		sc.ops = append(sc.ops, o)
	}
	if W.Chance(2, 3) {
		add("select")
		if !sc.defDest || W.Chance(1, 2) {
			add("setdest")
		}
		if W.Chance(1, 2) {
			add("go")
			add("sleep")
		}
	}
	names := []string{"select", "release", "setfreq", "freq", "setrate", "rate", "setgain", "gain", "setant", "ant", "setdest", "dest", "go", "stop", "sleep", "settle"}
	k := W.N(16)
	if W.Chance(1, 80) { // very many calls on one connection
		k = pick(W, 40, 70, 140, 270)
		if W.Chance(1, 2) {
			for ; k > 0; k-- {
				add("go")
				add("stop")
			}
		}
	}
	for ; k > 0; k-- {
		add(names[W.Weighted(6, 2, 4, 4, 3, 3, 3, 3, 2, 3, 5, 4, 12, 9, 10, 3)])
	}
	sc.end = W.Weighted(5, 2, 2, 2, 1)
	if !faulty && sc.end < 4 {
		sc.end = 0
	}
	if sc.end >= 1 && sc.end <= 3 {
		sc.early = int64(1+W.N(1000)) * int64(pick(W, 1e4, 1e5, 1e6, 3e6))
	}
	for k := 1 + W.N(4); k > 0; k-- {
		sc.bufs = append(sc.bufs, pick(W, 8192, 4096, 4095, 1000, 64, 7, 100_000, 4097))
	}
	return sc
}

func root(s *simrt.Sim) {
	src := s.Src
	W := src.W
	n := simnet.Of()
	h := rtl.Of()
	nt := 1 + W.N(3)
	h.Tuners = bserver.Tuners(src, nt)
	faulty := bserver.Faults(src, n, h)
	n.P.ICMP = n.P.ICMP && faulty
	n.P.RcvBuf = 1 << 24
	if n.P.Window < 4096 {
		n.P.Window = 4096
	}
	if W.Chance(1, 3) {
		n.P.LatMin = n.P.LatMax
	}
	if faulty && W.Chance(1, 3) {
		n.P.RcvBuf = pick(W, 60_000, 200_000)
	}
	h.P.MaxBytes = pick(W, 1<<15, 1<<13, 1<<17)
	nc := 1 + W.N(4)
	scripts := make([][]script, nc)
	for i := range scripts {
		j := 1 + W.N(3)
		if W.Chance(1, 150) {
			j = pick(W, 20, 40, 80)
			s.Probe("many_sessions")
		}
		for ; j > 0; j-- {
			scripts[i] = append(scripts[i], genScript(src, faulty, len(scripts[i]) == 0))
		}
	}
	total := 0
	for i := range scripts {
		for j := range scripts[i] {
			total += len(scripts[i][j].ops)
		}
	}
	if total > 150 { // keeps such a run cheap
		h.P.MaxBytes = 1 << 13
		for i := range scripts {
			for j := range scripts[i] {
				scripts[i][j].bufs = []int{8192}
			}
		}
	}
	type unplug struct {
		at, back int64
		t        int
	}
	var unplugs []unplug
	if faulty && W.Chance(1, 5) {
		unplugs = append(unplugs, unplug{int64(1+W.N(2000)) * 1e6, int64(W.N(1000)) * 1e6, W.N(nt)})
	}
	srv := bserver.StartServer(s)
	s.Values["server"] = srv
	m := bserver.NewMonitor(s, srv, prop)
	w := &world{s: s, m: m, n: n, h: h, srv: srv, faulty: faulty, packet: map[*byte]*sent{}, rd: map[*simnet.UDPConn]*reader{}, stop: map[*bserver.Stream]bool{}}
	m.Also = func(p, class string) bool {
		switch p {
		case "S01", "S04":
			return class != "flags" && class != "header" && class != "length"
		case "S02":
			return class == "tuner-kept" || class == "read-kept" || class == "not-available-again"
		case "S03":
			return class == "no-reply" || class == "session-dropped" || class == "not-serving" || class == "not-listening"
		case "S05":
			return class == "packet-after-stop" || class == "stream-ended-by-server" || class == "go-refused"
		}
		return false
	}
	m.OnPacket = func(st *bserver.Stream, b []byte, err error, seq, off int) {
		p := &sent{st, seq, off, (len(b) - 4) / 2, st.Dest, err != nil}
		w.log = append(w.log, p)
		if err == nil {
			w.packet[&b[0]] = p
		}
		if w.stop[st] {
			w.bad("sent-after-stop", "session %d: a packet is sent after Stop has returned", st.Sess.Tag)
		}
	}
	n.OnUDPRecv = func(c *simnet.UDPConn, b []byte) {
		if r := w.rd[c]; r != nil {
			r.full = b
		}
	}
	simrt.Sleep(1e6)
	for i := 0; i < 100 && !n.Listening(srv, bserver.Port) && !srv.Dead; i++ {
		simrt.Sleep(10e6)
	}
	s.Quiet(borip.SimReset)
	for _, u := range unplugs {
		u := u
		s.After(u.at, func() {
			if t := h.Tuners[u.t]; !t.Lost && !w.wind {
				m.Unplug(t)
				s.After(u.back, func() { h.Replug(t) })
			}
		})
	}
	var q simrt.WaitQ
	running := nc
	var all []*session
	for i := range scripts {
		i := i
		hp := &simrt.Proc{Name: fmt.Sprintf("host%d", i), IP: fmt.Sprintf("10.1.0.%d", i+1), Harness: true}
		s.Spawn(hp, hp.Name, func() {
			defer func() { running--; q.WakeAll() }()
			for j := range scripts[i] {
				sc := &scripts[i][j]
				simrt.Sleep(sc.start)
				if srv.Dead || w.wind {
					return
				}
				p := &simrt.Proc{Name: fmt.Sprintf("app%d.%d", i, j), IP: hp.IP}
				x := &session{w: w, id: fmt.Sprintf("%d.%d", i, j), p: p, sc: sc, ip: hp.IP, port: 30000 + 10*j, readers: make([]*reader, 2)}
				all = append(all, x)
				if n.Reliable == nil {
					n.Reliable = map[*simrt.Proc]bool{}
				}
				n.Reliable[p] = true
				s.Values["app"] = p
				var xq simrt.WaitQ
				w.live++
				s.Spawn(p, "app"+x.id, func() {
					x.main()
					x.over = true
					xq.WakeAll()
				})
				if sc.early > 0 {
					s.Spawn(hp, "end"+x.id, func() {
						simrt.Sleep(sc.early)
						x.vanish()
						xq.WakeAll()
					})
				}
				for dl := s.Now() + 300e9; !x.over && !p.Dead; {
					if !xq.Wait("session", dl-s.Now()) {
						w.bad("hang", "client %s: a call does not return: %s", x.id, s.TaskDump(p))
						return
					}
				}
				if sc.end >= 1 && sc.end <= 3 && sc.early > 0 && !x.gone && x.over && x.sess != nil {
					x.over = false
					x.vanish() // the script was over before
				}
				x.over = true
				if p.Crashed && !srv.Dead {
					w.bad("client-crash", "client %s crashed: %s", x.id, p.CrashMsg)
					return
				}
				// the readers finish what has arrived
				for k := 0; k < 40 && !p.Dead; k++ {
					done := true
					for _, r := range x.readers {
						done = done && (r == nil || r.done)
					}
					if done {
						break
					}
					simrt.Sleep(100e6)
				}
				x.verify()
				for _, r := range x.readers {
					if r != nil {
						r.conn.Close()
					}
				}
				if x.sess != nil && x.sess.Cli.Open() && !p.Dead && x.b != nil && !srv.Dead {
					x.b.Close()
				}
				w.live--
			}
		})
	}
	for running > 0 && !srv.Dead {
		if !q.Wait("clients", 400e9) {
			break
		}
	}
	if srv.Dead {
		return
	}
	w.wind = true
	bserver.Calm(n, h)
	m.Stopping()
	for _, t := range h.Tuners {
		if t.Lost {
			h.Replug(t)
		}
	}
	simrt.Sleep(m.Bound + 1e9)
	if srv.Dead {
		return
	}
	m.Probe(s, "final")
	if s.Probes["packets_read"] > 0 || s.Probes["calls_succeeded"] > 2 {
		s.Probe("nontrivial")
	}
}

// World decides E01.
func World() *harness.World {
	return &harness.World{
		Prop: prop,
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 60_000_000, PreemptMean: pick(src.W, 0, 20, 100, 5, 1000), RaceMean: pick(src.W, 0, 30)}
		},
		Root:   root,
		After:  func(s *simrt.Sim) { bserver.After(s, prop) },
		Real:   []string{"boripserver (the whole program, through main())", "borip client and packet reader", "dsp.Ui8toi16b"},
		Stub:   []string{"rtl-sdr driver and tuners (simulated)", "TCP/UDP network (simulated)", "goroutine scheduler, channels, mutexes, clock, log, flags, signals (simulated)"},
		Rule:   "at least one data packet was read by a packet reader or more than two client calls succeeded",
		State:  "client call, device selected, running, packets read so far (up to 8), streams of the session, connection broken, number of tuners",
		Assume: []string{"the simulated driver delivers callbacks of one read serially and reuses the transfer buffer, Close waits for running reads", "preemption happens between statements, not inside one"},
		Quick:  25, Thorough: 420,
	}
}
