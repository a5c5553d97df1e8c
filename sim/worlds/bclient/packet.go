package bclient

import (
	"fmt"
	"syscall"

	"github.com/samuel/go-dsp/borip"
	"verif/sim/harness"
	simnet "verif/sim/simlib/net"
	simtime "verif/sim/simlib/time"
	"verif/sim/simrt"
)

// tap is the socket given to the packet reader; it records what the reader receives.
type tap struct {
	*simnet.UDPConn
	m    *readerModel
	full []byte // the datagram received last, before truncation
}

type qs struct {
	v  complex128
	hd borip.PacketHeader
}

// readerModel is a queue of samples.
type readerModel struct {
	s        *simrt.Sim
	id       int
	headers  bool
	queue    []qs
	bufLen   int // size of the buffer of the read in progress
	errs     []error
	shorts   int
	empty    int // datagrams without samples received during the read in progress
	received int
	bad      bool
	timedOut bool // the last read
}

func (m *readerModel) fail(class, f string, a ...any) {
	if !m.bad {
		m.bad = true
		m.s.Violate("C03", class, "reader %d: "+f, append([]any{m.id}, a...)...)
	}
}

func (t *tap) ReadFrom(b []byte) (int, simnet.Addr, error) {
	m := t.m
	if len(m.queue) > m.bufLen {
		m.fail("awaits-early", "another datagram is awaited while %d samples are left and the buffer holds %d", len(m.queue), m.bufLen)
	}
	n, a, err := t.UDPConn.ReadFrom(b)
	if err != nil {
		m.errs = append(m.errs, err)
		return n, a, err
	}
	m.received++
	d := t.full
	m.s.Probe("datagrams")
	var h borip.PacketHeader
	if m.headers {
		if len(d) < 4 {
			m.shorts++
			m.s.Probe("short_datagrams")
			return n, a, err
		}
		h = borip.PacketHeader{Flags: d[0], Notification: d[1], Idx: uint16(d[2]) | uint16(d[3])<<8}
		d = d[4:]
	}
	if len(d)%4 != 0 {
		m.s.Probe("fragments_dropped")
	}
	if len(d) < 4 {
		m.empty++
	}
	for ; len(d) >= 4; d = d[4:] {
		i := int16(uint16(d[0]) | uint16(d[1])<<8)
		q := int16(uint16(d[2]) | uint16(d[3])<<8)
		m.queue = append(m.queue, qs{complex(float64(i), float64(q)), h})
	}
	return n, a, err
}

type dgop struct {
	size int
	hd   [4]byte
	gap  int64
	err  int // 1..: inject a receive error instead
}

type readop struct {
	n   int
	gap int64
}

func packetRoot(s *simrt.Sim) {
	s.Quiet(borip.SimReset)
	W := s.Src.W
	n := simnet.Of()
	n.P.LatMin, n.P.LatMax = 1000, int64(pick(W, 1000, 100_000, 10_000_000))
	if W.Chance(4, 5) {
		n.P.Loss = pick(W, 0, 50, 200)
		n.P.Dup = pick(W, 0, 50, 200)
		n.P.Reorder = pick(W, 0, 100)
		n.P.RcvBuf = pick(W, 1<<20, 100_000)
	}
	app := &simrt.Proc{Name: "app", IP: "10.1.0.1"}
	snd := &simrt.Proc{Name: "sender", IP: "10.0.0.1", Harness: true}
	s.Values["app"] = app
	nr := 1 + W.N(3)
	left := nr
	var q simrt.WaitQ
	taps := map[*simnet.UDPConn]*tap{}
	n.OnUDPRecv = func(c *simnet.UDPConn, d []byte) {
		if t := taps[c]; t != nil {
			t.full = d
		}
	}
	for i := 0; i < nr; i++ {
		i := i
		headers := W.N(2) == 0
		var dgs []dgop
		style := W.N(4)
		for k := 1 + W.N(12); k > 0; k-- {
			var d dgop
			switch style {
			case 0:
				d.size = 4 * W.N(40)
			case 1:
				d.size = W.N(40)
			case 2:
				d.size = pick(W, 16388, 8196, 1028, 65507, 65504, 32772, 0, 3, 4, 5, 8, 12, 16, 131)
			default:
				d.size = 4 + 4*W.N(300) + pick(W, 0, 0, 0, 1, 2, 3)
			}
			for j := range d.hd {
				d.hd[j] = byte(W.N(256))
			}
			d.gap = int64(W.N(3)) * int64(pick(W, 1000, 1_000_000, 30_000_000))
			if W.Chance(1, 12) {
				d.err = 1 + W.N(4)
			}
			dgs = append(dgs, d)
		}
		var rops []readop
		rstyle := W.N(4)
		for k := 0; k < 6; k++ {
			var r readop
			switch rstyle {
			case 0:
				r.n = 1 + W.N(8)
			case 1:
				r.n = pick(W, 4096, 16384, 100_000)
			case 2:
				r.n = 1 + W.N(600)
			default:
				r.n = pick(W, 1, 2, 3, 7, 64, 4095, 4096, 4097, 0)
			}
			r.gap = int64(W.N(3)) * int64(pick(W, 0, 1_000_000, 20_000_000))
			rops = append(rops, r)
		}
		some := false
		for _, r := range rops {
			some = some || r.n > 0
		}
		if !some { // reads into empty buffers only would never take anything
			rops[len(rops)-1].n = 1
		}
		deadline := int64(0)
		if W.Chance(1, 3) {
			deadline = int64(1+W.N(40)) * 1e6
		}
		patient := W.Chance(1, 5) // the reader waits for as long as it takes
		if patient {
			for k := 1 + W.N(2); k > 0; k-- {
				dgs[W.N(len(dgs))].gap = int64(pick(W, 7, 40, 100, 700, 4000, 100_000)) * 1e9
			}
		}
		seed := uint32(W.N(1 << 20))
		port := 30000 + i
		var conn *simnet.UDPConn
		var senderDone bool
		s.Spawn(snd, fmt.Sprint("sender", i), func() {
			for conn == nil {
				simrt.Sleep(1e6)
			}
			a, _ := simnet.ResolveUDPAddr("udp", fmt.Sprintf("10.1.0.1:%d", port))
			out, err := simnet.DialUDP("udp", nil, a)
			if err != nil {
				panic(err)
			}
			x := seed
			for _, d := range dgs {
				simrt.Sleep(d.gap)
				switch d.err {
				case 1:
					conn.InjectRecvErr(syscall.ECONNREFUSED)
					continue
				case 2:
					conn.InjectRecvErr(syscall.ENOBUFS)
					continue
				case 3:
					conn.InjectRecvErr(syscall.EHOSTUNREACH)
					continue
				}
				b := make([]byte, d.size)
				for j := range b {
					x = x*1664525 + 1013904223
					b[j] = byte(x >> 24)
				}
				copy(b, d.hd[:])
				out.Write(b)
			}
			simrt.Sleep(500e6)
			senderDone = true
			if patient {
				simrt.Sleep(3e9)
				conn.SetReadDeadline(simtime.Now()) // ends the last read
			}
		})
		s.Spawn(app, fmt.Sprint("reader", i), func() {
			defer func() { left--; q.WakeAll() }()
			m := &readerModel{s: s, id: i, headers: headers}
			a, _ := simnet.ResolveUDPAddr("udp", fmt.Sprintf("0.0.0.0:%d", port))
			c, err := simnet.ListenUDP("udp", a)
			if err != nil {
				panic(err)
			}
			conn = c
			t := &tap{UDPConn: c, m: m}
			taps[c] = t
			rd := borip.NewPacketReader(t, headers)
			for k := 0; k < 200000 && !m.bad; k++ {
				r := rops[k%len(rops)]
				if k < 64 {
					simrt.Sleep(r.gap)
				}
				if patient && !senderDone {
					c.SetReadDeadline(simtime.Time{})
				} else if deadline > 0 || senderDone {
					d := deadline
					if d == 0 || senderDone {
						d = 1e6
					}
					c.SetReadDeadline(simtime.Now().Add(simtime.Duration(d)))
				} else {
					c.SetReadDeadline(simtime.Now().Add(2 * simtime.Second))
				}
				if senderDone && len(m.queue) == 0 && c.Queued() == 0 {
					break
				}
				forever := patient && !senderDone
				m.read(rd, r.n)
				if forever && !senderDone && m.timedOut {
					m.fail("error", "a read for which no deadline was set timed out")
				}
			}
			if len(m.queue) > 0 && !m.bad {
				m.fail("undelivered", "%d samples were never delivered", len(m.queue))
			}
		})
	}
	dl := s.Now() + 1e15
	for left > 0 && !app.Dead {
		if !q.Wait("readers", dl-s.Now()) {
			s.Violate("C03", "hang", "a read does not return: %s", s.TaskDump(app))
			break
		}
	}
	if s.Probes["datagrams"] > 0 {
		s.Probe("nontrivial")
	}
}

func (m *readerModel) read(rd *borip.PacketReader, size int) {
	buf := make([]complex128, size+4)
	const mark = complex(1e9, -1e9)
	for i := range buf {
		buf[i] = mark
	}
	m.bufLen = size
	m.errs = nil
	shorts, empty, rec, queued := m.shorts, m.empty, m.received, len(m.queue)
	n, err := rd.ReadSamples(buf[:size])
	ne, ok := err.(interface{ Timeout() bool })
	m.timedOut = ok && ne.Timeout()
	m.s.Event("read", size, n, err)
	m.s.State(uint64(min(size, 20)), uint64(min(n, 20)), b2u(err != nil), b2u(m.headers), uint64(min(queued, 20)), uint64(m.received-rec))
	if n < 0 || n > size {
		m.fail("overrun", "a read into %d samples reports %d", size, n)
		return
	}
	for i := n; i < len(buf); i++ {
		if i >= size && buf[i] != mark {
			m.fail("overrun", "a read wrote beyond its buffer of %d samples", size)
			return
		}
	}
	short := m.shorts > shorts
	if err != nil {
		switch {
		case err == borip.ErrShortPacket:
			if !short {
				m.fail("short-packet", "a short packet is reported although none was received")
			}
		case len(m.errs) > 0 && err == m.errs[len(m.errs)-1]:
		default:
			m.fail("error", "error %v is reported, the socket reported %v", err, m.errs)
		}
	} else {
		if short {
			m.fail("short-packet", "a datagram too short for a header was received and no error reported")
		}
		if len(m.errs) > 0 && n == 0 {
			m.fail("error", "the socket reported %v, the read reports nothing", m.errs)
		}
		if n == 0 && size > 0 && m.empty == empty {
			m.fail("nothing", "a read into %d samples reports nothing (%d samples were left, %d datagrams received)", size, queued, m.received-rec)
		}
	}
	if n > len(m.queue) {
		m.fail("invented", "a read reports %d samples, only %d were received", n, len(m.queue))
		return
	}
	for i := 0; i < n; i++ {
		if buf[i] != m.queue[i].v {
			m.fail("sample", "sample %d of a read is %v, the received one is %v", i, buf[i], m.queue[i].v)
			return
		}
	}
	if n > 0 {
		m.s.Probe("reads_with_samples")
		if m.headers {
			if h := rd.Header(); h != m.queue[n-1].hd {
				m.fail("header", "the header is %+v, the last sample came from a datagram with %+v", h, m.queue[n-1].hd)
			}
		}
		m.queue = m.queue[n:]
		if len(m.queue) > 0 {
			m.s.Probe("leftovers")
		}
	}
}

// PacketWorld decides C03.
func PacketWorld() *harness.World {
	return &harness.World{
		Prop: "C03",
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 20_000_000, PreemptMean: pick(src.W, 0, 20, 5, 200), RaceMean: pick(src.W, 0, 30)}
		},
		Root:   packetRoot,
		After:  func(s *simrt.Sim) { after(s, "C03") },
		Real:   []string{"borip packet reader (packet.go)"},
		Stub:   []string{"UDP socket and network (simulated)", "sender (generated datagrams)", "scheduler, clock"},
		Rule:   "at least one datagram was received by a packet reader",
		State:  "size of the caller's buffer, samples returned, error, header mode, samples left over, datagrams received during the read",
		Assume: []string{"a packet reader is used by one goroutine at a time", "the socket returns at most 65507 bytes per datagram and whole datagrams"},
		Quick:  20, Thorough: 420,
	}
}
