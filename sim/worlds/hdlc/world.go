package hdlc

import (
	"bytes"
	"fmt"
	"runtime"

	"github.com/samuel/go-dsp/dsp/ax25"
	"verif/sim/harness"
	"verif/sim/simrt"
)

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

// cell is one bit on the air or at a receiver.
type cell struct {
	bit byte
	tx  int // transmission it comes from undamaged; -1: none
	pos int
}

// tx is one transmission: flags and frames without a break.
type tx struct {
	start  int
	bits   []byte
	frames []placed
}

type placed struct {
	f        *frame
	from, to int // positions of the first bit of the opening and the last bit of the closing flag
}

func call(W *simrt.Stream) string {
	const cs = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	n := pick(W, 6, 5, 4, 6, 3, 1, 2)
	b := make([]byte, n)
	for i := range b {
		b[i] = cs[W.N(len(cs))]
	}
	return string(b)
}

func genAddr(W *simrt.Stream) addr {
	return addr{call: call(W), ssid: pick(W, 0, 1, 15, 7, 8, W.N(16)), cbit: W.N(2) == 1, rr: byte(pick(W, 3, 3, 0, 1, 2))}
}

func genFrame(W *simrt.Stream, id int, odd bool) *frame {
	f := &frame{id: id, wellf: true}
	if W.Chance(1, 5) {
		f.flex = true
		f.qso = pick(W, W.N(1<<14), W.N(1<<14), 0, 63, 64, 1<<14-1)
		f.cmd = W.N(2) == 1
		f.dst = addr{call: call(W), ssid: pick(W, 0, 1, 15, 7, 8, W.N(16))}
	} else {
		f.dst, f.src = genAddr(W), genAddr(W)
		if W.Chance(1, 2) {
			for k := 1 + W.N(8); k > 0; k-- {
				f.rep = append(f.rep, genAddr(W))
			}
		}
	}
	switch W.Weighted(4, 2, 3, 3) {
	case 0:
		f.ctrl, f.hasPID = 0x03, true
	case 1:
		f.ctrl = []byte{0x01, 0x05, 0x09, 0x0d}[W.N(4)] | byte(W.N(8))<<5
	case 2:
		f.ctrl, f.hasPID = byte(W.N(8))<<1|byte(W.N(8))<<5, true
	default:
		f.ctrl = []byte{0x6f, 0x2f, 0x43, 0x0f, 0x63, 0x87, 0xaf, 0xe3, byte(W.N(64))<<2 | 3}[W.N(9)] &^ 0x10
		if f.ctrl == 0x03 { // UI after all
			f.hasPID = true
		}
	}
	if W.N(2) == 1 {
		f.ctrl |= 0x10
	}
	if f.hasPID {
		f.pid = byte(pick(W, 0xf0, 0x01, 0xcf, 0xff, 0x7e, 0x08, 0xc3, 0x00, W.N(256)))
		n := pick(W, 0, 1, 5, 17, 40, 3, 256, 255, 100, W.N(257), W.N(64))
		style := W.N(7)
		f.info = make([]byte, n)
		for i := range f.info {
			switch style {
			case 0:
				f.info[i] = 0xff
			case 1:
				f.info[i] = 0x7e
			case 2:
				f.info[i] = 0
			case 3:
				f.info[i] = 0x1f
			case 4:
				f.info[i] = byte(W.N(3)) * 0x7f
			default:
				f.info[i] = byte(W.N(256))
			}
		}
	}
	f.encode()
	if !odd {
		return f
	}
	// frames that must not or need not be decoded
	body := f.octets[:len(f.octets)-2]
	f.wellf = false
	switch W.N(13) {
	case 0:
		f.comment = "wrong FCS"
		f.octets[W.N(len(f.octets))] ^= byte(1 + W.N(255))
	case 1:
		f.comment = "short with correct FCS"
		f.octets = withFCS(body[:min(len(body), 1+W.N(15))])
	case 2:
		f.comment = "oversized with correct FCS"
		b := append([]byte(nil), body...)
		switch W.N(3) {
		case 0:
			for k := 511 + W.N(4)*W.N(100) - len(b); k > 0; k-- {
				b = append(b, byte(W.N(256)))
			}
			f.octets = withFCS(b)
		default: // its end is a good frame
			f.comment = "oversized with a good frame at its end"
			n := pick(W, 512, 1024, 511, 513, 600, 520, 1536)
			if W.Chance(1, 40) {
				n = pick(W, 8192, 4096, 16384, 8192, 65536)
			}
			head := make([]byte, n+W.N(2)*W.N(64))
			lcg := uint32(W.N(1 << 30))
			for i := range head {
				if len(head) > 2000 {
					lcg = lcg*1664525 + 1013904223
					head[i] = byte(lcg >> 24)
				} else {
					head[i] = byte(W.N(256))
				}
			}
			f.octets = append(head, f.octets...)
		}
	case 3:
		f.comment = "addresses do not end"
		b := append([]byte(nil), body...)
		for o := 6; o < len(b); o += 7 {
			b[o] &^= 1
		}
		f.octets = withFCS(b)
	case 4:
		f.comment = "random octets with correct FCS"
		b := make([]byte, pick(W, 15, 8, 9, 20, 300, 14, 7, 16, 1))
		for i := range b {
			b[i] = byte(W.N(256))
		}
		f.octets = withFCS(b)
	case 5:
		f.comment = "short FlexNet header with correct FCS"
		b := make([]byte, 2+W.N(9))
		for i := range b {
			b[i] = byte(W.N(256))
		}
		b[1] |= 1
		f.octets = withFCS(b)
	case 6:
		f.comment = "two bytes or fewer"
		f.octets = f.octets[:W.N(3)]
	case 7:
		f.comment = "exactly as long as the receiver holds"
		b := append([]byte(nil), body...)
		for k := 510 - len(b); k > 0; k-- {
			b = append(b, byte(W.N(256)))
		}
		f.octets = withFCS(b)
	case 8, 9:
		f.comment = "FCS nearly right"
		d := fcsDiff([]uint16{1 << W.N(16), 1 << W.N(16), 1<<W.N(16) | 1<<W.N(16), uint16(1+W.N(255)) << 8, uint16(1 + W.N(255)), 1, 0x8000}[W.N(7)])
		n := len(f.octets)
		f.octets[n-2] ^= byte(d)
		f.octets[n-1] ^= byte(d >> 8)
	case 10:
		f.comment = "oversized with a good frame at its head"
		b := append([]byte(nil), body...)
		for k := pick(W, 510, 509, 508, 511, 254, 328) - len(b); k > 0; k-- {
			b = append(b, byte(W.N(256)))
		}
		f.octets = withFCS(b)
		for k := pick(W, 1, 2, 512, 3+W.N(100)) + max(0, 512-len(f.octets)); k > 0; k-- {
			f.octets = append(f.octets, byte(W.N(256)))
		}
	case 11:
		f.comment = "FCS with its bytes swapped"
		n := len(f.octets)
		f.octets[n-1], f.octets[n-2] = f.octets[n-2], f.octets[n-1]
	default:
		f.comment = "FCS not inverted"
		n := len(f.octets)
		f.octets[n-1], f.octets[n-2] = ^f.octets[n-1], ^f.octets[n-2]
	}
	return f
}

// fcsDiff is the change to a frame check sequence that changes the receiver's residue by r.
func fcsDiff(r uint16) uint16 {
	for i := 0; i < 16; i++ { // undo the sixteen steps of the receiver
		if r&0x8000 != 0 {
			r = (r^0x8408)<<1 | 1
		} else {
			r <<= 1
		}
	}
	return r
}

var flag = []byte{0, 1, 1, 1, 1, 1, 1, 0}

func stuff(oct []byte) []byte { return stuffAfter(oct, 5, 1<<30) }

// stuffAfter puts a zero after every limit ones, for a sender that gets it wrong at most bad times.
func stuffAfter(oct []byte, limit, bad int) []byte {
	var b []byte
	ones := 0
	for _, o := range oct {
		for i := 0; i < 8; i++ {
			x := o >> uint(i) & 1
			b = append(b, x)
			if x == 0 {
				ones = 0
				continue
			}
			if ones++; ones == limit || ones == 5 && bad <= 0 {
				if ones != 5 {
					bad--
				}
				b = append(b, 0)
				ones = 0
			}
		}
	}
	return b
}

// genTx makes one transmission.
func genTx(s *simrt.Sim, W *simrt.Stream, id *int, faulty bool) *tx {
	t := &tx{}
	addFlag := func(share bool) int {
		from := len(t.bits)
		if share && from > 0 && t.bits[from-1] == 0 {
			from--
			t.bits = append(t.bits, flag[1:]...)
		} else {
			t.bits = append(t.bits, flag...)
		}
		return from
	}
	from, opened := 0, true
	if faulty && W.Chance(1, 10) {
		s.Fault("opening_flag_missing")
		opened = false
		for k := pick(W, 0, 7, 8, 15, 30); k > 0; k-- {
			t.bits = append(t.bits, 1)
		}
		if W.N(2) == 0 {
			t.bits = append(t.bits, 0)
		}
	} else {
		for k := 1 + W.N(6); k > 0; k-- {
			from = addFlag(W.Chance(1, 4))
		}
	}
	for k := 1 + W.N(4); k > 0; k-- {
		odd := faulty && W.Chance(1, 4)
		f := genFrame(W, *id, odd)
		*id++
		if !opened {
			f.wellf, opened = false, true
		}
		last4 := faulty && !odd && f.hasPID && W.Chance(1, 16)
		for k := 0; last4 && k < 200 && f.octets[len(f.octets)-1]&0xf8 != 0xf0; k++ { // the FCS ends in four ones
			f.pid = byte(W.N(256))
			f.encode()
		}
		b := stuff(f.octets)
		if faulty && W.Chance(1, 16) {
			if l := stuffAfter(f.octets, pick(W, 7, 6, 8, 9, 1000), pick(W, 1, 1000, 2)); !bytes.Equal(l, b) {
				s.Fault("wrong_bit_stuffing")
				b = l
				f.wellf = false
			}
		}
		if faulty && W.Chance(1, 8) { // the sender gives up in the middle
			n := W.N(len(b) + 1)
			t.bits = append(t.bits, b[:n]...)
			if W.Chance(2, 3) {
				s.Fault("sender_abort")
				for i := 7 + W.N(10); i > 0; i-- {
					t.bits = append(t.bits, 1)
				}
				from = addFlag(false)
				continue
			}
			s.Fault("sender_truncation")
			return t
		}
		if faulty && W.Chance(1, 16) {
			s.Fault("frame_not_of_whole_octets")
			b = b[:max(0, len(b)-1-W.N(9))]
			f.wellf = false
		} else if last4 || faulty && W.Chance(1, 20) {
			s.Fault("bits_after_the_frame")
			n, ones := 1+W.N(9), W.N(2) == 0
			if last4 && W.N(2) == 0 {
				n, ones = 1, true
			}
			for ; n > 0; n-- {
				x := byte(W.N(2))
				if ones {
					x = 1
				}
				b = append(b, x)
			}
			f.wellf = false
		} else if faulty && W.Chance(1, 10) {
			// an abort, without which the rest would be a good frame
			var at []int
			for i := 0; i+9 <= len(b); i++ {
				if bytes.Equal(b[i:i+9], []byte{0, 1, 1, 1, 1, 1, 0, 1, 0}) {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				s.Fault("abort_inside_a_good_frame")
				i := at[W.N(len(at))]
				l := append([]byte(nil), b[:i+1]...)
				for k := 7 + W.N(4)*W.N(5); k > 0; k-- {
					l = append(l, 1)
				}
				b = append(l, b[i+8:]...)
				f.wellf = false
			}
		}
		if odd {
			s.Fault("frame: " + f.comment)
		}
		t.bits = append(t.bits, b...)
		end := len(t.bits)
		to := addFlag(false)
		t.frames = append(t.frames, placed{f, from, end + 7})
		from = to
		// idle flags, possibly sharing a zero
		for k := pick(W, 0, 0, 1, 3); k > 0; k-- {
			from = addFlag(W.Chance(1, 2))
		}
	}
	return t
}

// receiver is one station that listens.
type receiver struct {
	id     int
	cells  []cell
	bits   []byte
	must   map[int]*frame
	ref    map[int]*span
	got    map[int]*ax25.Frame
	snap   map[int]string
	mine   []held // frames in the order of their delivery
	chunks []int
	write  bool // consumers scribble on what they get
	done   bool
	alone  map[int]string // what the decoder returns when nothing else runs (A03)
}

type held struct {
	at   int
	f    *ax25.Frame
	snap string
	gone bool // scribbled on
}

// text is everything a caller can see of a frame.
func text(f *ax25.Frame) string {
	return fmt.Sprintf("%q %d %q %d %+v %v %v %d %d %d %v %d %d %d %x", f.Source.Callsign, f.Source.SSID, f.Destination.Callsign, f.Destination.SSID,
		f.Repeaters, f.V1, f.Command, f.Type, f.SendSeq, f.RecvSeq, f.PollFinal, f.UnnumberedType, f.SupervisoryType, byte(f.PID), f.Info)
}

func noise(W *simrt.Stream, n, style int) []cell {
	out := make([]cell, n)
	long := n > 30000 // then few choices are recorded
	var lcg uint32
	if long {
		lcg = uint32(W.N(1 << 30))
	}
	for i := range out {
		out[i].tx = -1
		if long && style >= 4 {
			lcg = lcg*1664525 + 1013904223
			out[i].bit = byte(lcg >> 31)
			if style == 4 {
				out[i].bit = 0
				if lcg>>16%6 != 0 {
					out[i].bit = 1
				}
			}
			continue
		}
		switch style {
		case 0:
			out[i].bit = 0
		case 1:
			out[i].bit = 1
		case 2:
			out[i].bit = byte(i & 1)
		case 3: // flag-like
			out[i].bit = flag[(i+i/64)%8]
		case 4: // ones with rare zeros
			out[i].bit = 1
			if W.Chance(1, 6) {
				out[i].bit = 0
			}
		default:
			out[i].bit = byte(W.N(2))
		}
	}
	return out
}

// hear makes what one receiver gets of the channel.
func hear(s *simrt.Sim, W *simrt.Stream, txs []*tx, length int, faulty bool, style int, lossOnly bool) []cell {
	air := noise(W, length, style)
	used := make([]bool, length)
	for ti, t := range txs {
		if faulty && W.Chance(1, 12) {
			s.Fault("transmission_not_heard")
			continue
		}
		hit := false
		for i, b := range t.bits {
			p := t.start + i
			if p >= length {
				break
			}
			if used[p] {
				hit = true
				air[p] = cell{air[p].bit ^ b, -1, 0}
				continue
			}
			used[p] = true
			air[p] = cell{b, ti, i}
		}
		if hit {
			s.Fault("collision")
		}
	}
	if !faulty {
		return air
	}
	rate := pick(W, 0, 0, 3000, 600, 150)
	for i := 0; rate > 0 && i < len(air); i++ {
		if len(air) > 30000 {
			if i += W.N(2 * rate); i >= len(air) {
				break
			}
		}
		if len(air) > 30000 || W.Chance(1, rate) {
			s.Fault("bit_flip")
			air[i] = cell{air[i].bit ^ 1, -1, 0}
		}
	}
	for k := pick(W, 0, 0, 1, 3); k > 0 && len(air) > 10; k-- {
		p := W.N(len(air) - 1)
		n := min(len(air)-p, 1+W.N(60))
		switch W.N(5) {
		case 0:
			s.Fault("bits_lost")
			n = min(n, 1+W.N(9))
			air = append(air[:p:p], air[p+n:]...)
		case 1:
			s.Fault("bits_inserted")
			air = append(air[:p:p], append(noise(W, 1+W.N(9), 5), air[p:]...)...)
		case 2:
			s.Fault("noise_burst")
			copy(air[p:], noise(W, n, 5))
		case 3:
			s.Fault("fade")
			copy(air[p:], noise(W, n, W.N(2)))
		default:
			s.Fault("bits_repeated")
			air = append(air[:p+n:p+n], air[p:]...)
			for i := p + n; i < p+2*n && i < len(air); i++ {
				air[i].tx = -1
			}
		}
	}
	return air
}

// expect finds the frames that arrived undamaged with both flags.
func (r *receiver) expect(txs []*tx) {
	r.must = map[int]*frame{}
	run := 0 // length of the undamaged contiguous piece ending here
	for i, c := range r.cells {
		switch {
		case c.tx < 0:
			run = 0
			continue
		case i > 0 && run > 0 && r.cells[i-1].tx == c.tx && r.cells[i-1].pos == c.pos-1:
			run++
		default:
			run = 1
		}
		for _, p := range txs[c.tx].frames {
			if p.f.wellf && p.to == c.pos && run > p.to-p.from {
				r.must[i] = p.f
			}
		}
	}
}

type world struct {
	s    *simrt.Sim
	prop string
}

func (w *world) judge(r *receiver, i int, f *ax25.Frame) {
	s := w.s
	sp := r.ref[i]
	m := r.must[i]
	if f == nil {
		if m != nil {
			s.Violate("A01", "missed", "receiver %d: frame %d (%s) arrived undamaged at bit %d and was not returned", r.id, m.id, describe(m), i)
		}
		return
	}
	s.Probe("frames_returned")
	if sp == nil {
		s.Violate("A02", "not-at-flag", "receiver %d: a frame was returned at bit %d, which does not end a flag: %s", r.id, i, text(f))
		return
	}
	if m != nil {
		s.Probe("frames_intact")
		if d := m.diff(f); d != "" {
			s.Violate("A01", "fields", "receiver %d: frame %d (%s): %s", r.id, m.id, describe(m), d)
		}
		return
	}
	switch sp.v {
	case none:
		s.Violate("A02", "unjustified", "receiver %d: a frame was returned at bit %d although the span is not acceptable (%s): %s", r.id, i, sp.why, text(f))
	case may:
		s.Probe("frames_improper")
	case proper:
		s.Probe("frames_proper")
		if d := sp.f.diff(f); d != "" {
			s.Violate("A02", "not-what-was-received", "receiver %d: the frame returned at bit %d differs from the octets received: %s", r.id, i, d)
		}
	}
}

func describe(f *frame) string {
	return fmt.Sprintf("%s-%d>%s-%d rep=%d flex=%v ctrl=%02x pid=%v info=%d", f.src.call, f.src.ssid, f.dst.call, f.dst.ssid, len(f.rep), f.flex, f.ctrl, f.hasPID, len(f.info))
}

func (w *world) kept(r *receiver) {
	for k := range r.mine {
		h := &r.mine[k]
		if h.gone {
			continue
		}
		w.s.Probe("held_frames_checked")
		if t := text(h.f); t != h.snap {
			w.s.Violate("A03", "frame-changed", "receiver %d: the frame returned at bit %d was %s and is now %s", r.id, h.at, short(h.snap), short(t))
			h.gone = true
		}
	}
}

func short(t string) string {
	if len(t) > 300 {
		return t[:300] + "..."
	}
	return t
}

// scribble writes to everything the caller owns.
func scribble(f *ax25.Frame) {
	for i := range f.Info {
		f.Info[i] = 0xA5
	}
	f.Info = append(f.Info, 1, 2, 3)
	for i := range f.Repeaters {
		f.Repeaters[i] = ax25.Address{Callsign: "XXXXXX", SSID: 9}
	}
	f.Source.Callsign, f.Destination.Callsign = "YYYYYY", "ZZZZZZ"
}

func (w *world) feed(r *receiver) {
	dec := ax25.NewDecoder()
	pos := 0
	for k := 0; pos < len(r.bits); k++ {
		n := min(r.chunks[k%len(r.chunks)], len(r.bits)-pos)
		for i := pos; i < pos+n; i++ {
			f := dec.Feed(int(r.bits[i]))
			w.judge(r, i, f)
			if r.alone != nil {
				a, t := r.alone[i], ""
				if f != nil {
					t = text(f)
				}
				if a != t {
					w.s.Violate("A03", "alone", "receiver %d: at bit %d the decoder returned %s; alone on the same bits it returns %s", r.id, i, short("\""+t+"\""), short("\""+a+"\""))
				}
			}
			if f != nil {
				r.mine = append(r.mine, held{at: i, f: f, snap: text(f)})
				w.s.Event("frame", r.id, i, len(f.Info), len(f.Repeaters))
				w.s.State(uint64(f.Type), uint64(len(f.Repeaters)), uint64(min(len(f.Info), 64)), uint64(min(len(r.mine), 12)), h64(f.Source.Callsign == ""))
				if n := len(r.mine); r.write && n%2 == 0 {
					h := &r.mine[n-1]
					if n%4 == 0 { // an earlier frame, while later ones are held
						h = &r.mine[n-2]
					}
					h.gone = true
					scribble(h.f)
				}
			}
			if f != nil || i%97 == 0 {
				w.kept(r)
			}
		}
		pos += n
		simrt.Sleep(int64(n) * 833_333) // 1200 bit/s
	}
	w.kept(r)
	r.done = true
}

func h64(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (w *world) memory(W *simrt.Stream) {
	s := w.s
	kind := W.N(4)
	f := genFrame(W, 0, false)
	bits := append(append([]byte(nil), flag...), stuff(f.octets)...)
	dec := ax25.NewDecoder()
	feed := func(b []byte, n int) {
		for k := 0; k < n; {
			for _, x := range b {
				dec.Feed(int(x))
			}
			k += len(b)
		}
	}
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	s.Quiet(func() {
		feed(bits, 20000)
		feed(flag, 8)
		h0 := heap()
		const n = 4_000_000
		switch kind {
		case 0: // one endless span
			feed([]byte{0, 1, 0, 0, 1, 1, 0, 1}, n)
		case 1: // frames
			feed(bits, n)
		case 2: // noise
			x := uint32(W.N(1 << 30))
			b := make([]byte, 4096)
			for k := 0; k < n/len(b); k++ {
				for i := range b {
					x = x*1664525 + 1013904223
					b[i] = byte(x >> 31)
				}
				feed(b, 1)
			}
		default: // an endless span after an abort without flag
			feed([]byte{1, 1, 1, 1, 1, 1, 1, 1, 1, 0}, 100)
			feed([]byte{0, 0, 1}, n)
		}
		grown := heap() - h0
		runtime.KeepAlive(dec)
		s.Probe("memory_checks")
		if grown > 250_000 {
			s.Violate("A02", "memory", "after %d bits (input kind %d) the decoder holds %d kB more", n, kind, grown/1000)
		}
	})
}

func root(s *simrt.Sim, prop string) {
	W := s.Src.W
	w := &world{s: s, prop: prop}
	faulty := !W.Chance(1, 6)
	app := &simrt.Proc{Name: "app", IP: "10.1.0.1"}
	s.Values["app"] = app
	s.Quiet(ax25.SimReset)
	nr := 1
	switch prop {
	case "A03":
		nr = 2 + W.N(3)
		if W.Chance(1, 100) { // very many receivers
			nr = pick(W, 10, 20, 40, 70, 140)
			s.Probe("many_receivers")
		}
	case "A01":
		nr = 1 + W.N(2)
	}
	shared := W.N(2) == 0 // all hear the same channel
	mem := prop == "A02" && W.Chance(1, 1500)
	var rs []*receiver
	var txs []*tx
	id := 0
	length := 0
	long := 0
	if nr < 10 && W.Chance(1, 150) {
		long = pick(W, 1<<16, 1<<15, 1<<16, 1<<17, 1<<16)
		if W.Chance(1, 8) {
			long = 1 << (17 + W.N(4))
		}
	}
	gen := func() {
		txs = nil
		pos := W.N(100)
		for k := 1 + W.N(4); k > 0; k-- {
			t := genTx(s, W, &id, faulty)
			t.start = max(0, pos)
			txs = append(txs, t)
			gap := pick(W, 0, 1, 3, 7, 8, 20, 200)
			if faulty && W.Chance(1, 6) {
				gap = -W.N(200)
			}
			pos = t.start + len(t.bits) + gap
			if long > 0 && pos < long { // a silence, after which a transmission straddles the 2^n-th bit
				pos = long - W.N(900)
				long = 0
				s.Probe("long_silence")
			}
		}
		length = 0
		for _, t := range txs {
			length = max(length, t.start+len(t.bits))
		}
		length += W.N(100)
	}
	gen()
	style := W.N(7)
	for i := 0; i < nr; i++ {
		if !shared && i > 0 {
			gen()
		}
		r := &receiver{id: i, got: map[int]*ax25.Frame{}, write: W.Chance(1, 3) || prop == "A03" && W.Chance(1, 2)}
		r.cells = hear(s, W, txs, length, faulty && W.Chance(5, 6), style, false)
		if W.Chance(1, 3) { // the history goes on: the same transmissions again, disturbed differently
			for k := pick(W, 1, 1, 1, 1, 2, 5); k > 0; k-- {
				r.cells = append(r.cells, hear(s, W, txs, length, faulty, W.N(7), false)...)
			}
		} else if long == 0 && nr < 10 && W.Chance(1, 200) { // many more times
			s.Probe("many_frames")
			for k := 300; k > 0 && len(r.cells) < 300_000; k-- {
				r.cells = append(r.cells, hear(s, W, txs, length, faulty && k%8 == 0, W.N(7), false)...)
			}
		}
		r.bits = make([]byte, len(r.cells))
		for k, c := range r.cells {
			r.bits[k] = c.bit
		}
		r.expect(txs)
		r.ref = reference(r.bits)
		for k := range r.must {
			if sp := r.ref[k]; sp == nil || sp.v != proper || !bytes.Equal(sp.f.info, r.must[k].info) {
				panic(fmt.Sprintf("hdlc: the reference receiver disagrees with the sender about frame %d at bit %d", r.must[k].id, k))
			}
		}
		for k := 1 + W.N(4); k > 0; k-- {
			r.chunks = append(r.chunks, pick(W, 1200, 64, 7, 1, 300, 8))
		}
		rs = append(rs, r)
	}
	if prop == "A03" {
		s.Quiet(func() {
			for _, r := range rs {
				ax25.SimReset()
				r.alone = map[int]string{}
				dec := ax25.NewDecoder()
				for i, b := range r.bits {
					if f := dec.Feed(int(b)); f != nil {
						r.alone[i] = text(f)
					}
				}
			}
			ax25.SimReset()
		})
	}
	var q simrt.WaitQ
	left := nr
	for _, r := range rs {
		r := r
		s.Spawn(app, fmt.Sprint("receiver", r.id), func() {
			defer func() { left--; q.WakeAll() }()
			w.feed(r)
		})
	}
	if mem {
		left++
		s.Spawn(app, "memory", func() {
			defer func() { left--; q.WakeAll() }()
			w.memory(W)
		})
	}
	for left > 0 && !app.Dead {
		if !q.Wait("receivers", 1_000_000e9) {
			s.Violate(prop, "hang", "a receiver does not come to an end")
			return
		}
	}
	if app.Dead {
		return
	}
	for _, r := range rs {
		w.kept(r)
		if len(r.must) > 0 {
			s.Probe("nontrivial")
		}
		s.Probes["spans"] += int64(len(r.ref))
		s.Probes["bits"] += int64(len(r.bits))
		for _, sp := range r.ref {
			if sp.v == none && sp.why != "" {
				s.Probe("rejected: " + sp.why)
			}
		}
	}
}

// World decides A01, A02 and A03.
func World(prop string) *harness.World {
	return &harness.World{
		Prop: prop,
		Config: func(src *simrt.Src) simrt.Config {
			pm := pick(src.W, 0, 200, 2000)
			if prop == "A03" {
				pm = pick(src.W, 5, 20, 100, 500, 0)
			}
			rm := 0
			if prop == "A03" {
				rm = pick(src.W, 30, 300, 0)
			}
			return simrt.Config{MaxSteps: 400_000_000, PreemptMean: pm, RaceMean: rm, SlackStep: 20e9, MaxSlack: 1 << 60}
		},
		Root: func(s *simrt.Sim) { root(s, prop) },
		After: func(s *simrt.Sim) {
			switch s.Status {
			case "deadlock":
				s.Violate(prop, "stuck", "nothing can proceed any more")
			case "steps":
				s.Violate(prop, "livelock", "decoding does not come to an end")
			}
			if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
				s.ViolateFirst(prop, "panic", "the decoder panicked: %s", p.CrashMsg)
			} else if ok && p.Exited {
				s.ViolateFirst(prop, "exit", "the package ended its program with status %d", p.ExitCode)
			}
		},
		Real:   []string{"dsp/ax25 decoder (hdlc.go, crc.go)"},
		Stub:   []string{"sending stations and radio channel (simulated)", "goroutine scheduler, clock"},
		Rule:   "at least one well-formed frame arrived undamaged between two flags",
		State:  "frame type, repeaters, size of the information field, frames returned so far, FlexNet header",
		Assume: []string{"one decoder is used by one goroutine at a time", "bits are 0 or 1", "spans with a correct FCS whose address field is malformed are not judged"},
		Quick:  20, Thorough: 420,
	}
}
