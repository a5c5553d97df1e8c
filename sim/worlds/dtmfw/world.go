// Package dtmfw simulates keypads, noisy lines with drop-outs, DTMF detectors and the decoder program.
package dtmfw

import (
	"errors"
	"fmt"
	"math"
	"math/cmplx"
	"strings"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	program "github.com/samuel/go-dsp/zzdtmffile"
	"verif/sim/harness"
	simos "verif/sim/simlib/os"
	"verif/sim/simrt"
)

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

func pickf(W *simrt.Stream, v ...float64) float64 { return v[W.N(len(v))] }

type lcg uint64

func (l *lcg) next() uint64 {
	*l = *l*6364136223846793005 + 1442695040888963407
	return uint64(*l >> 33)
}
func (l *lcg) unit() float64 { return float64(l.next())/float64(1<<30) - 1 }

// the standard keypad
var (
	stdLow  = []uint64{697, 770, 852, 941}
	stdHigh = []uint64{1209, 1336, 1477, 1633}
)

const keypad = "123A456B789C*0#D"

func bin(f uint64, rate, block int) int {
	return int((2*uint64(block)*f + uint64(rate)) / (2 * uint64(rate)))
}

// config is what a detector is made for.
type config struct {
	std         bool
	low, high   []uint64
	rate, block int
	window      int  // 0: default (nil or standard), 1: Hanning, 2: Blackman
	own         bool // the caller's own window function, not the package's
}

func apart(k []int, d int) bool {
	for i := range k {
		for j := range k[:i] {
			if x := k[i] - k[j]; x < d && x > -d {
				return false
			}
		}
	}
	return true
}

func genConfig(W *simrt.Stream) *config {
	c := &config{std: W.N(2) == 0, rate: 8000, block: 205}
	if c.std {
		c.low, c.high = stdLow, stdHigh
		r := [][2]int{{8000, 205}, {8000, 410}, {16000, 410}, {44100, 1130}, {8000, 256}, {48000, 1230}, {8000, 333}, {11025, 283}}[W.N(8)]
		switch W.N(8) { // finer ones
		case 0:
			r = [2]int{8000, 4000 + W.N(4001)}
		case 1, 2:
			r[1] += W.N(1000)
		case 3:
			if W.Chance(1, 6) { // a long block
				r = [2]int{pick(W, 44100, 48000, 8000), pick(W, 8192, 16384, 10000, 12000, 66000) + W.N(2)*W.N(400)}
			}
		}
		var kl, kh []int
		for i := range c.low {
			kl, kh = append(kl, bin(c.low[i], r[0], r[1])), append(kh, bin(c.high[i], r[0], r[1]))
		}
		if apart(kl, 2) && apart(kh, 2) {
			c.rate, c.block = r[0], r[1]
		}
		return c
	}
	c.window = W.N(3)
	c.own = W.N(2) == 1
	c.rate = pick(W, 8000, 44100, 22050)
	nl, nh := 1+W.N(6), 1+W.N(6)
	k := 4 + W.N(4)
	var bl, bh []int
	for i := 0; i < nl; i++ {
		bl = append(bl, k)
		k += 3 + W.N(4)
	}
	k += 5
	for i := 0; i < nh; i++ {
		bh = append(bh, k)
		k += 3 + W.N(4)
	}
	c.block = 2*(k+5) + W.N(40)
	freq := func(b []int) []uint64 {
		var f []uint64
		for _, x := range b {
			d := float64(W.N(9)-4) / 10
			v := uint64(math.Round((float64(x) + d) * float64(c.rate) / float64(c.block)))
			if bin(v, c.rate, c.block) != x {
				v = uint64(math.Round(float64(x) * float64(c.rate) / float64(c.block)))
			}
			f = append(f, v)
		}
		for i := len(f) - 1; i > 0; i-- { // in any order
			j := W.N(i + 1)
			f[i], f[j] = f[j], f[i]
		}
		return f
	}
	c.low, c.high = freq(bl), freq(bh)
	if W.N(4) == 0 {
		c.low, c.high = c.high, c.low
	}
	return c
}

func cosines(w []float32, a ...float64) {
	for n := range w {
		v, s := 0.0, 1.0
		for i, c := range a {
			v += s * c * math.Cos(2*math.Pi*float64(i*n)/float64(len(w)-1))
			s = -s
		}
		w[n] = float32(v)
	}
}

func (c *config) win(w []float32) {
	switch c.window {
	case 1:
		cosines(w, 0.5, 0.5)
	case 2:
		cosines(w, 0.42, 0.5, 0.08)
	default:
		cosines(w, 0.53836, 1-0.53836)
	}
}

func (c *config) build() *dtmf.DTMF {
	if c.std {
		return dtmf.NewStandard(c.rate, c.block)
	}
	f := c.win
	switch {
	case c.window == 0:
		f = nil
	case c.own:
	case c.window == 1:
		f = dsp.HanningWindowF32
	default:
		f = dsp.BlackmanWindowF32
	}
	return dtmf.New(c.low, c.high, c.rate, c.block, f)
}

// span is a stretch of the line.
type span struct {
	from, to int
	row, col int // -1: not a clean key
	silent   bool
}

// line is what a detector listens to.
type line struct {
	buf   []float32
	spans []span
}

func tone(buf []float32, from, to int, f float64, rate int, amp, ph float64) {
	for i := from; i < to; i++ {
		buf[i] += float32(amp * math.Sin(2*math.Pi*f*float64(i)/float64(rate)+ph))
	}
}

func genLine(s *simrt.Sim, W *simrt.Stream, c *config, n int) *line {
	l := &line{buf: make([]float32, n)}
	r := lcg(W.N(1<<30))*2654435761 + 99
	for pos := 0; pos < n; {
		to := min(n, pos+pick(W, c.block, 2*c.block, c.block+c.block/4, c.block/3+1, 3*c.block))
		sp := span{from: pos, to: to, row: -1, col: -1}
		kind := W.Weighted(6, 1, 1, 1)
		switch kind {
		case 0:
			sp.row, sp.col = W.N(len(c.low)), W.N(len(c.high))
			a := pickf(W, 0.3, 1, 0.01, 100)
			b := a * pickf(W, 1, 1.9, 0.53, 1.3)
			tone(l.buf, pos, to, float64(c.low[sp.row]), c.rate, a, float64(W.N(16))/16*2*math.Pi)
			tone(l.buf, pos, to, float64(c.high[sp.col]), c.rate, b, float64(W.N(16))/16*2*math.Pi)
			if W.N(2) == 1 {
				for i := pos; i < to; i++ {
					l.buf[i] += float32(r.unit() * min(a, b) * 0.2)
				}
				s.Fault("noise")
			}
			if W.Chance(1, 6) && to-pos > 2 { // a drop-out in the key
				from := pos + W.N(to-pos)
				end := min(to, from+1+W.N(c.block))
				for i := from; i < end; i++ {
					l.buf[i] = 0
				}
				sp.row = -1
				s.Fault("drop-out")
			}
		case 1:
			sp.silent = true
		case 2:
			for i := pos; i < to; i++ {
				l.buf[i] = float32(r.unit())
			}
			s.Fault("noise only")
		default:
			for i := pos; i < to; i++ {
				if r.next()%20 == 0 {
					l.buf[i] = float32(r.unit() * 1e4)
				}
			}
			s.Fault("clicks")
		}
		l.spans = append(l.spans, sp)
		pos = to
	}
	return l
}

// listener is a detector at work.
type listener struct {
	id     int
	c      *config
	l      *line
	starts []int
	lens   []int
	waits  []int64
}

// power is the windowed DFT power of the block at every frequency of a table.
func (c *config) power(block []float32, table []uint64, w []float32) []float64 {
	var p []float64
	for _, f := range table {
		k := bin(f, c.rate, c.block)
		step := cmplx.Exp(complex(0, -2*math.Pi*float64(k)/float64(c.block)))
		ph, v := complex(1, 0), complex(0, 0)
		for i, x := range block {
			v += complex(float64(x)*float64(w[i]), 0) * ph
			ph *= step
		}
		p = append(p, real(v)*real(v)+imag(v)*imag(v))
	}
	return p
}

type world struct {
	s    *simrt.Sim
	snap map[*line][]float32
}

func (w *world) listen(li *listener) {
	s, c := w.s, li.c
	d := c.build()
	win := make([]float32, c.block)
	s.Quiet(func() { c.win(win) })
	for i, from := range li.starts {
		to := min(len(li.l.buf), from+li.lens[i])
		block := li.l.buf[from:to:to]
		key, mag := d.Feed(block)
		s.Quiet(func() { w.judge(li, from, to, key, mag, win) })
		s.Event("feed", li.id, from, to, key, math.Float32bits(mag))
		s.State(uint64(key), uint64(c.block), uint64(len(c.high)), uint64(min(i, 10)), uint64(to-from))
		if li.waits[i%len(li.waits)] > 0 {
			simrt.Sleep(li.waits[i%len(li.waits)])
		}
	}
}

func (w *world) judge(li *listener, from, to, key int, mag float32, win []float32) {
	s, c := w.s, li.c
	who := fmt.Sprintf("detector %d (block of samples %d to %d, block size %d)", li.id, from, to, c.block)
	snap := w.snap[li.l]
	for i, v := range li.l.buf {
		if math.Float32bits(v) != math.Float32bits(snap[i]) {
			s.Violate("D06", "samples", "%s: sample %d of the caller's buffer changed from %v to %v", who, i, snap[i], v)
			copy(li.l.buf, snap)
			break
		}
	}
	block := append([]float32(nil), snap[from:to]...)
	k2, m2 := c.build().Feed(append([]float32(nil), block...))
	if k2 != key || math.Float32bits(m2) != math.Float32bits(mag) {
		s.Violate("D06", "history", "%s: reported key %d with %v, a fresh detector alone reports %d with %v", who, key, mag, k2, m2)
	}
	if len(block) > c.block {
		block = block[:c.block]
	}
	silent := true
	for _, v := range block {
		silent = silent && v == 0
	}
	if silent && mag != 0 {
		s.Violate("D06", "silence", "%s: magnitude %v for silence", who, mag)
	}
	// the strongest of each table, up to rounding
	pl, ph := c.power(block, c.low, win), c.power(block, c.high, win)
	e := 0.0
	for i, v := range block {
		e += math.Abs(float64(v) * float64(win[i]))
	}
	top := func(p []float64) float64 {
		m := 0.0
		for _, v := range p {
			m = max(m, v)
		}
		return m
	}
	tl, th := top(pl), top(ph)
	eps := 1e-5*e*e + 1e-36
	if key < 0 || key >= len(pl)*len(ph) {
		s.Violate("D06", "key", "%s: key %d of %d", who, key, len(pl)*len(ph))
		return
	}
	if row, col := key/len(ph), key%len(ph); pl[row] < tl-eps || ph[col] < th-eps {
		s.Violate("D06", "strongest", "%s: reported row %d column %d, powers are %.4g and %.4g", who, row, col, pl, ph)
	}
	if want := min(tl, th); math.Abs(float64(mag)-want) > 1e-4*want+eps {
		s.Violate("D06", "magnitude", "%s: magnitude %v, the weaker of the two has %v", who, mag, want)
	}
	if to-from >= c.block {
		for _, sp := range li.l.spans {
			if sp.from <= from && from+c.block <= sp.to && sp.row >= 0 {
				s.Probe("nontrivial")
				s.Probe("clean_blocks")
				if k := key; c.std && (k < 0 || k >= len(dtmf.Keypad) || dtmf.Keypad[k] != rune(keypad[sp.row*4+sp.col])) {
					s.Violate("D06", "keypad", "%s: reported key %d, the line carries key %c", who, key, keypad[sp.row*4+sp.col])
				}
				if mag == 0 {
					s.Violate("D06", "silence", "%s: magnitude 0 for a clean key", who)
				}
				if key != sp.row*len(c.high)+sp.col {
					s.Violate("D06", "key", "%s: reported key %d, the line carries row %d column %d of %v and %v", who, key, sp.row, sp.col, c.low, c.high)
				}
			}
		}
	}
}

// decode runs the decoder program over a recording.
func (w *world) decode(W *simrt.Stream) {
	s := w.s
	F := s.Src.F
	const hop = 51
	var pcm []byte
	var want strings.Builder
	r := lcg(W.N(1<<30))*2654435761 + 5
	put := func(v float64) {
		x := int16(math.Max(-32768, math.Min(32767, math.Round(v))))
		pcm = append(pcm, byte(x), byte(uint16(x)>>8))
	}
	silence := func(n int) {
		for ; n > 0; n-- {
			put(0)
		}
	}
	silence(W.N(600))
	pos := 0
	for k := W.N(5); k > 0; k-- {
		row, col := W.N(4), W.N(4)
		n := hop*15 + W.N(1200)
		a := pickf(W, 8000, 300, 16000)
		b := min(a*pickf(W, 1, 1.9, 0.53), 16000)
		noise := 0.2 * min(a, b) * float64(W.N(2))
		for i := 0; i < n; i++ {
			t := float64(pos+i) / 8000
			put(a*math.Sin(2*math.Pi*float64(stdLow[row])*t) + b*math.Sin(2*math.Pi*float64(stdHigh[col])*t) + noise*r.unit())
		}
		pos += n
		want.WriteByte(keypad[row*4+col])
		silence(hop*6 + W.N(800))
	}
	if W.N(3) == 0 { // ends in the middle of a sample
		pcm = append(pcm, 0)
	}
	source := pick(W, 0, 2, 1)
	disk := simos.DiskOf()
	run := func(name string, split func(avail, asked int) (int, error)) (string, *simrt.Proc) {
		s.Quiet(func() { dsp.SimReset(); dtmf.SimReset(); program.SimReset() })
		simos.Args = [][]string{{"dtmf_file", "line.raw"}, {"dtmf_file", "-"}, {"dtmf_file"}}[source]
		other := &simos.Inode{Data: make([]byte, len(pcm))}
		disk.Files["line.raw"], disk.Files["-"], disk.Stdin = other, other, &simos.Inode{Data: pcm}
		if source == 0 {
			disk.Files["line.raw"], disk.Stdin = disk.Stdin, other
		}
		delete(s.Values, "stdinpos")
		disk.ReadN = func(_ string, avail, asked int) (int, error) { return split(avail, asked) }
		p := &simrt.Proc{Name: name, IP: "10.1.0.2"}
		s.Values[name] = p
		s.Spawn(p, "main", func() {
			program.SimMain()
			simrt.Exit(0) // and with it whatever else runs in the program
		})
		for k := 0; !p.Dead; k++ {
			if k > 100_000 {
				s.Violate("D06", "hang", "the decoder does not come to an end")
				break
			}
			simrt.Sleep(1e6)
		}
		disk.ReadN = nil
		return strings.TrimSpace(string(p.Stdout)), p
	}
	style := F.N(5) // 0: whole reads
	cut := false    // a read before the end of the recording was short
	failAt := -1
	if F.Chance(1, 8) {
		failAt = F.N(len(pcm) + 1)
	}
	got := 0
	out, p := run("split", func(avail, asked int) (int, error) {
		if failAt >= 0 && got >= failAt {
			s.Fault("read error")
			return 0, errors.New("input/output error")
		}
		n := asked
		switch style {
		case 1:
			n = 1 + F.N(asked)
		case 2:
			n = 1
		case 3:
			n = min(asked, pick(F, 102, 1, 64, 101, 51, 7))
		case 4:
			if F.Chance(1, 4) {
				n = 1 + F.N(asked)
			}
		}
		if n < min(asked, avail) {
			cut = true
			s.Fault("short read")
		}
		if F.Chance(1, 30) {
			s.Fault("late read")
			simrt.Sleep(int64(1+F.N(1000)) * 1000)
		}
		got += min(n, avail)
		return n, nil
	})
	s.Event("decoded", out)
	s.Probe("recordings_decoded")
	if p.Crashed {
		s.ViolateFirst("D06", "panic", "the decoder program: %s", p.CrashMsg)
		return
	}
	// what goes wrong because of short reads is told from what goes wrong without them
	class := "program"
	if cut {
		class = "program-short-reads"
	}
	if failAt >= 0 && got >= failAt {
		if !strings.HasPrefix(want.String(), out) {
			s.Violate("D06", class, "the decoder printed %q before the read error, sent was %q", out, want.String())
		}
		return
	}
	if out != want.String() {
		s.Violate("D06", class, "the decoder printed %q, sent was %q", out, want.String())
	}
	if want.Len() > 0 {
		s.Probe("nontrivial")
	}
}

func root(s *simrt.Sim) {
	W := s.Src.W
	w := &world{s: s, snap: map[*line][]float32{}}
	s.Quiet(func() { dsp.SimReset(); dtmf.SimReset(); program.SimReset() })
	app := &simrt.Proc{Name: "app", IP: "10.1.0.1"}
	s.Values["app"] = app
	if W.Chance(1, 3) {
		w.decode(W)
		return
	}
	nd := 1 + W.N(3)
	shared := W.N(3) == 0 // one buffer, one table
	var ls []*listener
	for i := 0; i < nd; i++ {
		li := &listener{id: i}
		if i > 0 && shared {
			li.c, li.l = ls[0].c, ls[0].l
		} else {
			li.c = genConfig(W)
			li.l = genLine(s, W, li.c, li.c.block*(1+W.N(8))+W.N(li.c.block))
			w.snap[li.l] = append([]float32(nil), li.l.buf...)
		}
		n := len(li.l.buf)
		style := W.N(4)
		pos := 0
		for k := 2 + W.N(14); k > 0 && pos < n; k-- {
			ln := li.c.block
			if W.Chance(1, 6) {
				ln = pick(W, li.c.block+1+W.N(50), W.N(li.c.block), 0, 1)
				s.Fault("odd block length")
			}
			li.starts, li.lens = append(li.starts, pos), append(li.lens, ln)
			switch style {
			case 0:
				pos += li.c.block
			case 1:
				pos += li.c.block / 4
			case 2:
				pos = W.N(n)
			default: // one block again and again, or the start of every stretch
				pos = li.l.spans[W.N(len(li.l.spans))].from
			}
		}
		for k := 1 + W.N(3); k > 0; k-- {
			li.waits = append(li.waits, int64(W.N(3))*1000)
		}
		ls = append(ls, li)
	}
	left := nd
	var q simrt.WaitQ
	for _, li := range ls {
		li := li
		s.Spawn(app, fmt.Sprint("detector", li.id), func() {
			defer func() { left--; q.WakeAll() }()
			w.listen(li)
		})
	}
	for left > 0 && !app.Dead {
		if !q.Wait("detectors", 3600e9) {
			s.Violate("D06", "hang", "detection does not come to an end")
			return
		}
	}
}

// World decides D06.
func World() *harness.World {
	return &harness.World{
		Prop: "D06",
		Config: func(src *simrt.Src) simrt.Config {
			return simrt.Config{MaxSteps: 4_000_000_000, PreemptMean: pick(src.W, 0, 50, 500, 5000), RaceMean: pick(src.W, 0, 30)}
		},
		Root: root,
		After: func(s *simrt.Sim) {
			switch s.Status {
			case "deadlock":
				s.Violate("D06", "stuck", "nothing can proceed any more")
			case "steps":
				s.Violate("D06", "livelock", "detection does not come to an end")
			}
			if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
				s.ViolateFirst("D06", "panic", "%s", p.CrashMsg)
			}
		},
		Real:   []string{"dsp/dtmf", "dsp Goertzel detectors and windows", "examples/dtmf_file.go (whole program)"},
		Stub:   []string{"keypad, line and noise (simulated)", "file system and standard input (simulated)", "goroutine scheduler, clock"},
		Rule:   "a block inside a clean key was judged, or a recording with keys was decoded",
		State:  "key reported, block size, columns, blocks so far, block length",
		Assume: []string{"one detector is used by one goroutine at a time", "samples are finite", "frequencies of a table at least 2 bins apart (3 for tables other than the standard ones), tables 5 bins apart, 4 bins away from zero and half the sample rate"},
		Quick:  20, Thorough: 420,
	}
}
