package dspw

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"verif/sim/simrt"
)

// design is a biquad constructor with its arguments.
type design struct {
	kind          int
	rate, f0      float64
	q, slope, dbG float64
}

var designName = []string{"low pass", "high pass", "band pass (skirt gain)", "band pass (peak gain)", "notch", "all pass", "peaking", "low shelf", "high shelf"}

func (d design) String() string {
	return fmt.Sprintf("%s filter at %v Hz of %v, Q %v, slope %v, %v dB", designName[d.kind], d.f0, d.rate, d.q, d.slope, d.dbG)
}

func (d design) build() *dsp.BiQuadFilter {
	switch d.kind {
	case 0:
		return dsp.NewLowPassBiQuadFilter(d.rate, d.f0, d.q)
	case 1:
		return dsp.NewHighPassBiQuadFilter(d.rate, d.f0, d.q)
	case 2:
		return dsp.NewBandPassConstantSkirtGainBiQuadFilter(d.rate, d.f0, d.q)
	case 3:
		return dsp.NewBandPassConstantPeakGainBiQuadFilter(d.rate, d.f0, d.q)
	case 4:
		return dsp.NotchBiQuadFilter(d.rate, d.f0, d.q)
	case 5:
		return dsp.AllPassBiQuadFilter(d.rate, d.f0, d.q)
	case 6:
		return dsp.PeakingEQBiQuadFilter(d.rate, d.f0, d.q, d.dbG)
	case 7:
		return dsp.LowShelfBiQuadFilter(d.rate, d.f0, d.slope, d.dbG)
	}
	return dsp.HighShelfBiQuadFilter(d.rate, d.f0, d.slope, d.dbG)
}

// prototype is the analog filter: numerator and denominator by powers of s, corner at 1.
func (d design) prototype() (n, m [3]float64) {
	a := math.Pow(10, d.dbG/40)
	bw := 1 / d.q
	m = [3]float64{1, bw, 1}
	switch d.kind {
	case 0:
		n = [3]float64{1, 0, 0}
	case 1:
		n = [3]float64{0, 0, 1}
	case 2:
		n = [3]float64{0, 1, 0}
	case 3:
		n = [3]float64{0, bw, 0}
	case 4:
		n = [3]float64{1, 0, 1}
	case 5:
		n = [3]float64{1, -bw, 1}
	case 6:
		n, m = [3]float64{1, a * bw, 1}, [3]float64{1, bw / a, 1}
	default:
		bw = math.Sqrt(a) * math.Sqrt((a+1/a)*(1/d.slope-1)+2)
		n, m = [3]float64{a * a, a * bw, a}, [3]float64{1, bw, a}
		if d.kind == 8 {
			n, m = [3]float64{a, a * bw, a * a}, [3]float64{a, bw, 1}
		}
	}
	return n, m
}

// response is what the filter does to a tone of frequency nu times the sample rate.
func (d design) response(nu float64) complex128 {
	n, m := d.prototype()
	if nu >= 0.5 { // s is infinite
		return complex(n[2]/m[2], 0)
	}
	s := complex(0, math.Tan(math.Pi*nu)/math.Tan(math.Pi*d.f0/d.rate))
	p := func(c [3]float64) complex128 {
		return complex(c[0], 0) + complex(c[1], 0)*s + complex(c[2], 0)*s*s
	}
	return p(n) / p(m)
}

// radius is that of the largest pole in the z plane.
func (d design) radius() float64 {
	_, m := d.prototype()
	k := math.Tan(math.Pi * d.f0 / d.rate)
	root := cmplx.Sqrt(complex(m[1]*m[1]-4*m[0]*m[2], 0))
	r := 0.0
	for _, sg := range []complex128{1, -1} {
		s := (complex(-m[1], 0) + sg*root) / complex(2*m[2], 0) * complex(k, 0)
		r = math.Max(r, cmplx.Abs((1+s)/(1-s)))
	}
	return r
}

// listener is a filter at the end of a line that carries tones.
type listener struct {
	e      *env
	d      design
	nu     []float64
	amp    []float64
	ph     []float64
	f      *dsp.BiQuadFilter
	peak   float64
	quiet  int // first sample after all faults and the settling time
	end    int
	queue  []sblock
	q      simrt.WaitQ
	closed bool
	seen   int // clean samples judged
	modes  []int
	plan   []sblock
	tuned  []tuning // what it is designed for at first, and after; d is the last
}

// tuning is a design a filter has until a position in the stream.
type tuning struct {
	d     design
	until int
	scale float64 // of all coefficients
}

// sblock is a part of the stream: its place in time and its samples as delivered.
type sblock struct {
	lo    int
	x     []float64
	delay int64
}

func (l *listener) tone(i int) float64 {
	v := 0.0
	for k := range l.nu {
		_, fr := math.Modf(l.nu[k] * float64(i))
		v += l.amp[k] * math.Cos(2*math.Pi*fr+l.ph[k])
	}
	return v
}

func (l *listener) want(i int) float64 {
	v := 0.0
	for k := range l.nu {
		_, fr := math.Modf(l.nu[k] * float64(i))
		h := l.d.response(l.nu[k])
		ph := 2*math.Pi*fr + l.ph[k]
		// of a real tone at the band edge only the real part is there
		v += l.amp[k] * (real(h)*math.Cos(ph) - imag(h)*math.Sin(ph))
	}
	return v
}

func (w *world) listener(W *simrt.Stream, id int) *listener {
	s := w.s
	l := &listener{}
	l.d = design{kind: W.N(9), rate: pickf(W, 8000, 44100, 48000, 2400000, 1)}
	nu0 := 0.002 + 0.496*float64(W.N(1001))/1000
	if W.N(3) == 0 {
		nu0 = pickf(W, 0.25, 0.01, 0.05, 0.1, 0.4, 0.45)
	}
	l.d.f0 = nu0 * l.d.rate
	l.d.q = pickf(W, math.Sqrt2/2, 0.3, 1, 2, 10, 0.5)
	l.d.slope = pickf(W, 1, 0.3, 0.5, 0.75)
	l.d.dbG = pickf(W, 6, -6, 0, 12, -24, 24, 3)
	l.e = &env{s: s, prop: w.prop, who: fmt.Sprintf("listener %d: %v", id, l.d)}
	for k := 1 + W.N(4); k > 0; k-- {
		l.e.offs = append(l.e.offs, W.N(16))
		l.modes = append(l.modes, W.N(4))
	}
	total := 0.0
	for k := 1 + W.N(3); k > 0; k-- {
		nu := float64(W.N(5001)) / 10000
		switch W.N(4) {
		case 0:
			nu = nu0
		case 1:
			nu = math.Min(0.5, nu0*pickf(W, 0.5, 2, 0.9, 1.1, 0, 1000))
		}
		l.nu = append(l.nu, nu)
		a := pickf(W, 1, 0.1, 3)
		l.amp = append(l.amp, a)
		l.ph = append(l.ph, float64(W.N(64))*math.Pi/32)
		total += a
	}
	for k := -60; k <= 60; k++ {
		s := math.Pow(10, float64(k)/20)
		l.peak = math.Max(l.peak, cmplx.Abs(l.d.response(math.Atan(s*math.Tan(math.Pi*nu0))/math.Pi)))
	}
	l.peak = (1 + l.peak) * total
	// the line: faulty, then clean
	big := total
	faulty := W.N(1200)
	size := func() int {
		if W.N(8) == 7 { // not 0, which a minimised run chooses forever
			return 0
		}
		return 1 + W.N(pick(W, 64, 1, 7, 200))
	}
	rnd := lcg(W.N(1 << 30))
	put := func(lo, n int) sblock {
		b := sblock{lo: lo, x: make([]float64, n)}
		for i := range b.x {
			b.x[i] = l.tone(lo + i)
		}
		l.plan = append(l.plan, b)
		return b
	}
	pos := 0
	for pos < faulty {
		n := size()
		b := put(pos, n)
		pos += n
		if n == 0 {
			s.Fault("empty block")
			continue
		}
		if !W.Chance(1, 3) {
			continue
		}
		last := &l.plan[len(l.plan)-1]
		kind := W.N(7)
		amp := pickf(W, 10, 1, 1000, 1e6)
		switch kind {
		case 0:
			for i := range b.x {
				b.x[i] = 0
			}
		case 1:
			for i := range b.x {
				b.x[i] = amp * rnd.unit()
			}
			big = math.Max(big, amp)
		case 2:
			for i := range b.x {
				b.x[i] = amp
			}
			big = math.Max(big, amp)
		case 3:
			l.plan = l.plan[:len(l.plan)-1]
		case 4:
			l.plan = append(l.plan, b)
		case 5:
			if k := len(l.plan); k > 1 {
				l.plan[k-1], l.plan[k-2] = l.plan[k-2], l.plan[k-1]
			}
		default:
			last.delay = int64(1+W.N(5000)) * 1e6
		}
		s.Fault([]string{"drop-out", "burst", "stuck level", "lost block", "repeated block", "reordered blocks", "late block"}[kind])
	}
	if W.Chance(2, 5) { // retuned in use
		d, at := l.d, 0
		for k := 1 + W.N(2)*W.N(5); k > 0; k-- {
			same := W.N(2) == 0 // but for one thing
			what := W.N(5)
			if !same || what == 0 {
				d.q = pickf(W, 1, 0.3, 3, 10, math.Sqrt2/2)
			}
			if !same || what == 1 {
				d.dbG = pickf(W, 6, -12, 0, -6)
			}
			if !same || what == 2 {
				d.f0 = (0.002 + 0.496*float64(W.N(1001))/1000) * d.rate
			}
			if what == 3 || !same && W.N(2) == 1 {
				d.kind = W.N(9)
			}
			if !same || what == 4 {
				d.slope = pickf(W, 1, 0.5, 0.3)
			}
			at += W.N(pos + 1 - at)
			l.tuned = append(l.tuned, tuning{d, at, pickf(W, 1, 1, 0.5, 3)})
			s.Fault("retuned in use")
			big *= 1e4
		}
		for i, k := 0, len(l.tuned)-1; i < k; i, k = i+1, k-1 { // the one most like it comes last
			l.tuned[i].d, l.tuned[k].d = l.tuned[k].d, l.tuned[i].d
		}
	}
	r := l.d.radius()
	settle := 10 + int(math.Ceil((math.Log(1e12*(1+big/total))+12)/-math.Log(r)))
	l.quiet = pos + settle
	l.end = l.quiet + 50 + W.N(300)
	grow := pick(W, 1, 4, 40)
	for pos < l.end {
		n := min(size()*grow, l.end-pos)
		if settle > 4000 {
			n = min(l.end-pos, n*50+100)
		}
		put(pos, n)
		pos += n
	}
	return l
}

func (w *world) send(l *listener) {
	for _, b := range l.plan {
		simrt.Sleep(int64(len(b.x))*20_000 + b.delay)
		l.queue = append(l.queue, b)
		l.q.WakeAll()
	}
	l.closed = true
	l.q.WakeAll()
}

func (w *world) listen(l *listener) {
	tune := func(t tuning) {
		n, c := t.d.build(), t.scale
		if l.f == nil {
			l.f = n
		}
		if l.f != n || c != 1 {
			l.f.B0, l.f.B1, l.f.B2, l.f.A0, l.f.A1, l.f.A2 = c*n.B0, c*n.B1, c*n.B2, c*n.A0, c*n.A1, c*n.A2
		}
	}
	tunes := append(append([]tuning{}, l.tuned...), tuning{l.d, math.MaxInt, 1})
	tune(tunes[0])
	for k := 0; ; k++ {
		for len(l.queue) == 0 && !l.closed {
			l.q.Wait("block", -1)
		}
		if len(l.queue) == 0 {
			return
		}
		b := l.queue[0]
		l.queue = l.queue[1:]
		if b.lo >= tunes[0].until {
			for b.lo >= tunes[0].until {
				tunes = tunes[1:]
			}
			tune(tunes[0])
		}
		mode := l.modes[k%len(l.modes)]
		var out []float64
		if mode < 2 {
			out = runBlock(l.e, b.x, mode == 1, 7.5, 7.5, l.f.Filter)
		} else {
			out = runBlock(l.e, f32s(b.x), mode == 3, float32(7.5), float32(7.5), l.f.FilterF32)
		}
		tol := 1e-5
		if len(l.modes) == 1 && mode < 2 {
			tol = 1e-7
		}
		for i, y := range out {
			if b.lo+i < l.quiet {
				if math.IsNaN(y) || math.IsInf(y, 0) {
					l.e.fail("response", "the output at sample %d is %v", b.lo+i, y)
					return
				}
				continue
			}
			l.seen++
			if want := l.want(b.lo + i); !(math.Abs(y-want) <= tol*l.peak) {
				l.e.fail("response", "tones at %v of the sample rate, amplitudes %v: %d samples after the last disturbance the output is %v, the response gives %v (off by %.3g)",
					l.nu, l.amp, b.lo+i, y, want, math.Abs(y-want))
				return
			}
		}
		w.s.Event("block", b.lo, len(b.x), mode)
		w.s.State(uint64(200+l.d.kind), uint64(min(len(b.x), 50)), uint64(mode), uint64(len(l.nu)), uint64(min(len(l.queue), 4)), uint64(min(b.lo, 40)))
	}
}

func (w *world) tones(W *simrt.Stream) {
	s := w.s
	var ls []*listener
	for k := 1 + W.N(2); k > 0; k-- {
		ls = append(ls, w.listener(W, len(ls)))
	}
	left := 0
	var q simrt.WaitQ
	spawn := func(name string, f func()) {
		left++
		s.Spawn(w.app, name, func() {
			defer func() { left--; q.WakeAll() }()
			f()
		})
	}
	for _, l := range ls {
		l := l
		spawn("line", func() { w.send(l) })
		spawn("listener", func() { w.listen(l) })
	}
	for left > 0 && !w.app.Dead {
		if !q.Wait("listeners", 36000e9) {
			s.Violate(w.prop, "hang", "processing does not come to an end")
			return
		}
	}
	for _, l := range ls {
		if l.seen > 0 {
			s.Probe("design: " + designName[l.d.kind])
			s.Probe("nontrivial")
			s.Probes["judged_samples"] += int64(l.seen)
		}
	}
}

// interp is one interpolator: its taps before and after the position and its value.
type interp struct {
	name   string
	f      func(x []float64, p float64) float64
	f32    func(x []float32, p float32) float32
	before int
	ref    func(s []float64, t float64) float64 // taps from the first before the position on, 0 <= t < 1
}

// zform evaluates rows of coefficients for the sums and differences of the taps around the middle.
func zform(s []float64, t float64, rows ...[]float64) float64 {
	z, v := t-0.5, 0.0
	h := len(s) / 2
	for p, row := range rows {
		c := 0.0
		for k, q := range row {
			a, b := s[h+k], s[h-1-k]
			if p%2 == 1 {
				b = -b
			}
			c += q * (a + b)
		}
		v += c * math.Pow(z, float64(p))
	}
	return v
}

var interps = []interp{
	{"Linear", dsp.Linear, dsp.LinearF32, 0, func(s []float64, t float64) float64 { return s[0]*(1-t) + s[1]*t }},
	{"Hermite4p3o", dsp.Hermite4p3o, dsp.Hermite4p3oF32, 1, func(s []float64, t float64) float64 {
		v := 0.0
		for i, x := range s { // Catmull-Rom kernel
			d := math.Abs(t - float64(i-1))
			if d < 1 {
				v += x * (1.5*d*d*d - 2.5*d*d + 1)
			} else if d < 2 {
				v += x * (-0.5*d*d*d + 2.5*d*d - 4*d + 2)
			}
		}
		return v
	}},
	{"Optimal2x4p4o", dsp.Optimal2x4p4o, dsp.Optimal2x4p4oF32, 1, func(s []float64, t float64) float64 {
		return zform(s, t, []float64{0.45645918406487612, 0.04354173901996461}, []float64{0.47236675362442071, 0.17686613581136501},
			[]float64{-0.253674794204558521, 0.25371918651882464}, []float64{-0.37917091811631082, 0.11952965967158000},
			[]float64{0.04252164479749607, -0.04289144034653719})
	}},
	{"Optimal2x6p5o", dsp.Optimal2x6p5o, dsp.Optimal2x6p5oF32, 2, func(s []float64, t float64) float64 {
		return zform(s, t, []float64{0.40513396007145713, 0.09251794438424393, 0.00234806603570670}, []float64{0.28342806338906690, 0.21703277024054901, 0.01309294748731515},
			[]float64{-0.191337682540351941, 0.16187844487943592, 0.02946017143111912}, []float64{-0.16471626190554542, -0.00154547203542499, 0.03399271444851909},
			[]float64{0.03845798729588149, -0.05712936104242644, 0.01866750929921070}, []float64{0.04317950185225609, -0.01802814255926417, 0.00152170021558204})
	}},
}

// value is the interpolation of the slice at p, samples outside of it being zero.
func (ip *interp) value(x []float64, p float64) float64 {
	if ip.before == 0 && p < 0 {
		return 0
	}
	fl := math.Floor(p)
	if fl < -10 || fl > float64(len(x)+10) {
		return 0
	}
	s := make([]float64, 2*ip.before+2)
	for i := range s {
		if j := int(fl) - ip.before + i; j >= 0 && j < len(x) {
			s[i] = x[j]
		}
	}
	return ip.ref(s, p-fl)
}

// resampler reads a stream at positions of its own clock, from a window that moves with the blocks delivered.
type resampler struct {
	e      *env
	ip     *interp
	single bool
	x      []float64
	peak   float64
	base   int // of the window in the stream
	have   int // end of the window
	keep   int // history kept before a new block
	plan   []sblock
	q      simrt.WaitQ
	closed bool
	ratio  float64
	jumps  lcg
	n, in  int
}

func (w *world) resample(r *resampler) {
	pos := 0.0 // in the stream, by the reader's clock
	end := len(r.x)
	for k := 0; k < 4*end+20; k++ {
		for r.have < end && pos+4 > float64(r.have) && !r.closed {
			if r.jumps.next()%9 == 0 {
				break // reads what is not there yet: zeros
			}
			if !r.q.Wait("block", 1e9) {
				w.s.Fault("underrun")
				break
			}
		}
		base := r.base
		win := r.x[base:r.have]
		p := pos - float64(base)
		switch r.jumps.next() % 24 { // clock jumps
		case 0:
			p = -p
			w.s.Fault("clock jump")
		case 1:
			p += float64(len(win)) * r.jumps.unit()
			w.s.Fault("clock jump")
		case 2:
			p = []float64{1e6, 1e10, 1e19, 1e30, -1e6, -1e19, 3e38, float64(len(win)), float64(len(win)) - 1, -1, -0.5, 0, 2147483648, 9223372036854775808}[r.jumps.next()%14]
			w.s.Fault("clock jump")
		case 3:
			p = math.Floor(p)
		}
		g := guarded(len(win), r.e.off(), 7.5)
		copy(g.body(), win)
		var v, want, tol float64
		if r.single {
			g32 := guarded(len(win), r.e.off(), float32(7.5))
			copy(g32.body(), f32s(win))
			p = float64(float32(p))
			v = float64(r.ip.f32(g32.body(), float32(p)))
			want, tol = r.ip.value(nums(g32.body()), p), 3e-6*r.peak
			if _, ok := g32.intact(); !ok || !same(g32.body(), f32s(win)) {
				r.e.fail("input", "the samples were changed")
			}
		} else {
			v = r.ip.f(g.body(), p)
			want, tol = r.ip.value(win, p), 1e-11*r.peak
			if _, ok := g.intact(); !ok || !same(g.body(), win) {
				r.e.fail("input", "the samples were changed")
			}
			// the whole stream gives the same, if the window has all the taps
			if fl := math.Floor(p); fl >= float64(r.ip.before) && fl+float64(r.ip.before)+1 < float64(len(win)) && (p+float64(base))-float64(base) == p {
				if a := r.ip.f(append([]float64(nil), r.x...), p+float64(base)); !(math.Abs(a-v) <= 1e-8*r.peak) {
					r.e.fail("window", "position %v of the stream is %v, from a window that starts at %d it is %v", p+float64(base), a, base, v)
				}
				r.in++
			}
		}
		if !(math.Abs(v-want) <= tol) {
			r.e.fail("value", "position %v of %d samples is %v, expected %v", p, len(win), v, want)
			return
		}
		r.n++
		w.s.Event("interpolate", base, len(win), math.Float64bits(v))
		w.s.State(uint64(300+r.ip.before), uint64(min(len(win), 20)), uint64(int64(math.Max(-5, math.Min(p, 30)))+5), uint64(k%7))
		pos += r.ratio
		if r.jumps.next()%50 == 0 {
			r.ratio *= 1 + 0.02*r.jumps.unit()
			w.s.Fault("clock skew")
		}
		if pos > float64(end+6) {
			return
		}
		simrt.Sleep(10_000)
	}
}

func (w *world) resamplers(W *simrt.Stream) {
	s := w.s
	x := signal(W, W.N(200)) // several may read the same stream
	left := 0
	var q simrt.WaitQ
	spawn := func(name string, f func()) {
		left++
		s.Spawn(w.app, name, func() {
			defer func() { left--; q.WakeAll() }()
			f()
		})
	}
	var rs []*resampler
	for k := 1 + W.N(3); k > 0; k-- {
		r := &resampler{ip: &interps[W.N(len(interps))], single: W.N(2) == 1, x: x, keep: W.N(12), ratio: pickf(W, 1, 0.5, 0.9, 1.37, 0.1, 2, 3.3), jumps: lcg(W.N(1 << 30))}
		if W.N(3) == 0 {
			r.x = signal(W, W.N(120))
		}
		if W.Chance(1, 150) { // a long window, read at few positions
			r.x = signal(W, long(W, W.N(100)))
			r.keep = pick(W, 70000, 40000, 1<<17)
			r.ratio = 300 * math.Max(1, r.ratio)
			s.Probe("long streams")
		}
		for _, v := range r.x {
			r.peak = math.Max(r.peak, math.Abs(v))
		}
		r.e = &env{s: s, prop: w.prop, who: fmt.Sprintf("%s %d", r.ip.name, len(rs))}
		for k := 1 + W.N(4); k > 0; k-- {
			r.e.offs = append(r.e.offs, W.N(16))
		}
		var delays []int64
		cs := cuts(s, W, len(r.x))
		for range cs {
			d := int64(0)
			if W.Chance(1, 8) {
				d = int64(1+W.N(40)) * 1e6
				s.Fault("late block")
			}
			delays = append(delays, d)
		}
		rs = append(rs, r)
		spawn("source", func() {
			for i, n := range cs {
				simrt.Sleep(int64(n)*10_000 + delays[i])
				r.base = max(r.base, r.have-r.keep)
				r.have += n
				r.q.WakeAll()
			}
			r.closed = true
			r.q.WakeAll()
		})
		spawn("resampler", func() { w.resample(r) })
	}
	for left > 0 && !w.app.Dead {
		if !q.Wait("resamplers", 36000e9) {
			s.Violate(w.prop, "hang", "processing does not come to an end")
			return
		}
	}
	for _, r := range rs {
		s.Probe("interpolator: " + r.ip.name)
		s.Probes["positions"] += int64(r.n)
		if r.n > 3 && r.in > 1 {
			s.Probe("nontrivial")
		}
	}
}
