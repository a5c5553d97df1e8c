package dspw

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"verif/sim/harness"
	"verif/sim/simrt"
)

const (
	opFeed = iota
	opReset
	opMag
	opCplx
)

type op struct {
	what int
	n    int
	mode int
	wait int64
}

// user is an instance, what it is made from and what is done with it.
type user struct {
	id   int
	sp   *spec
	ops  []op
	pub  *tables // what it is made from; shared with others
	seen *tables // the contents at that moment
	late bool    // created when its task starts, not before
	m    *machine
	e    *env
	res  [][]float64 // result of every operation
	hist [][2]int    // what was fed since the last reset: ranges of the stream
	pos  int
}

type world struct {
	s    *simrt.Sim
	prop string
	like string // the statement its workload comes from
	app  *simrt.Proc
	us   []*user
	pubs []*tables
	want []*tables // what the owner last put there
	// constructors running: the owner does not change its tables meanwhile
	making int
}

func (w *world) watch(when string) {
	for i, p := range w.pubs {
		if d := p.diff(w.want[i]); d != "" {
			w.s.Violate(w.prop, "tables", "%s: the caller's %s", when, d)
			w.want[i] = p.clone()
		}
	}
}

func (u *user) create(w *world) {
	w.making++
	u.seen = u.pub.clone()
	u.m = u.sp.build(u.pub)
	w.making--
}

// do performs one operation.
func (u *user) do(w *world, e *env, m *machine, o op, pos int) ([]float64, int) {
	switch o.what {
	case opReset:
		if m.reset != nil {
			m.reset()
		}
	case opMag, opCplx:
		if m.read != nil {
			return m.read(e, o.what-opMag), pos
		}
	default:
		n := min(o.n, len(u.sp.re)-pos)
		return m.feed(e, pos, pos+n, o.mode%m.modes), pos + n
	}
	return nil, pos
}

func (w *world) use(u *user) {
	if u.late {
		u.create(w)
		w.watch(fmt.Sprintf("creating %s", u.e.who))
	}
	for i, o := range u.ops {
		r, pos := u.do(w, u.e, u.m, o, u.pos)
		u.res = append(u.res, r)
		switch o.what {
		case opReset:
			u.hist = nil
		case opFeed:
			u.hist = append(u.hist, [2]int{u.pos, pos})
		}
		u.pos = pos
		if w.prop == "D02" && i%8 == 0 || i+1 == len(u.ops) {
			w.watch(fmt.Sprintf("using %s", u.e.who))
		}
		if w.prop == "D03" && (o.what == opMag || o.what == opCplx) {
			u.dft(w, i, o.what, r)
		}
		var sum float64
		for _, v := range r {
			sum += v
		}
		w.s.Event("op", u.id, i, o.what, o.n, math.Float64bits(sum))
		w.s.State(uint64(u.sp.kind), uint64(o.what), uint64(min(o.n, 40)), uint64(o.mode), uint64(min(u.pos, 60)))
		if o.wait > 0 {
			simrt.Sleep(o.wait)
		}
	}
}

// dft checks what a Goertzel detector reports against the samples since the last reset.
func (u *user) dft(w *world, i, what int, r []float64) {
	sp := u.sp
	var x []complex128
	for _, h := range u.hist {
		for k := h[0]; k < h[1]; k++ {
			c := complex(sp.re[k], 0)
			if sp.kind == kGoertzelC {
				c = complex(sp.re[k], sp.im[k])
			}
			x = append(x, c)
		}
	}
	s := 0.0
	for _, v := range x {
		s += cmplx.Abs(v)
	}
	n := len(x)
	var want []float64
	for _, f := range sp.t.freq {
		// the closest bin, halves up
		k := (2*uint64(sp.block)*f + uint64(sp.rate)) / (2 * uint64(sp.rate))
		var v complex128
		for j, c := range x {
			ph := math.Mod(float64(k)*float64((n-j)%sp.block), float64(sp.block)) // exp(2 pi i k (n-j) / block)
			v += c * cmplx.Exp(complex(0, 2*math.Pi*ph/float64(sp.block)))
		}
		if what == opMag {
			want = append(want, real(v)*real(v)+imag(v)*imag(v))
		} else {
			want = append(want, real(v), imag(v))
		}
	}
	per := 1
	if what == opCplx {
		per = 2
	}
	for q, f := range sp.t.freq {
		far := 1e-15 * float64(n) * float64(f) / float64(sp.rate) // of the rounding of the angle
		tol, scale := 1e-7+far, s
		if sp.kind == kGoertzel32 {
			tol = 1e-6 + far
		}
		if n > 700 { // rounding errors add up, most of all in a slow oscillation
			k := (2*uint64(sp.block)*f + uint64(sp.rate)) / (2 * uint64(sp.rate))
			sin := math.Abs(math.Sin(2 * math.Pi * float64(k%uint64(sp.block)) / float64(sp.block)))
			g := math.Min(float64(n), 1/math.Max(sin, 1e-9))
			tol += 4e-16 * float64(n) * g * g
		}
		if what == opMag {
			scale = s * s
		}
		lo, hi := min(len(r), q*per), min(len(r), (q+1)*per)
		if q+1 == len(sp.t.freq) {
			hi = len(r)
		}
		if p, d := near(r[lo:hi], want[q*per:(q+1)*per], tol, scale); p >= 0 {
			w.s.Violate("D03", "dft", "%s after %d samples since the reset: result %d of operation %d is %v, the DFT gives %v (difference %.2g of the sum)", u.e.who, n, lo+p, i, at(r, lo+p), at(want, q*per+p), d)
		}
	}
	w.s.Probe("detector_readings")
}

// alone repeats everything done with one instance in a world without others.
func (w *world) alone(u *user) {
	w.s.Quiet(func() { dsp.SimReset(); dtmf.SimReset() })
	e := &env{s: w.s, prop: w.prop, who: u.e.who + " (alone)", solo: true}
	m := u.sp.build(u.seen.clone())
	pos := 0
	for i, o := range u.ops {
		var r []float64
		r, pos = u.do(w, e, m, o, pos)
		if p := differ(u.res[i], r); p >= 0 {
			w.s.Violate(w.prop, "alone", "%s: operation %d of %d (%s): result %d is %v, alone it is %v", u.e.who, i, len(u.ops), o, p, at(u.res[i], p), at(r, p))
			return
		}
	}
}

func (o op) String() string {
	switch o.what {
	case opReset:
		return "reset"
	case opMag:
		return "magnitude"
	case opCplx:
		return "complex"
	}
	return fmt.Sprintf("block of %d, form %d", o.n, o.mode)
}

func flat(r [][]float64) []float64 {
	var o []float64
	for _, x := range r {
		o = append(o, x...)
	}
	return o
}

// whole feeds the stream in one piece to a fresh instance and checks it against the equation.
func (w *world) whole(u *user) {
	got := flat(u.res)
	n := len(u.sp.re)
	fresh := func(mode int) []float64 {
		m := u.sp.build(u.seen.clone())
		e := &env{s: w.s, prop: w.prop, who: u.e.who + " (one piece)", solo: true}
		return m.feed(e, 0, n, mode)
	}
	one := fresh(0)
	mixed := u.sp.kind == kDC || u.sp.kind == kDC32 || u.sp.kind == kBiquad
	ok := differ(got, one)
	scale := 0.0
	for i := range u.sp.re {
		scale = max(scale, math.Abs(u.sp.re[i]), math.Abs(u.sp.im[i]))
	}
	for _, v := range one {
		scale = max(scale, math.Abs(v))
	}
	if scale == 0 {
		scale = 1e-30
	}
	if u.sp.kind == kFM && len(got) == len(one) {
		exact := true
		for _, o := range u.ops {
			exact = exact && (o.what != opFeed || o.mode%u.m.modes == 0)
		}
		if !exact { // other forms may round differently
			u.sp.angles(u.e, got)
			ok = -1
		}
	}
	if ok >= 0 && mixed && len(got) == len(one) { // different forms may round differently
		exact := true
		for _, o := range u.ops {
			exact = exact && o.what == opFeed && o.mode%u.m.modes < 2
		}
		if !exact {
			tol := 1e-9
			if u.sp.kind != kDC {
				tol = 1e-4
			}
			ok, _ = near(got, one, tol, scale)
		}
	}
	if ok >= 0 {
		w.s.Violate(w.prop, "cut", "%s: fed in %d blocks (%s) output %d of %d is %v, in one piece it is %v", u.e.who, len(u.ops), blocks(u.ops), ok, len(got), at(got, ok), at(one, ok))
		return
	}
	if u.sp.kind == kFM {
		u.sp.angles(u.e, one)
		return
	}
	ref, tol := u.sp.equation()
	if p, d := near(one, ref, tol, scale); p >= 0 {
		w.s.Violate(w.prop, "equation", "%s: output %d of %d is %v, the difference equation gives %v (off by %.2g)", u.e.who, p, len(one), at(one, p), at(ref, p), d)
	}
}

func blocks(ops []op) string {
	t := ""
	for i, o := range ops {
		if i == 12 {
			return t + "..."
		}
		t += fmt.Sprint(o.n, " ")
	}
	return t
}

// wraps says whether a position counter of some bits has just wrapped, at most n samples ago.
func wraps(t, n int) bool {
	for p := 14; p < 18; p++ {
		if d := t - 1<<p; d >= -3 && d <= n+5 {
			return true
		}
	}
	return false
}

// sliding checks the sliding DFT against the last n samples, after every sample.
func (w *world) sliding(u *user) {
	sp := u.sp
	n := sp.sdftN()
	got := flat(u.res)
	win := sp.t.win
	if sp.t.named > 0 {
		win = freqWin[sp.t.named-1]
	}
	if len(win) == 0 {
		win = []float64{1}
	}
	wsum, peak := 0.0, 0.0
	for _, v := range win {
		wsum += math.Abs(v)
	}
	eps := 1e-14
	if sp.kind == kSDFT32 {
		eps = 4e-7
	}
	tab := make([][]complex128, len(win))
	for i := range win {
		j := ((sp.k-len(win)/2+i)%n + n) % n
		for m := 0; m < n; m++ {
			tab[i] = append(tab[i], cmplx.Exp(complex(0, -2*math.Pi*float64(j*m%n)/float64(n))))
		}
	}
	for t := range sp.re {
		peak = max(peak, math.Abs(sp.re[t]), math.Abs(sp.im[t]))
		if len(sp.re) > longStream && t > 300 && t%61 != 0 && t+1 < len(sp.re) && !wraps(t, n) {
			continue
		}
		if t%3 != 0 && len(sp.re) > 300 && t > 2*n && t+1 < len(sp.re) {
			continue
		}
		var y complex128
		for i, wv := range win {
			var v complex128
			for m := 0; m < n; m++ {
				if q := t - (n - 1) + m; q >= 0 {
					v += complex(sp.re[q], sp.im[q]) * tab[i][m]
				}
			}
			y += complex(wv, 0) * v
		}
		if 2*t+1 >= len(got) {
			w.s.Violate("D05", "count", "%s: %d results for %d samples", u.e.who, len(got)/2, len(sp.re))
			return
		}
		// rounding errors are not forgotten: allow for those of all samples so far
		tol := eps * wsum * peak * float64(n) * math.Sqrt(float64(t+16))
		if t > 2000 { // and those of the factors add up in a tone
			tol = eps * wsum * peak * float64(n) * math.Max(math.Sqrt(float64(t+16)), 0.3*float64(t))
		}
		d := cmplx.Abs(complex(got[2*t], got[2*t+1]) - y)
		if !(d <= tol) {
			w.s.Violate("D05", "dft", "%s: after sample %d the result is (%v,%v), the DFT of the last %d samples gives %v (difference %.3g, rounding allows %.3g)", u.e.who, t, got[2*t], got[2*t+1], n, y, d, tol)
			return
		}
		w.s.Probes["sdft_points"]++
	}
}

func (w *world) script(u *user, W *simrt.Stream) {
	for _, n := range cuts(w.s, W, len(u.sp.re)) {
		o := op{what: opFeed, n: n, mode: W.N(4)}
		if W.Chance(1, 6) {
			o.wait = int64(1+W.N(2000)) * 1000
			w.s.Fault("late block")
		}
		u.ops = append(u.ops, o)
		if u.sp.kind >= kGoertzel && u.sp.kind <= kGoertzelC {
			for k := pick(W, 0, 0, 1, 2, 3); k > 0; k-- {
				u.ops = append(u.ops, op{what: 1 + W.Weighted(1, 3, 3)})
			}
		}
	}
	if u.sp.kind >= kGoertzel && u.sp.kind <= kGoertzelC {
		u.ops = append(u.ops, op{what: opMag}, op{what: opCplx}, op{what: opMag})
	}
}

// disturb adds bursts, glitches and drop-outs to the stream.
func disturb(s *simrt.Sim, W *simrt.Stream, sp *spec) {
	n := len(sp.re)
	for k := W.N(4); k > 0 && n > 0; k-- {
		from := W.N(n)
		ln := 1 + W.N(40)
		kind := W.N(4)
		amp := pickf(W, 10, 1000, 1)
		l := lcg(W.N(1 << 20))
		for i := from; i < min(n, from+ln); i++ {
			switch kind {
			case 0:
				sp.re[i], sp.im[i] = 0, 0
			case 1:
				sp.re[i], sp.im[i] = float64(float32(amp*l.unit())), float64(float32(amp*l.unit()))
			case 2:
				sp.re[i] = float64(float32(amp))
			default: // samples lost: the stream skips
				j := min(n-1, i+ln)
				sp.re[i], sp.im[i] = sp.re[j], sp.im[j]
			}
		}
		s.Fault([]string{"drop-out", "burst", "glitch", "lost samples"}[kind])
	}
}

func (w *world) root() {
	s, prop := w.s, w.prop
	W := s.Src.W
	w.like = prop
	if prop == "D10" {
		w.like = []string{"D04", "D01", "D09"}[W.Weighted(4, 2, 1)]
		if !w.complete(W) {
			return
		}
	}
	mask := 0 // of processor features: as the package finds them
	if (w.like == "D04" || prop == "D02") && W.N(2) == 1 {
		mask = pick(W, 1, 3, 7, 2, 5, 4)
		s.Probe(fmt.Sprintf("processor features: %d", mask))
	}
	s.Quiet(func() { dsp.SimCPU(mask); dsp.SimReset(); dtmf.SimReset() })
	switch w.like {
	case "D04":
		w.kernels(W)
		return
	case "D07":
		w.tones(W)
		return
	case "D08":
		w.resamplers(W)
		return
	case "D09":
		w.phases(W)
		return
	}
	nu := 1
	var kinds []int
	maxLen := 300
	switch w.like {
	case "D01":
		nu = 1 + W.N(3)
		kinds = []int{kBiquad, kIIR, kIIR32, kIIRC, kDC, kDC32, kFM, kLowC, kLowR}
		if prop == "D10" {
			kinds = []int{kFM, kLowC, kLowR}
		}
	case "D02":
		nu = 2 + W.N(4)
		for k := 0; k < nKinds; k++ {
			kinds = append(kinds, k)
		}
		maxLen = 120
		if W.Chance(1, 40) { // very many instances
			nu, maxLen = pick(W, 12, 20, 40, 70, 140, 270), 24
			s.Probe("many_instances")
		}
	case "D03":
		nu = 1 + W.N(2)
		kinds = []int{kGoertzel, kGoertzel32, kGoertzelC}
		maxLen = 700
	case "D05":
		nu = 1 + W.N(3)
		kinds = []int{kSDFT, kSDFT32}
		maxLen = 500
	}
	np := 1
	if nu > 1 && W.N(2) == 1 {
		np = 2
	}
	for i := 0; i < np; i++ {
		t := genTables(W, 0.8, 4)
		w.pubs = append(w.pubs, t)
		w.want = append(w.want, t.clone())
	}
	same := W.N(3) == 0 || nu > 10 && W.N(4) > 0 // all of one kind
	kind0 := kinds[W.N(len(kinds))]
	var twin *spec
	for i := 0; i < nu; i++ {
		kind := kind0
		if i > 0 && !same {
			kind = kinds[W.N(len(kinds))]
		}
		n := W.N(maxLen + 1)
		if w.like != "D02" && W.Chance(1, 160) {
			n = long(W, n)
			s.Probe("long streams")
		}
		pub := w.pubs[W.N(np)]
		sp := genSpec(W, kind, pub.clone(), n)
		if w.like == "D01" && (kind == kFM || kind == kLowC || kind == kLowR) && W.N(2+2*w.crossing()) > 0 {
			sp.proc = w.processor(W)
		}
		if twin != nil && twin.kind == kind && W.N(2) == 1 { // the same parameters, other samples
			re, im := sp.re, sp.im
			c := *twin
			sp = &c
			sp.re, sp.im = re, im
			pub = w.us[0].pub
			if W.N(2) == 1 {
				t := sp.t
				if sp.vary(W); sp.t != t { // its owner's tables
					pub = sp.t.clone()
					w.pubs = append(w.pubs, pub)
					w.want = append(w.want, pub.clone())
				}
			}
		}
		if prop == "D03" && W.N(4) == 0 { // a tuner's rate and frequencies
			sp.t = sp.t.clone()
			sp.rate, sp.block = pick(W, 2400000, 1000000, 3200000), pick(W, 8192, 256, 1000, 40000, 65536)
			for i := range sp.t.freq {
				sp.t.freq[i] = uint64(W.N(1_800_000))*uint64(pick(W, 1, 1, 1000)) + uint64(W.N(1000))
			}
			pub = sp.t
		}
		if prop == "D05" {
			if sp.block > 100 && W.N(8) > 0 {
				sp.block = 100
				sp.k %= 100
			}
			if n <= longStream && W.Chance(1, 40) { // longer than counters of 8 bits hold
				sp.block = 250 + W.N(120)
				sp.k = W.N(sp.block)
			}
			disturb(s, W, sp)
		} else if W.N(3) == 0 {
			disturb(s, W, sp)
		}
		if twin == nil {
			twin = sp
		}
		u := &user{id: i, sp: sp, pub: pub, late: W.N(2) == 1}
		u.e = &env{s: s, prop: prop, who: fmt.Sprintf("%s %d", kindName[kind], i)}
		for k := 1 + W.N(5); k > 0; k-- {
			u.e.offs = append(u.e.offs, W.N(16))
		}
		w.script(u, W)
		w.us = append(w.us, u)
	}
	var mut []int64
	var mutSeed int
	if prop == "D02" {
		mutSeed = W.N(1 << 20)
		for k := W.N(4); k > 0; k-- {
			mut = append(mut, int64(1+W.N(3000))*1000)
		}
	}
	nk := 0
	var ks []*kuser
	if prop == "D02" {
		for nk = W.N(3); nk > 0; nk-- {
			ks = append(ks, w.kernel(W, len(ks)))
		}
	}
	left := 0
	var q simrt.WaitQ
	spawn := func(name string, f func()) {
		left++
		s.Spawn(w.app, name, func() {
			defer func() { left--; q.WakeAll() }()
			f()
		})
	}
	wait := func() bool {
		for left > 0 && !w.app.Dead {
			if !q.Wait("users", 3600e9) {
				s.Violate(prop, "hang", "processing does not come to an end")
				return false
			}
		}
		return !w.app.Dead
	}
	// the instances that exist before anything runs
	spawn("setup", func() {
		for _, u := range w.us {
			if !u.late {
				u.create(w)
				w.watch("creating " + u.e.who)
			}
		}
	})
	if !wait() {
		return
	}
	for _, u := range w.us {
		u := u
		spawn(u.e.who, func() { w.use(u) })
	}
	for _, k := range ks {
		k := k
		spawn(k.e.who, func() { w.runKernel(k) })
	}
	if len(mut) > 0 {
		spawn("owner", func() {
			l := lcg(mutSeed)
			for _, d := range mut {
				simrt.Sleep(d)
				for w.making > 0 {
					simrt.Sleep(1000)
				}
				i := int(l.next()) % len(w.pubs)
				w.watch("before a change")
				mutate(&l, w.pubs[i])
				w.want[i] = w.pubs[i].clone()
				s.Fault("tables changed by their owner")
			}
		})
	}
	if !wait() {
		return
	}
	spawn("judge", func() {
		s.Quiet(func() {
			for _, u := range w.us {
				switch w.like {
				case "D01":
					w.whole(u)
				case "D05":
					w.sliding(u)
					w.alone(u)
				default:
					w.alone(u)
				}
				if len(u.sp.re) > 1 && len(u.ops) > 1 && (prop != "D10" || u.sp.proc != nil) {
					s.Probe("nontrivial")
				}
				s.Probe("instances: " + kindName[u.sp.kind])
				s.Probes["samples"] += int64(len(u.sp.re))
			}
			for _, k := range ks {
				w.judgeKernel(k)
			}
			w.watch("at the end")
		})
	})
	wait()
}

// mutate is what an owner may do with slices it passed to a constructor long ago.
func mutate(l *lcg, t *tables) {
	v := float64(l.next()%7) - 3
	for i := range t.b {
		t.b[i] += v
		t.b32[i] = 0
	}
	for i := range t.a {
		if i > 0 || l.next()%2 == 0 {
			t.a[i], t.a32[i] = 2, 4
		}
	}
	for i := range t.win {
		t.win[i], t.win32[i] = v, float32(v)
	}
	for i := range t.freq {
		t.freq[i] = 100 + l.next()%3000
	}
	for i := range t.high {
		t.high[i] = 100 + l.next()%3000
	}
}

// World decides one of D01 to D05 and D07 to D10.
func World(prop string) *harness.World {
	rule := "an instance was fed more than one sample in more than one block"
	if prop == "D04" || prop == "D10" {
		rule = "a kernel processed a stream of more than one element in more than one block"
	}
	switch prop {
	case "D10":
		rule = "a kernel, filter or detector of another processor, or the portable one, was given a stream of more than one element in more than one block"
	case "D07":
		rule = "a filter's output was judged after the settling time"
	case "D09":
		rule = "the phase of a stream of more than three samples was followed over more than one block"
	case "D08":
		rule = "a stream was read at more than three positions, two of them with all their taps in the window"
	}
	return &harness.World{
		Prop: prop,
		Config: func(src *simrt.Src) simrt.Config {
			pm := pick(src.W, 0, 20, 100, 500)
			if prop == "D02" {
				pm = pick(src.W, 5, 20, 100, 500, 0)
			}
			return simrt.Config{MaxSteps: 100_000_000, PreemptMean: pm, RaceMean: pick(src.W, 0, 20, 100), SlackStep: 1e9, MaxSlack: 1 << 60}
		},
		Root: func(s *simrt.Sim) {
			w := &world{s: s, prop: prop, app: &simrt.Proc{Name: "app", IP: "10.1.0.1"}}
			s.Values["app"] = w.app
			w.root()
		},
		After: func(s *simrt.Sim) {
			switch s.Status {
			case "deadlock":
				s.Violate(prop, "stuck", "nothing can proceed any more")
			case "steps":
				s.Violate(prop, "livelock", "processing does not come to an end")
			}
			if p, ok := s.Values["app"].(*simrt.Proc); ok && p.Crashed {
				s.ViolateFirst(prop, "panic", "%s", p.CrashMsg)
			} else if ok && p.Exited {
				s.ViolateFirst(prop, "exit", "the package ended its program with status %d", p.ExitCode)
			}
		},
		Real:   []string{"dsp (Go code instrumented, amd64 assembler kernels as built; D01, D04, D09, D10: also the machine code of the 386, ARM and ARM64 assembler)", "dsp/dtmf"},
		Stub:   []string{"sample sources (simulated)", "goroutine scheduler, clock", "the processors other than amd64 (an instruction interpreter)"},
		Rule:   rule,
		State:  "kind of instance or kernel, operation, block size, form of call, position in the stream",
		Assume: []string{"one instance is used by one goroutine at a time", "samples are finite", "assembler kernels are not preempted; those for amd64 run on this processor, with its features or fewer, those for 386, ARM and ARM64 on simulated ones"},
		Quick:  20, Thorough: 420,
	}
}
