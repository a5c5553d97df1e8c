package dspw

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"verif/sim/simrt"
)

const (
	kBiquad = iota
	kIIR
	kIIR32
	kIIRC
	kDC
	kDC32
	kFM
	kLowC
	kLowR
	nStream   // the streaming filters end here
	kGoertzel = iota - 1
	kGoertzel32
	kGoertzelC
	kSDFT
	kSDFT32
	kDTMF
	nKinds
)

var kindName = []string{"BiQuadFilter", "IIRFilter", "ComplexIIRFilter32", "ComplexIIRFilter", "DCFilter", "DCFilter32", "FMDemodFilter",
	"LowPassDownsampleComplexFilter", "LowPassDownsampleRationalFilter", "Goertzel", "Goertzel32", "ComplexGoertzel", "SDFT", "SDFT32", "DTMF"}

// tables are the slices instances are created from. Their owner may change them at any time.
type tables struct {
	b, a       []float64
	b32, a32   []float32
	win        []float64
	win32      []float32
	freq, high []uint64
	named      int // win is one of the package's own
}

// the package's windows in the frequency domain: Hann, Blackman, Hamming
var freqWin = [][]float64{{-0.25, 0.5, -0.25}, {0.04, -0.25, 0.42, -0.25, 0.04}, {-0.23082, 0.53836, -0.23082}}

func ownWin32(named int) []float32 {
	return append([]float32(nil), [][]float32{dsp.HanningFreqCoeff32, dsp.BlackmanFreqCoeff32, dsp.HammingFreqCoeff32}[named-1]...)
}

func (t *tables) clone() *tables {
	return &tables{b: append([]float64(nil), t.b...), a: append([]float64(nil), t.a...), b32: append([]float32(nil), t.b32...), a32: append([]float32(nil), t.a32...),
		win: append([]float64(nil), t.win...), win32: append([]float32(nil), t.win32...), freq: append([]uint64(nil), t.freq...), high: append([]uint64(nil), t.high...), named: t.named}
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff names the first table that differs.
func (t *tables) diff(o *tables) string {
	switch {
	case !same(t.b, o.b):
		return fmt.Sprint("b coefficients, now ", t.b)
	case !same(t.a, o.a):
		return fmt.Sprint("a coefficients, now ", t.a)
	case !same(t.b32, o.b32):
		return fmt.Sprint("b coefficients (32 bit), now ", t.b32)
	case !same(t.a32, o.a32):
		return fmt.Sprint("a coefficients (32 bit), now ", t.a32)
	case !same(t.win, o.win):
		return fmt.Sprint("window, now ", t.win)
	case !same(t.win32, o.win32):
		return fmt.Sprint("window (32 bit), now ", t.win32)
	case !same(t.freq, o.freq):
		return fmt.Sprint("frequencies, now ", t.freq)
	case !same(t.high, o.high):
		return fmt.Sprint("high frequencies, now ", t.high)
	}
	return ""
}

// poly multiplies out the roots: n roots, as conjugate pairs and real ones.
func poly(W *simrt.Stream, n int, rmax float64) []float64 {
	p := []float64{1}
	mul := func(q []float64) {
		r := make([]float64, len(p)+len(q)-1)
		for i, x := range p {
			for j, y := range q {
				r[i+j] += x * y
			}
		}
		p = r
	}
	for n > 0 {
		r := rmax * float64(1+W.N(16)) / 16
		if n >= 2 && W.N(3) > 0 {
			th := math.Pi * float64(1+W.N(15)) / 16
			mul([]float64{1, -2 * r * math.Cos(th), r * r})
			n -= 2
		} else {
			if W.N(2) == 1 {
				r = -r
			}
			mul([]float64{1, r})
			n--
		}
	}
	return p
}

func genTables(W *simrt.Stream, rmax float64, maxOrder int) *tables {
	t := &tables{}
	n := W.N(maxOrder + 1)
	t.b, t.a = poly(W, n, 1.2), poly(W, n, rmax)
	switch W.N(5) {
	case 0: // no feedback
		for i := range t.a[1:] {
			t.a[i+1] = 0
		}
	case 1: // feedback only
		for i := range t.b[1:] {
			t.b[i+1] = 0
		}
	}
	g, a0 := pickf(W, 1, 0.5, -3, 0.01), pickf(W, 1, 2, 0.25, -1, 3.7)
	for i := range t.b {
		t.b[i] *= g
		t.a[i] *= a0
	}
	for i := range t.b {
		t.b32, t.a32 = append(t.b32, float32(t.b[i])), append(t.a32, float32(t.a[i]))
	}
	switch t.named = W.N(5); t.named {
	case 1:
		t.win = append([]float64(nil), dsp.HanningFreqCoeff...)
	case 2:
		t.win = append([]float64(nil), dsp.BlackmanFreqCoeff...)
	case 3:
		t.win = append([]float64(nil), dsp.HammingFreqCoeff...)
	case 4:
		t.named = 0
		for k := 1 + W.N(6); k > 0; k-- {
			t.win = append(t.win, float64(W.N(9)-4)/4)
		}
	}
	for _, w := range t.win {
		t.win32 = append(t.win32, float32(w))
	}
	if t.named > 0 {
		t.win32 = ownWin32(t.named)
	}
	for k := W.N(6); k > 0; k-- {
		t.freq = append(t.freq, uint64(pick(W, 697, 0, 1000, 1209, 3999, 4000, 7999, 60, 5000)+W.N(50)))
	}
	for k := 1 + W.N(4); k > 0; k-- {
		t.high = append(t.high, uint64(1100+200*k+W.N(50)))
	}
	return t
}

// spec describes an instance and what it is fed.
type spec struct {
	kind    int
	t       *tables
	bq      [6]float64 // biquad B0..A2
	design  int        // biquad constructor
	dArgs   [4]float64
	dcA     float64
	down    int
	fast    int
	slow    int
	rate    int
	block   int
	k       int // SDFT bin
	re, im  []float64
	dtmfStd bool
	dtmfWin int
	proc    *processor // nil: the one here
}

// vary changes one parameter that the kind of instance depends on: an instance almost like another one.
func (sp *spec) vary(W *simrt.Stream) {
	rate := func() { sp.rate = pick(W, 8000, 44100, 48000, 2400000) }
	block := func() {
		sp.block = pick(W, 205, 8, 64, 100, 1, 33, 256)
		sp.k %= sp.block
	}
	table := func() { // same lengths, another value
		t := sp.t.clone()
		d := float64(1+W.N(3)) / 4
		if n := len(t.b); n > 0 {
			i := W.N(n)
			t.b[i] += d
			t.b32[i] = float32(t.b[i])
		}
		if n := len(t.win); n > 0 {
			i := W.N(n)
			t.named = 0
			t.win[i] += d
			t.win32[i] = float32(t.win[i])
		}
		if n := len(t.freq); n > 0 {
			t.freq[W.N(n)] += 100
		}
		t.high[W.N(len(t.high))] += 100
		sp.t = t
	}
	shorter := func() { // a window's beginning, perhaps nothing of it
		t := sp.t.clone()
		n := W.N(len(t.win) + 1)
		t.named, t.win, t.win32 = 0, t.win[:n:n], t.win32[:n:n]
		sp.t = t
	}
	other := func() {
		switch W.N(3) {
		case 0:
			sp.dArgs[1+W.N(3)] *= 0.75
		case 1:
			sp.design = W.N(10)
		default:
			sp.bq[W.N(3)] += 0.5
		}
	}
	var v []func()
	switch sp.kind {
	case kBiquad:
		v = []func(){other}
	case kIIR, kIIR32, kIIRC:
		v = []func(){table}
	case kDC, kDC32:
		v = []func(){func() { sp.dcA = pickf(W, 0.95, 0.5, 0.999, 0, -0.5) }}
	case kLowC, kLowR:
		v = []func(){func() { sp.down = pick(W, 1, 2, 3, 4, 8, 5, 50) }, func() { sp.slow = 1 + W.N(sp.fast) }, func() { sp.fast = sp.slow + W.N(20) }}
	case kSDFT, kSDFT32:
		v = []func(){block, table, shorter, func() { sp.k = W.N(sp.block) }}
	case kGoertzel, kGoertzel32, kGoertzelC:
		v = []func(){rate, block, table}
	default:
		v = []func(){rate, block, table, func() { sp.dtmfWin = (sp.dtmfWin + 1 + W.N(3)) % 4 }, func() { sp.dtmfStd = !sp.dtmfStd }}
	}
	v[W.N(len(v))]()
}

// dtmfWindow is the window function of a detector; nil: the standard one.
func (sp *spec) dtmfWindow() func([]float32) {
	switch sp.dtmfWin {
	case 1:
		return dsp.HanningWindowF32
	case 2:
		return dsp.BlackmanWindowF32
	case 3:
		return func(w []float32) {
			for i := range w {
				w[i] = float32(i%3) + 1
			}
		}
	}
	return nil
}

func genSpec(W *simrt.Stream, kind int, t *tables, n int) *spec {
	sp := &spec{kind: kind, t: t, design: W.N(10)}
	sp.dArgs = [4]float64{8000, pickf(W, 1000, 100, 3000, 2500, 40), pickf(W, 0.7071, 0.5, 2, 10), pickf(W, 6, -6, 0, 12)}
	sp.bq = [6]float64{float64(W.N(9)-4) / 2, float64(W.N(9)-4) / 2, float64(W.N(9)-4) / 2, pickf(W, 1, 2, -1, 0.5), 0, 0}
	pl := poly(W, 2, 0.95)
	sp.bq[4], sp.bq[5] = pl[1]*sp.bq[3], pl[2]*sp.bq[3]
	sp.dcA = pickf(W, 0.95, 0.5, 0.999, 0, -0.5)
	sp.down = pick(W, 1, 2, 3, 4, 8, 5, 50)
	sp.fast, sp.slow = pick(W, 10, 48, 170, 3, 7, 1), 1
	sp.slow = 1 + W.N(sp.fast)
	sp.rate = pick(W, 8000, 8000, 44100, 48000)
	sp.block = pick(W, 205, 8, 64, 100, 1, 33, 256)
	sp.k = W.N(sp.block)
	sp.dtmfStd = W.N(3) == 0
	sp.dtmfWin = W.N(4)
	sp.re = signal(W, n)
	sp.im = signal(W, n)
	return sp
}

// blockN is the length of the SDFT of the spec: at least as long as its window.
func (sp *spec) sdftN() int { return max(sp.block, len(sp.t.win), 2) }

// machine is an instance in use.
type machine struct {
	sp    *spec
	feed  func(e *env, lo, hi, mode int) []float64
	read  func(e *env, what int) []float64
	reset func()
	modes int
	bq    *dsp.BiQuadFilter
}

// runBlock calls a filter with separate or shared, watched buffers.
func runBlock[I, O comparable](e *env, in []I, inplace bool, ci I, co O, f func(in []I, out []O)) []float64 {
	gi := guarded(len(in), e.off(), ci)
	copy(gi.body(), in)
	extra := 0
	if !inplace && !e.solo {
		extra = e.off() % 3
	}
	go_ := guarded(len(in)+extra, e.off(), co)
	out := go_.body()
	if inplace {
		out = any(gi.body()).([]O)
	}
	f(gi.body(), out)
	if i, ok := gi.intact(); !ok {
		e.fail("outside", "element %d of a block of %d at its input was written", i, len(in))
	}
	if i, ok := go_.intact(); !ok {
		e.fail("outside", "element %d of a block of %d at its output was written", i, len(in))
	}
	if !inplace {
		for i, v := range in {
			if gi.body()[i] != v {
				e.fail("input", "element %d of the input block of %d was changed from %v to %v", i, len(in), v, gi.body()[i])
				break
			}
		}
		for i := len(in); i < len(out); i++ {
			if out[i] != co {
				e.fail("outside", "element %d of the output was written for a block of %d", i, len(in))
				break
			}
		}
	}
	return nums(out[:len(in)])
}

func f64s(x []float64) []float64 { return x }
func f32s(x []float64) []float32 {
	o := make([]float32, len(x))
	for i, v := range x {
		o[i] = float32(v)
	}
	return o
}
func c128s(re, im []float64) []complex128 {
	o := make([]complex128, len(re))
	for i := range re {
		o[i] = complex(re[i], im[i])
	}
	return o
}
func c64s(re, im []float64) []complex64 {
	o := make([]complex64, len(re))
	for i := range re {
		o[i] = complex(float32(re[i]), float32(im[i]))
	}
	return o
}

func round32(v []float64) []float64 {
	for i := range v {
		v[i] = float64(float32(v[i]))
	}
	return v
}

func (sp *spec) design10() *dsp.BiQuadFilter {
	d := sp.dArgs
	switch sp.design {
	case 0:
		return dsp.NewLowPassBiQuadFilter(d[0], d[1], d[2])
	case 1:
		return dsp.NewHighPassBiQuadFilter(d[0], d[1], d[2])
	case 2:
		return dsp.NewBandPassConstantSkirtGainBiQuadFilter(d[0], d[1], d[2])
	case 3:
		return dsp.NewBandPassConstantPeakGainBiQuadFilter(d[0], d[1], d[2])
	case 4:
		return dsp.NotchBiQuadFilter(d[0], d[1], d[2])
	case 5:
		return dsp.AllPassBiQuadFilter(d[0], d[1], d[2])
	case 6:
		return dsp.PeakingEQBiQuadFilter(d[0], d[1], d[2], d[3])
	case 7:
		return dsp.LowShelfBiQuadFilter(d[0], d[1], 1, d[3])
	case 8:
		return dsp.HighShelfBiQuadFilter(d[0], d[1], 1, d[3])
	}
	return &dsp.BiQuadFilter{B0: sp.bq[0], B1: sp.bq[1], B2: sp.bq[2], A0: sp.bq[3], A1: sp.bq[4], A2: sp.bq[5]}
}

// build makes the instance from the tables.
func (sp *spec) build(t *tables) *machine {
	m := &machine{sp: sp, modes: 1}
	re, im := sp.re, sp.im
	switch sp.kind {
	case kBiquad:
		f := sp.design10()
		m.bq = f
		m.modes = 4
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			if mode < 2 {
				return round32(runBlock(e, f64s(re[lo:hi]), mode == 1, 7.5, 7.5, f.Filter))
			}
			return runBlock(e, f32s(re[lo:hi]), mode == 3, float32(7.5), float32(7.5), f.FilterF32)
		}
	case kIIR:
		f := dsp.NewIIRFilter(t.b, t.a)
		m.modes = 2
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			return runBlock(e, f64s(re[lo:hi]), mode == 1, 7.5, 7.5, f.Filter)
		}
	case kIIR32:
		f := dsp.NewComplexIIRFilter32(t.b32, t.a32)
		m.modes = 2
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			return runBlock(e, c64s(re[lo:hi], im[lo:hi]), mode == 1, complex64(7.5), complex64(7.5), f.Filter)
		}
	case kIIRC:
		f := dsp.NewComplexIIRFilter(t.b, t.a)
		m.modes = 2
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			return runBlock(e, c128s(re[lo:hi], im[lo:hi]), mode == 1, complex128(7.5), complex128(7.5), f.Filter)
		}
	case kDC:
		f := dsp.NewDCFilter(sp.dcA)
		m.modes = 3
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			if mode == 2 {
				var out []float64
				for _, x := range re[lo:hi] {
					out = append(out, f.FilterOne(x))
				}
				return out
			}
			return runBlock(e, f64s(re[lo:hi]), mode == 1, 7.5, 7.5, f.Filter)
		}
	case kDC32:
		f := dsp.NewDCFilter32(float32(sp.dcA))
		m.modes = 3
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			if mode == 2 {
				var out []float64
				for _, x := range re[lo:hi] {
					out = append(out, float64(f.FilterOne(float32(x))))
				}
				return out
			}
			return runBlock(e, f32s(re[lo:hi]), mode == 1, float32(7.5), float32(7.5), f.Filter)
		}
	case kFM:
		f := &dsp.FMDemodFilter{}
		demodulate := on(sp.proc, "fmDemodulateAsm", (*dsp.FMDemodFilter).Demodulate)
		m.modes = 3
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			out := runBlock(e, c64s(re[lo:hi], im[lo:hi]), false, complex64(7.5), float32(7.5), func(in []complex64, out []float32) {
				if n := demodulate(f, in, out); n != len(in) {
					e.fail("count", "Demodulate of %d samples returned %d", len(in), n)
				}
			})
			for i := lo; i < hi && mode > 0; i++ { // sample by sample
				a, b := complex(re[i], im[i]), complex128(0)
				if i > 0 {
					b = complex(re[i-1], im[i-1])
				}
				if a == 0 || b == 0 { // no angle
					out[i-lo] = 0
				} else if mode == 2 {
					out[i-lo] = float64(dsp.PolarDiscriminator32(complex64(a), complex64(b)))
				} else {
					out[i-lo] = dsp.PolarDiscriminator(a, b)
					d := math.Remainder(out[i-lo]-math.Atan2(imag(a)*real(b)-real(a)*imag(b), real(a)*real(b)+imag(a)*imag(b)), 2*math.Pi)
					if !(math.Abs(d) <= 1e-9) || !(math.Abs(out[i-lo]) <= math.Pi) {
						e.fail("equation", "PolarDiscriminator(%v, %v) is %v", a, b, out[i-lo])
					}
				}
			}
			return out
		}
	case kLowC:
		f := &dsp.LowPassDownsampleComplexFilter{Downsample: sp.down}
		filter := on(sp.proc, "lowPassDownsampleComplexFilterAsm", (*dsp.LowPassDownsampleComplexFilter).Filter)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			return inPlace(e, c64s(re[lo:hi], im[lo:hi]), complex64(7.5), func(x []complex64) []complex64 { return filter(f, x) })
		}
	case kLowR:
		f := &dsp.LowPassDownsampleRationalFilter{Fast: sp.fast, Slow: sp.slow}
		filter := on(sp.proc, "lowPassDownsampleRationalFilterAsm", (*dsp.LowPassDownsampleRationalFilter).Filter)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			return inPlace(e, f32s(re[lo:hi]), float32(7.5), func(x []float32) []float32 { return filter(f, x) })
		}
	case kGoertzel:
		f := dsp.NewGoertzel(t.freq, sp.rate, sp.block)
		m.feed = func(e *env, lo, hi, mode int) []float64 { feedOnly(e, f64s(re[lo:hi]), 7.5, f.Feed); return nil }
		m.read = func(e *env, what int) []float64 {
			if what == 0 {
				return held(e, f.Magnitude())
			}
			return held(e, f.Complex())
		}
		m.reset = f.Reset
	case kGoertzel32:
		f := dsp.NewGoertzel32(t.freq, sp.rate, sp.block)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			feedOnly(e, f32s(re[lo:hi]), float32(7.5), f.Feed)
			return nil
		}
		m.read = func(e *env, what int) []float64 {
			if what == 0 {
				return held(e, f.Magnitude())
			}
			return held(e, f.Complex())
		}
		m.reset = f.Reset
	case kGoertzelC:
		f := dsp.NewComplexGoertzel(t.freq, sp.rate, sp.block)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			feedOnly(e, c128s(re[lo:hi], im[lo:hi]), complex128(7.5), f.Feed)
			return nil
		}
		m.read = func(e *env, what int) []float64 {
			if what == 0 {
				return held(e, f.Magnitude())
			}
			return held(e, f.Complex())
		}
		m.reset = f.Reset
	case kSDFT:
		f := dsp.NewSDFT(sp.k, sp.sdftN(), t.win)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			var out []float64
			for i := lo; i < hi; i++ {
				out = num(out, f.Filter(complex(re[i], im[i])))
			}
			return out
		}
	case kSDFT32:
		f := dsp.NewSDFT32(sp.k, sp.sdftN(), t.win32)
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			var out []float64
			for i := lo; i < hi; i++ {
				out = num(out, f.Filter(complex(float32(re[i]), float32(im[i]))))
			}
			return out
		}
	case kDTMF:
		var d *dtmf.DTMF
		if sp.dtmfStd {
			d = dtmf.NewStandard(sp.rate, sp.block)
		} else {
			d = dtmf.New(t.freq, t.high, sp.rate, sp.block, sp.dtmfWindow())
		}
		m.feed = func(e *env, lo, hi, mode int) []float64 {
			var out []float64
			feedOnly(e, f32s(re[lo:hi]), float32(7.5), func(x []float32) {
				k, mag := d.Feed(x)
				out = []float64{float64(k), float64(mag)}
			})
			return out
		}
	}
	return m
}

// held copies a result, and checks that it lasts until the instance is used again.
func held[T comparable](e *env, r []T) []float64 {
	v := append([]T(nil), r...)
	if !e.solo {
		simrt.Yield()
		if !same(v, r) {
			e.fail("result", "results %v changed to %v while the instance was not in use", v, r)
		}
	}
	return nums(v)
}

// feedOnly gives samples to a detector, which must leave them alone.
func feedOnly[T comparable](e *env, in []T, c T, f func([]T)) {
	g := guarded(len(in), e.off(), c)
	copy(g.body(), in)
	f(g.body())
	if i, ok := g.intact(); !ok {
		e.fail("outside", "element %d of a block of %d samples was written", i, len(in))
	}
	for i, v := range in {
		if g.body()[i] != v {
			e.fail("input", "sample %d of %d fed was changed from %v to %v", i, len(in), v, g.body()[i])
			break
		}
	}
}

// inPlace runs a filter that works on the block itself and returns its outputs.
func inPlace[T comparable](e *env, in []T, c T, f func([]T) []T) []float64 {
	g := guarded(len(in), e.off(), c)
	copy(g.body(), in)
	out := f(g.body())
	if i, ok := g.intact(); !ok {
		e.fail("outside", "element %d of a block of %d was written", i, len(in))
	}
	if cap(out) > cap(g.body()) {
		e.fail("outside", "a block of %d with room for %d returns one with room for %d", len(in), cap(g.body()), cap(out))
	}
	return nums(out)
}

// equation is the difference equation of the filter, evaluated independently, and its tolerance.
func (sp *spec) equation() (ref []float64, tol float64) {
	n := len(sp.re)
	switch sp.kind {
	case kBiquad:
		f := sp.design10()
		y := iir([]float64{f.B0, f.B1, f.B2}, []float64{f.A0, f.A1, f.A2}, c128s(sp.re, make([]float64, n)))
		for _, v := range y {
			ref = append(ref, real(v))
		}
		return ref, 1e-5
	case kIIR:
		for _, v := range iir(sp.t.b, sp.t.a, c128s(sp.re, make([]float64, n))) {
			ref = append(ref, real(v))
		}
		return ref, 1e-6
	case kIIRC:
		return nums(iir(sp.t.b, sp.t.a, c128s(sp.re, sp.im))), 1e-6
	case kIIR32:
		var b, a []float64
		for i := range sp.t.b32 {
			b, a = append(b, float64(sp.t.b32[i])), append(a, float64(sp.t.a32[i]))
		}
		return nums(iir(b, a, c128s(sp.re, sp.im))), 2e-3
	case kDC, kDC32:
		a, tl := sp.dcA, 1e-9
		if sp.kind == kDC32 {
			a, tl = float64(float32(a)), 1e-3
		}
		w := 0.0
		for _, x := range sp.re {
			nw := x + a*w
			ref = append(ref, nw-w)
			w = nw
		}
		return ref, tl
	case kLowC:
		var sr, si float64
		for i := 0; i < n; i++ {
			sr, si = sr+sp.re[i], si+sp.im[i]
			if (i+1)%sp.down == 0 {
				ref = append(ref, sr, si)
				sr, si = 0, 0
			}
		}
		return ref, 1e-4
	case kLowR:
		sum, m := 0.0, 0
		for i := 0; i < n; i++ {
			sum += sp.re[i]
			if (i+1)*sp.slow >= (m+1)*sp.fast { // the end of group m
				ref = append(ref, sum*float64(sp.slow)/float64(sp.fast))
				sum = 0
				m++
			}
		}
		return ref, 1e-4
	}
	return nil, 0
}

func iir(b, a []float64, x []complex128) []complex128 {
	y := make([]complex128, len(x))
	for n := range x {
		var v complex128
		for k := 0; k < len(b) && k <= n; k++ {
			v += complex(b[k]/a[0], 0) * x[n-k]
		}
		for k := 1; k < len(a) && k <= n; k++ {
			v -= complex(a[k]/a[0], 0) * y[n-k]
		}
		y[n] = v
	}
	return y
}

// angles checks the output of the FM demodulator.
func (sp *spec) angles(e *env, out []float64) {
	pr := complex128(0)
	for i, y := range out {
		x := complex(float64(float32(sp.re[i])), float64(float32(sp.im[i])))
		p := x * cmplx.Conj(pr)
		want := 0.0
		if p != 0 {
			want = cmplx.Phase(p)
		}
		pr = x
		if p != 0 && cmplx.Abs(p) < 1e-12 {
			continue
		}
		d := math.Abs(y - want)
		d = min(d, math.Abs(d-2*math.Pi))
		if !(d <= 0.011) || !(math.Abs(y) <= math.Pi+0.011) {
			e.fail("equation", "sample %d: angle %v, the phase step is %v", i, y, want)
			return
		}
	}
}
