package dspw

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
	"verif/sim/simrt"
)

// detector is one way of getting the angle between two samples, and how far it may be off.
type detector struct {
	name  string
	fixed bool // for samples of 16 bits or less
	err   float64
	f     func(a, b complex128) float64 // the angle of a*conj(b)
	asm   func(y, x float32) float32    // or from the product, on other processors
}

func mul32(a, b complex128) complex64 { return complex64(a) * dsp.Conj32(complex64(b)) }

func mulInt(a, b complex128) (y, x int) {
	ar, ai, br, bi := int(real(a)), int(imag(a)), int(real(b)), int(imag(b))
	return ai*br - ar*bi, ar*br + ai*bi
}

const unit = math.Pi / (1 << 14)

var detectors = []detector{
	{"FMDemodFilter", false, 0.011, nil, nil},
	{"PolarDiscriminator", false, 1e-6, dsp.PolarDiscriminator, nil},
	{"PolarDiscriminator32", false, 0.011, func(a, b complex128) float64 {
		return float64(dsp.PolarDiscriminator32(complex64(a), complex64(b)))
	}, nil},
	{"Phase32", false, 1e-6, func(a, b complex128) float64 { return float64(dsp.Phase32(mul32(a, b))) }, nil},
	{"FastPhase32", false, 0.011, func(a, b complex128) float64 { return float64(dsp.FastPhase32(mul32(a, b))) }, nil},
	{"FastAtan2", false, 0.011, func(a, b complex128) float64 {
		p := mul32(a, b)
		return float64(dsp.FastAtan2(imag(p), real(p)))
	}, dsp.FastAtan2},
	{"FastAtan2_2", false, 0.005, func(a, b complex128) float64 {
		p := mul32(a, b)
		return float64(dsp.FastAtan2_2(imag(p), real(p)))
	}, dsp.FastAtan2_2},
	{"Atan2LUT", true, 0.005, func(a, b complex128) float64 { return float64(dsp.Atan2LUT(mulInt(a, b))) * unit }, nil},
	{"FastAtan2Fixed", true, 0.08, func(a, b complex128) float64 { return float64(dsp.FastAtan2Fixed(mulInt(a, b))) * unit }, nil},
}

// tracker follows the phase of a stream.
type tracker struct {
	e    *env
	d    *detector
	x    []complex128
	cuts []int
	wait []int64
	n    int
	proc *processor
}

// carrier makes a stream: a wandering phase, a constellation, glitches, silence.
func (w *world) carrier(W *simrt.Stream, n int, fixed bool) []complex128 {
	amp := pickf(W, 1, 100, 1e-3, 1e4)
	if fixed {
		amp = pickf(W, 127, 32767, 3, 1, 1000)
	}
	l := lcg(W.N(1<<30))*2654435761 + 99
	ph, step := float64(W.N(64))*math.Pi/32, math.Pi*float64(W.N(257)-128)/128
	style := W.N(6)
	psk := pick(W, 4, 2, 8, 16, 3)
	dev := pickf(W, 0.1, 0.01, 1)
	x := make([]complex128, n)
	for i := range x {
		a := amp
		switch style {
		case 0: // a tone
			ph += step
		case 1: // frequency modulation
			ph += step + dev*l.unit()
		case 2: // phase keying
			ph = 2 * math.Pi * float64(l.next()%uint64(psk)) / float64(psk)
		case 3: // noise
			ph, a = math.Pi*l.unit(), amp*math.Abs(l.unit())
		case 4: // a slow carrier
			ph += step / 1000
		default: // near the axes
			ph = math.Pi/2*float64(l.next()%4) + dev*dev*l.unit()
			if l.next()%2 == 0 {
				ph = math.Round(ph/math.Pi*2) * math.Pi / 2
			}
		}
		x[i] = complex(a*math.Cos(ph), a*math.Sin(ph))
		if style == 2 || style == 5 { // exactly on the axes
			re, im := real(x[i]), imag(x[i])
			if math.Abs(re) < 1e-9*amp {
				re = 0
			}
			if math.Abs(im) < 1e-9*amp {
				im = 0
			}
			x[i] = complex(re, im)
		}
	}
	if fixed && W.N(4) == 0 { // steps whose slope is a power of two, or almost
		for i := range x {
			k, sl := int(1+l.next()%60), []int{512, 256, 1, 2, 128}[l.next()%5]
			p, q := k, sl*k+int(l.next()%3)-1
			if l.next()%2 == 0 {
				p, q = q, p
			}
			if l.next()%2 == 0 {
				p = -p
			}
			if l.next()%2 == 0 {
				q = -q
			}
			x[i] = complex(float64(p), float64(q))
			if i%2 == 0 {
				x[i] = []complex128{1, 1i, -1, -1i}[l.next()%4] * complex(float64(1+l.next()%3), 0)
			}
		}
	}
	for k := W.N(4); k > 0 && n > 0; k-- {
		from, ln, kind := W.N(n), 1+W.N(20), W.N(4)
		for i := from; i < min(n, from+ln); i++ {
			switch kind {
			case 0:
				x[i] = 0
			case 1:
				x[i] = complex(amp*l.unit(), amp*l.unit())
			case 2:
				x[i] = complex(amp, 0)
			default:
				x[i] = x[min(n-1, i+ln)]
			}
		}
		w.s.Fault([]string{"drop-out", "burst", "stuck level", "lost samples"}[kind])
	}
	for i, v := range x {
		re, im := float64(float32(real(v))), float64(float32(imag(v)))
		if fixed {
			re, im = math.Round(re), math.Round(im)
		} else if math.Hypot(re, im) < 1e-6 {
			re, im = 0, 0
		}
		x[i] = complex(re, im)
	}
	return x
}

func (w *world) track(t *tracker) {
	fm := &dsp.FMDemodFilter{}
	f := t.d.f
	if t.proc != nil && t.d.asm != nil {
		g := other(t.proc, t.d.name, t.d.asm)
		f = func(a, b complex128) float64 {
			p := mul32(a, b)
			return float64(g(imag(p), real(p)))
		}
	}
	demodulate := on(t.proc, "fmDemodulateAsm", (*dsp.FMDemodFilter).Demodulate)
	pos := 0
	pr := complex128(0)
	for k, n := range t.cuts {
		in := t.x[pos : pos+n]
		var out []float64
		if t.d.f == nil {
			re, im := make([]float64, n), make([]float64, n)
			for i, v := range in {
				re[i], im[i] = real(v), imag(v)
			}
			out = runBlock(t.e, c64s(re, im), false, complex64(7.5), float32(7.5), func(in []complex64, out []float32) {
				if m := demodulate(fm, in, out); m != len(in) {
					t.e.fail("count", "Demodulate of %d samples returned %d", len(in), m)
				}
			})
		} else {
			b := pr
			for _, a := range in {
				out = append(out, f(a, b))
				b = a
			}
		}
		for i, y := range out {
			a, b := in[i], pr
			pr = a
			t.n++
			re, im := real(a)*real(b)+imag(a)*imag(b), imag(a)*real(b)-real(a)*imag(b)
			if re == 0 && im == 0 {
				// no angle: silence must stay silent
				if !(math.Abs(y) <= 1e-9) && t.d.name != "PolarDiscriminator" && t.d.name != "Phase32" { // these give a signed zero's angle
					t.e.fail("silence", "sample %d: angle %v between %v and %v", pos+i, y, a, b)
					return
				}
				continue
			}
			tol := t.d.err
			if !t.d.fixed { // rounding of the product in 32 bits
				tol += 1e-6
			}
			d := math.Abs(math.Remainder(y-math.Atan2(im, re), 2*math.Pi))
			if !(d <= tol) || !(math.Abs(y) <= math.Pi+t.d.err) {
				t.e.fail("angle", "sample %d: %v after %v gives an angle of %v, it is %v (off by %.4f, allowed %v)", pos+i, a, b, y, math.Atan2(im, re), d, tol)
				return
			}
		}
		pos += n
		w.s.Event("phase", t.d.name, n)
		w.s.State(uint64(400+len(t.d.name)), uint64(min(n, 40)), uint64(min(k, 20)))
		if t.wait[k] > 0 {
			simrt.Sleep(t.wait[k])
		}
	}
}

func (w *world) phases(W *simrt.Stream) {
	s := w.s
	left := 0
	var q simrt.WaitQ
	var ts []*tracker
	for k := 1 + W.N(3); k > 0; k-- {
		t := &tracker{d: &detectors[W.N(len(detectors))]}
		if w.prop == "D10" {
			t.d = &detectors[pick(W, 0, 5, 6)]
		}
		n := W.N(300)
		if (t.d.f == nil || t.d.asm != nil) && W.N(2+2*w.crossing()) > 0 {
			t.proc = w.processor(W)
		}
		t.x = w.carrier(W, n, t.d.fixed || W.N(3) == 0)
		t.cuts = cuts(s, W, n)
		for range t.cuts {
			d := int64(0)
			if W.Chance(1, 6) {
				d = int64(1+W.N(2000)) * 1000
				s.Fault("late block")
			}
			t.wait = append(t.wait, d)
		}
		t.e = &env{s: s, prop: w.prop, who: fmt.Sprintf("%s %d", t.d.name, len(ts))}
		for k := 1 + W.N(4); k > 0; k-- {
			t.e.offs = append(t.e.offs, W.N(16))
		}
		ts = append(ts, t)
	}
	for _, t := range ts {
		t := t
		left++
		s.Spawn(w.app, t.e.who, func() {
			defer func() { left--; q.WakeAll() }()
			w.track(t)
		})
	}
	for left > 0 && !w.app.Dead {
		if !q.Wait("trackers", 36000e9) {
			s.Violate(w.prop, "hang", "processing does not come to an end")
			return
		}
	}
	for _, t := range ts {
		s.Probe("detector: " + t.d.name)
		s.Probes["angles"] += int64(t.n)
		if t.n > 3 && len(t.cuts) > 1 && (w.prop != "D10" || t.proc != nil) {
			s.Probe("nontrivial")
		}
	}
}
