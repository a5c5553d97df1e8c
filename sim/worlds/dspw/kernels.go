package dspw

import (
	"fmt"
	"math"
	"runtime"

	"github.com/samuel/go-dsp/dsp"
	"verif/sim/simrt"
)

// kern is a block kernel bound to a stream of n elements.
type kern struct {
	name string
	base string // the name without the processor
	n    int
	// call processes elements from lo on: nin/nout/nmul are the lengths of the slices in items.
	call    func(e *env, lo, nin, nout, nmul int, inplace bool) []float64
	pin     int // items per element
	pout    int
	per     int // numbers per element in the output
	mul     bool
	inplace bool
	ref     func(i int) []float64  // the documented value of element i
	tol     float64                // relative, of the value
	reduce  int                    // 1: maximum, 2: minimum
	amp     float64                // bound of the operands, for what rounding may do to sums
	fill    func(i, n int) float64 // it fills a block of n: the documented value of element i
}

// either is a kernel or, now and then, its portable version or that of another processor.
func either[F any](w *world, W *simrt.Stream, q *kern, name string, f F, portable string) F {
	q.name, q.base = name, name
	switch W.N(6 - w.crossing()) {
	case 0, 1:
		if p, ok := dsp.SimUnexported()[portable].(F); ok {
			q.name = portable
			return p
		}
	case 2, 3:
		p := w.processor(W)
		q.name += " on " + p.name
		return other(p, name, f)
	}
	return f
}

// rotator makes a kernel call from a filter that works on whole turns in place.
func rotator[T comparable](in []T, turn int, c T, f func([]T) []T) func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
	return func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
		nin = min(nin, nout, len(in)-lo*turn) / turn * turn
		g := guarded(nin, e.off(), c)
		copy(g.body(), in[lo*turn:])
		out := f(g.body())
		if i, ok := g.intact(); !ok {
			e.fail("outside", "element %d of a block of %d was written", i, nin)
		}
		if len(out) != nin || nin > 0 && &out[0] != &g.body()[0] {
			e.fail("outside", "a block of %d returns %d samples, not the block itself", nin, len(out))
			return make([]float64, len(nums(g.body())))
		}
		if cap(out) > cap(g.body()) {
			e.fail("outside", "a block of %d with room for %d returns one with room for %d", nin, cap(g.body()), cap(out))
		}
		if r := (lo + nin/turn) % turn; r > 0 && nin > 0 { // a block that ends within a turn may be refused
			h := guarded(nin-r, e.off(), c)
			copy(h.body(), in[lo*turn:])
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(runtime.Error); !ok {
							panic(x)
						}
					}
				}()
				f(h.body())
			}()
			if i, ok := h.intact(); !ok {
				e.fail("outside", "element %d of a block of %d was written", i, nin-r)
			}
		}
		return nums(out)
	}
}

// filler makes a kernel call from a window function.
func filler[T comparable](c T, f func([]T)) func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
	return func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
		g := guarded(nout, e.off(), c)
		f(g.body())
		if i, ok := g.intact(); !ok {
			e.fail("outside", "element %d of a window of %d was written", i, nout)
		}
		return nums(g.body())
	}
}

// cosines is a sum of cosines with alternating signs over a window of n.
func cosines(i, n int, a ...float64) float64 {
	v := 0.0
	for k, c := range a {
		if k%2 == 1 {
			c = -c
		}
		v += c * math.Cos(2*math.Pi*float64(k*i)/float64(n-1))
	}
	return v
}

func triangle(i, n int) float64 {
	return 1 - math.Abs(2*float64(i)-float64(n-1))/float64(n+1)
}
func hamming(i, n int) float64  { return cosines(i, n, 0.53836, 0.46164) }
func hanning(i, n int) float64  { return cosines(i, n, 0.5, 0.5) }
func blackman(i, n int) float64 { return cosines(i, n, 0.42, 0.5, 0.08) }
func nuttall(i, n int) float64  { return cosines(i, n, 0.355768, 0.487396, 0.144232, 0.012604) }

var windows = []struct {
	name string
	f    func([]float64)
	f32  func([]float32)
	ref  func(i, n int) float64
}{
	{"TriangleWindow", dsp.TriangleWindow, dsp.TriangleWindowF32, triangle},
	{"HammingWindow", dsp.HammingWindow, dsp.HammingWindowF32, hamming},
	{"HanningWindow", dsp.HanningWindow, dsp.HanningWindowF32, hanning},
	{"BlackmanWindow", dsp.BlackmanWindow, dsp.BlackmanWindowF32, blackman},
	{"NuttallWindow", dsp.NuttallWindow, dsp.NuttallWindowF32, nuttall},
}

func items[T any](W *simrt.Stream, n int, f func(l *lcg) T) []T {
	l := lcg(W.N(1<<30))*2654435761 + 777
	x := make([]T, n)
	for i := range x {
		x[i] = f(&l)
	}
	return x
}

// bind makes a kernel call from a function over slices.
func bind[I, O, M comparable](in []I, pre []O, mul []M, pin, pout int, ci I, co O, f func([]I, []O, []M)) func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
	return func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
		nin = min(nin, len(in)-lo*pin)
		n := min(nin/pin, nout/pout)
		if inplace {
			n = nin / pin
		}
		gi := guarded(nin, e.off(), ci)
		copy(gi.body(), in[lo*pin:])
		var gm []M
		if mul != nil {
			nmul = min(nmul, len(mul)-lo)
			gm = append([]M(nil), mul[lo:lo+nmul]...)
			n = min(n, nmul)
		}
		if inplace {
			o := any(gi.body()).([]O)
			before := append([]O(nil), o...)
			f(gi.body(), o, gm)
			if i, ok := gi.intact(); !ok {
				e.fail("outside", "element %d of a block of %d was written", i, nin)
			}
			for i := n * pout; i < len(o); i++ {
				if o[i] != before[i] {
					e.fail("outside", "item %d of a block of %d items was written, only %d elements could be processed", i, nin, n)
					break
				}
			}
			return nums(o[:n*pout])
		}
		g := guarded(nout, e.off(), co)
		out := g.body()
		if pre != nil {
			copy(out, pre[min(len(pre), lo*pout):])
		}
		before := append([]O(nil), out...)
		f(gi.body(), out, gm)
		if i, ok := g.intact(); !ok {
			e.fail("outside", "item %d of an output of %d (input of %d items) was written", i, nout, nin)
		}
		if i, ok := gi.intact(); !ok {
			e.fail("outside", "item %d of an input of %d was written", i, nin)
		}
		for i := n * pout; i < len(out); i++ {
			if out[i] != before[i] {
				e.fail("outside", "item %d of an output of %d items was written, an input of %d items gives %d", i, nout, nin, n*pout)
				break
			}
		}
		if !same(gi.body(), in[lo*pin:lo*pin+nin]) {
			e.fail("input", "the input block was changed")
		}
		return nums(out[:n*pout])
	}
}

func sat16(v float32) float64 {
	return math.Max(-32768, math.Min(32767, math.Trunc(float64(v))))
}

// newKern makes kernel number k over a stream of n elements.
func (w *world) newKern(W *simrt.Stream, k, n int) *kern {
	byteOf := func(l *lcg) byte { return byte(l.next()) }
	amp := pickf(W, 1, 1000, 1e-3, 1e6)
	real32 := func(l *lcg) float32 {
		if l.next()%9 == 0 {
			return 0
		}
		return float32(l.unit() * amp)
	}
	cplx := func(l *lcg) complex64 { return complex(real32(l), real32(l)) }
	scale := float32(pickf(W, 1, 32767, 0.5, -2, 1.0/128, 0, 2.5))
	none := []byte(nil)
	q := &kern{n: n, pin: 1, pout: 1, amp: amp}
	u8 := func(name, portable string, f func([]byte, []float32), ref func(b byte) float64) {
		in := items(W, n, byteOf)
		f = either(w, W, q, name, f, portable)
		q.call = bind(in, []float32(nil), none, 1, 1, byte(0x5a), float32(7.5), func(i []byte, o []float32, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 { return []float64{ref(in[i])} }
	}
	switch k {
	case 0:
		in := items(W, n, byteOf)
		f := either(w, W, q, "Ui8toi16", dsp.Ui8toi16, "ui8toi16")
		q.call = bind(in, []int16(nil), none, 1, 1, byte(0x5a), int16(0x1234), func(i []byte, o []int16, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 { v := in[i] - 128; return []float64{float64(int16(uint16(v)<<8 | uint16(v)))} }
	case 1:
		in := items(W, n, byteOf)
		f := either(w, W, q, "Ui8toi16b", dsp.Ui8toi16b, "ui8toi16b")
		q.pout = 2
		q.call = bind(in, []byte(nil), none, 1, 2, byte(0x5a), byte(0x5a), func(i []byte, o []byte, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 { v := float64(in[i] - 128); return []float64{v, v} }
	case 2:
		u8("Ui8tof32", "ui8tof32", dsp.Ui8tof32, func(b byte) float64 { return float64(b) - 128 })
	case 3:
		u8("I8tof32", "i8tof32", dsp.I8tof32, func(b byte) float64 { return float64(int8(b)) })
	case 4:
		in := items(W, 2*n, byteOf)
		f := either(w, W, q, "Ui8toc64", dsp.Ui8toc64, "ui8toc64")
		q.pin = 2
		q.call = bind(in, []complex64(nil), none, 2, 1, byte(0x5a), complex64(7.5), func(i []byte, o []complex64, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 { return []float64{float64(in[2*i]) - 128, float64(in[2*i+1]) - 128} }
	case 5:
		in := items(W, 2*n, func(l *lcg) int8 { return int8(l.next()) })
		q.name, q.pin = "I8toc64", 2
		q.call = bind(in, []complex64(nil), none, 2, 1, int8(0x5a), complex64(7.5), func(i []int8, o []complex64, _ []byte) { dsp.I8toc64(i, o) })
		q.ref = func(i int) []float64 { return []float64{float64(in[2*i]), float64(in[2*i+1])} }
	case 6:
		in := items(W, n, func(l *lcg) complex64 { return complex(float32(l.unit()*127.99), float32(l.unit()*127.99)) })
		q.name, q.pout = "C64toi8", 2
		q.call = bind(in, []int8(nil), none, 1, 2, complex64(7.5), int8(0x5a), func(i []complex64, o []int8, _ []byte) { dsp.C64toi8(i, o) })
		q.ref = func(i int) []float64 {
			return []float64{math.Trunc(float64(real(in[i]))), math.Trunc(float64(imag(in[i])))}
		}
	case 7, 8:
		over := pickf(W, 1, 1, 1.2, 40, 1e6) // how far the values may be out of range
		sc := float32(pickf(W, 32767, 1, 1000, -32767, 32768))
		in := items(W, n, func(l *lcg) float32 {
			v := l.unit() * 32768 / math.Abs(float64(sc))
			if l.next()%3 == 0 {
				v *= over
			}
			return float32(v)
		})
		q.ref = func(i int) []float64 { return []float64{sat16(in[i] * sc)} }
		if k == 7 {
			f := either(w, W, q, "F32toi16", dsp.F32toi16, "f32toi16")
			q.call = bind(in, []int16(nil), none, 1, 1, float32(7.5), int16(0x1234), func(i []float32, o []int16, _ []byte) { f(i, o, sc) })
		} else {
			f := either(w, W, q, "F32toi16ble", dsp.F32toi16ble, "f32toi16ble")
			q.pout = 2
			q.call = bind(in, []byte(nil), none, 1, 2, float32(7.5), byte(0x5a), func(i []float32, o []byte, _ []byte) { f(i, o, sc) })
			r := q.ref
			q.ref = func(i int) []float64 {
				v := uint16(int16(r(i)[0]))
				return []float64{float64(v & 255), float64(v >> 8)}
			}
		}
	case 9:
		in := items(W, n, func(l *lcg) int16 { return int16(l.next()) })
		f := either(w, W, q, "I16ToBLE", dsp.I16ToBLE, "i16ToBLE")
		q.pout = 2
		q.call = bind(in, []byte(nil), none, 1, 2, int16(0x1234), byte(0x5a), func(i []int16, o []byte, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 {
			return []float64{float64(uint16(in[i]) & 255), float64(uint16(in[i]) >> 8)}
		}
	case 10, 11:
		in := items(W, 2*n, byteOf)
		v := func(i int) float64 { return float64(int16(uint16(in[2*i]) | uint16(in[2*i+1])<<8)) }
		q.pin = 2
		if k == 10 {
			f := either(w, W, q, "I16bleToF64", dsp.I16bleToF64, "i16bleToF64")
			q.call = bind(in, []float64(nil), none, 2, 1, byte(0x5a), 7.5, func(i []byte, o []float64, _ []byte) { f(i, o, float64(scale)) })
		} else {
			f := either(w, W, q, "I16bleToF32", dsp.I16bleToF32, "i16bleToF32")
			q.call = bind(in, []float32(nil), none, 2, 1, byte(0x5a), float32(7.5), func(i []byte, o []float32, _ []byte) { f(i, o, scale) })
		}
		q.ref = func(i int) []float64 { return []float64{v(i) * float64(scale)} }
		q.tol = 1e-6
	case 12:
		in := items(W, 4*n, byteOf)
		q.name, q.pin = "I32bleToF32", 4
		q.call = bind(in, []float32(nil), none, 4, 1, byte(0x5a), float32(7.5), func(i []byte, o []float32, _ []byte) { dsp.I32bleToF32(i, o, scale) })
		q.ref = func(i int) []float64 {
			return []float64{float64(int32(uint32(in[4*i])|uint32(in[4*i+1])<<8|uint32(in[4*i+2])<<16|uint32(in[4*i+3])<<24)) * float64(scale)}
		}
		q.tol = 1e-6
	case 13:
		in := items(W, n, real32)
		q.name, q.pout = "F32Tof32ble", 4
		q.call = bind(in, []byte(nil), none, 1, 4, float32(7.5), byte(0x5a), func(i []float32, o []byte, _ []byte) { dsp.F32Tof32ble(i, o) })
		q.ref = func(i int) []float64 {
			b := math.Float32bits(in[i])
			return []float64{float64(b & 255), float64(b >> 8 & 255), float64(b >> 16 & 255), float64(b >> 24)}
		}
	case 14:
		in, mul := items(W, n, cplx), items(W, n, real32)
		f := either(w, W, q, "VMulC64xF32", dsp.VMulC64xF32, "vMulC64xF32")
		q.mul, q.inplace, q.tol = true, true, 1e-6
		q.call = bind(in, []complex64(nil), mul, 1, 1, complex64(7.5), complex64(7.5), func(i, o []complex64, m []float32) { f(i, o, m) })
		q.ref = func(i int) []float64 {
			return []float64{float64(real(in[i])) * float64(mul[i]), float64(imag(in[i])) * float64(mul[i])}
		}
	case 15:
		in, mul := items(W, n, cplx), items(W, n, cplx)
		q.name, q.mul, q.inplace, q.tol = "VMulC64", true, true, 1e-5
		q.call = bind(in, []complex64(nil), mul, 1, 1, complex64(7.5), complex64(7.5), func(i, o []complex64, m []complex64) { dsp.VMulC64(i, o, m) })
		q.ref = func(i int) []float64 { v := complex128(in[i]) * complex128(mul[i]); return []float64{real(v), imag(v)} }
	case 16:
		in, pre := items(W, n, real32), items(W, n, real32)
		q.name, q.tol = "VAddF32", 1e-5
		q.call = bind(in, pre, none, 1, 1, float32(7.5), float32(7.5), func(i, o []float32, _ []byte) { dsp.VAddF32(i, o) })
		q.ref = func(i int) []float64 { return []float64{float64(in[i]) + float64(pre[i])} }
	case 17:
		in, pre := items(W, n, cplx), items(W, n, cplx)
		q.name, q.tol = "VAddC64", 1e-5
		q.call = bind(in, pre, none, 1, 1, complex64(7.5), complex64(7.5), func(i, o []complex64, _ []byte) { dsp.VAddC64(i, o) })
		q.ref = func(i int) []float64 { v := complex128(in[i]) + complex128(pre[i]); return []float64{real(v), imag(v)} }
	case 18:
		in := items(W, n, cplx)
		q.name, q.inplace, q.tol = "VScaleC64", true, 1e-6
		q.call = bind(in, []complex64(nil), none, 1, 1, complex64(7.5), complex64(7.5), func(i, o []complex64, _ []byte) { dsp.VScaleC64(i, o, scale) })
		q.ref = func(i int) []float64 {
			return []float64{float64(real(in[i])) * float64(scale), float64(imag(in[i])) * float64(scale)}
		}
	case 19:
		in := items(W, n, real32)
		f := either(w, W, q, "VScaleF32", dsp.VScaleF32, "vscaleF32")
		q.inplace, q.tol = true, 1e-6
		q.call = bind(in, []float32(nil), none, 1, 1, float32(7.5), float32(7.5), func(i, o []float32, _ []byte) { f(i, o, scale) })
		q.ref = func(i int) []float64 { return []float64{float64(in[i]) * float64(scale)} }
	case 20:
		in := items(W, n, cplx)
		f := either(w, W, q, "VAbsC64", dsp.VAbsC64, "vAbsC64")
		q.tol = 1e-5
		q.call = bind(in, []float32(nil), none, 1, 1, complex64(7.5), float32(7.5), func(i []complex64, o []float32, _ []byte) { f(i, o) })
		q.ref = func(i int) []float64 { return []float64{math.Hypot(float64(real(in[i])), float64(imag(in[i])))} }
	case 23:
		in := items(W, 4*n, cplx)
		q.pin, q.pout = 4, 4
		fi := new(dsp.Rotate90Filter)
		f := fi.Filter
		q.name = "Rotate90Filter"
		if g, ok := dsp.SimUnexported()["rotate90FilterAsm"].(func(*dsp.Rotate90Filter, []complex64) []complex64); ok && W.N(3) > 0 {
			g = either(w, W, q, "rotate90FilterAsm", g, "rotate90Filter")
			f = func(x []complex64) []complex64 { return g(fi, x) }
		}
		q.call = rotator(in, 4, complex64(7.5), f)
		q.ref = func(i int) (r []float64) {
			for k, x := range in[4*i : 4*i+4] {
				v := complex128(x) * [4]complex128{1, 1i, -1, -1i}[k]
				r = append(r, real(v), imag(v))
			}
			return r
		}
	case 24:
		in := items(W, 8*n, func(l *lcg) int32 { return int32(uint32(l.next())<<1^uint32(l.next())) >> (l.next() % 32) })
		q.name, q.pin, q.pout = "I32Rotate90Filter", 8, 8
		fi := new(dsp.I32Rotate90Filter)
		f := fi.Filter
		if g, ok := dsp.SimUnexported()["i32Rotate90FilterAsm"].(func(*dsp.I32Rotate90Filter, []int32) []int32); ok && W.N(3) > 0 {
			g = either(w, W, q, "i32Rotate90FilterAsm", g, "i32Rotate90Filter")
			f = func(x []int32) []int32 { return g(fi, x) }
		}
		q.call = rotator(in, 8, int32(0x12345678), f)
		q.ref = func(i int) (r []float64) {
			for k := 0; k < 4; k++ {
				a, b := in[8*i+2*k], in[8*i+2*k+1]
				switch k {
				case 1:
					a, b = -b, a
				case 2:
					a, b = -a, -b
				case 3:
					a, b = b, -a
				}
				r = append(r, float64(a), float64(b))
			}
			return r
		}
	case 25, 26:
		w := windows[W.N(len(windows))]
		q.name, q.fill, q.tol = w.name, w.ref, 1e-9
		q.call = filler(7.5, w.f)
		if k == 26 {
			q.name, q.tol = w.name+"F32", 1e-6
			q.call = filler(float32(7.5), w.f32)
		}
	default:
		in := items(W, n, real32)
		off := float32(pickf(W, 0, 5e6, -5e6)) // all positive, all negative
		for i := range in {
			in[i] += off
		}
		var f func([]float32) float32
		if q.reduce = 1; k == 21 {
			f = either(w, W, q, "VMaxF32", dsp.VMaxF32, "vMaxF32")
		} else {
			q.reduce = 2
			f = either(w, W, q, "VMinF32", dsp.VMinF32, "vMinF32")
		}
		q.call = func(e *env, lo, nin, nout, nmul int, inplace bool) []float64 {
			nin = min(nin, n-lo)
			can := float32(math.Inf(1)) // would win if looked at
			if q.reduce == 2 {
				can = float32(math.Inf(-1))
			}
			g := guarded(nin, e.off(), can)
			copy(g.body(), in[lo:])
			return []float64{float64(f(g.body()))}
		}
		q.ref = func(i int) []float64 { return []float64{float64(in[i])} }
	}
	q.per = q.pout
	if n > 0 && q.fill == nil {
		q.per = len(q.ref(0))
	}
	return q
}

const nKern = 27

// kuser runs a kernel over a stream.
type kuser struct {
	e    *env
	k    *kern
	cuts []int
	ex   []int // surplus items of input, output and multiplier, and in-place calls
	out  []float64
	done bool
}

func (w *world) kernel(W *simrt.Stream, id int) *kuser {
	n := pick(W, 40, 1, 33, 64, 100, 300, 0) + W.N(40)
	if W.Chance(1, 12) {
		n = 0
	}
	if w.prop != "D02" && W.Chance(1, 400) {
		n = long(W, n)
		w.s.Probe("long streams")
	}
	kn := W.N(nKern)
	if w.prop == "D10" { // those with assembler
		kn = pick(W, 0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 14, 19, 20, 21, 22, 23, 24)
	}
	u := &kuser{k: w.newKern(W, kn, n)}
	u.e = &env{s: w.s, prop: w.prop, who: fmt.Sprintf("%s %d", u.k.name, id)}
	for k := 1 + W.N(5); k > 0; k-- {
		u.e.offs = append(u.e.offs, W.N(64))
	}
	u.cuts = cuts(w.s, W, n)
	for k := 1 + W.N(4); k > 0; k-- {
		u.ex = append(u.ex, W.N(5)*W.N(2), W.N(5)*W.N(2), W.N(5)*W.N(2), W.N(2), W.N(6))
	}
	return u
}

func (w *world) runKernel(u *kuser) {
	k := u.k
	pos := 0
	for i, n := range u.cuts {
		x := u.ex[i%(len(u.ex)/5)*5:]
		nin, nout, nmul := n*k.pin, n*k.pout, n
		// at most one of them is the limit, the others may be longer
		switch x[4] % 3 {
		case 0:
			nin += x[0]
			if x[4] == 3 { // whole elements
				nin += x[0] * k.pin
			}
			if nin >= (n+1)*k.pin {
				nout += x[1] % k.pout
			} else {
				nout += x[1]
			}
			nmul += x[2]
		case 1:
			nout += x[1]
			if k.mul {
				nin += x[2] * k.pin
			} else {
				nin += x[2] % k.pin
			}
		default:
			nin += x[2] % k.pin
			nmul += x[1]
		}
		inplace := k.inplace && x[3] == 1
		if inplace { // the block is both: only the multiplier can be shorter
			nmul = n
			if !k.mul {
				nin = n * k.pin
			}
		}
		if k.fill != nil { // a window of at least two points
			nout = n
			if n == 1 {
				nout = 0
			}
			r := k.call(u.e, 0, 0, nout, 0, false)
			for i, v := range r {
				if want := k.fill(i, nout); !(math.Abs(v-want) <= k.tol) {
					u.e.fail("value", "element %d of a window of %d is %v, expected %v", i, nout, v, want)
					break
				}
			}
			w.s.Event("window", k.name, n)
			w.s.State(99, uint64(len(k.name)), uint64(min(n, 70)), uint64(u.e.k%16))
			continue
		}
		r := k.call(u.e, pos, nin, nout, nmul, inplace)
		u.out = append(u.out, r...)
		if m := len(r) / k.per; k.reduce == 0 && m != n {
			panic(fmt.Sprintf("%s: harness: block of %d gave %d", k.name, n, m))
		}
		pos += n
		w.s.Event("kernel", k.name, n, len(r))
		w.s.State(uint64(100+k.pin*8+k.pout), uint64(len(k.name)), uint64(min(n, 70)), uint64(x[0]), uint64(x[1]), uint64(u.e.k%16))
		if i%5 == 4 {
			simrt.Sleep(int64(1+i) * 1000)
		}
	}
	u.done = true
}

func (w *world) judgeKernel(u *kuser) {
	if !u.done {
		return
	}
	k := u.k
	if k.fill != nil {
		w.s.Probe("kernel: " + k.name)
		return
	}
	e := &env{s: w.s, prop: w.prop, who: u.e.who + " (one piece)", solo: true}
	one := k.call(e, 0, k.n*k.pin, k.n*k.pout, k.n, false)
	if k.reduce > 0 {
		w.s.Probe("kernel: " + k.name)
		best := math.Inf(-1)
		if k.reduce == 2 {
			best = math.Inf(1)
		}
		all := best
		f := math.Max
		if k.reduce == 2 {
			f = math.Min
		}
		for _, v := range u.out {
			best = f(best, v)
		}
		for i := 0; i < k.n; i++ {
			all = f(all, k.ref(i)[0])
		}
		if !eq(best, all) || !eq(one[0], all) {
			w.s.Violate(w.prop, "value", "%s over %d values: %v in one piece, %v from %d blocks, expected %v", u.e.who, k.n, one[0], best, len(u.cuts), all)
		}
		return
	}
	if p := differ(u.out, one); p >= 0 {
		w.s.Violate(w.prop, "cut", "%s: in blocks of %v item %d of the output is %v, in one piece it is %v", u.e.who, u.cuts[:min(len(u.cuts), 12)], p, at(u.out, p), at(one, p))
		return
	}
	for i := 0; i < k.n; i++ {
		r := k.ref(i)
		scale := 0.0
		for _, v := range r {
			scale = math.Max(scale, math.Abs(v))
		}
		for j, v := range r {
			tol := k.tol * scale
			switch k.name { // cancellation
			case "VAddF32", "VAddC64":
				tol += 1e-6 * k.amp
			case "VMulC64":
				tol += 1e-6 * k.amp * k.amp
			}
			if x := one[i*k.per+j]; !(math.Abs(x-v) <= tol) {
				w.s.Violate(w.prop, "value", "%s: element %d of %d is %v, expected %v", u.e.who, i, k.n, one[i*k.per:(i+1)*k.per], r)
				return
			}
		}
	}
	w.s.Probe("kernel: " + k.name)
	if k.n > 1 && len(u.cuts) > 1 && (w.prop == "D04" || w.prop == "D10" && k.base != "" && k.name != k.base) {
		w.s.Probe("nontrivial")
	}
}

func (w *world) kernels(W *simrt.Stream) {
	s := w.s
	var us []*kuser
	for k := 1 + W.N(3); k > 0; k-- {
		us = append(us, w.kernel(W, len(us)))
	}
	left := len(us)
	var q simrt.WaitQ
	for _, u := range us {
		u := u
		s.Spawn(w.app, u.e.who, func() {
			defer func() { left--; q.WakeAll() }()
			w.runKernel(u)
			s.Quiet(func() { w.judgeKernel(u) })
		})
	}
	for left > 0 && !w.app.Dead {
		if !q.Wait("kernels", 3600e9) {
			s.Violate(w.prop, "hang", "processing does not come to an end")
			return
		}
	}
}
