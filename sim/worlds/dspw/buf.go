// Package dspw simulates users of the dsp package: streams that arrive in blocks of any size, late,
// short or not at all, processed by instances in preemptible tasks.
package dspw

import (
	"math"
	"unsafe"

	"verif/sim/simrt"
)

func pick(W *simrt.Stream, v ...int) int { return v[W.N(len(v))] }

func pickf(W *simrt.Stream, v ...float64) float64 { return v[W.N(len(v))] }

// env is where an instance runs: violations, buffer offsets.
type env struct {
	s    *simrt.Sim
	prop string
	who  string
	offs []int // buffer offsets, used in turn
	k    int
	solo bool
}

func (e *env) off() int {
	if e.solo || len(e.offs) == 0 {
		return 0
	}
	e.k++
	return e.offs[e.k%len(e.offs)]
}

func (e *env) fail(class, f string, a ...any) {
	e.s.Violate(e.prop, class, e.who+": "+f, a...)
}

const guardN = 80

// gbuf is a block inside a larger, watched array.
type gbuf[T comparable] struct {
	all    []T
	lo, n  int
	canary T
}

// guarded makes a block of n elements whose address is off elements past a 64-byte boundary.
func guarded[T comparable](n, off int, canary T) *gbuf[T] {
	sz := int(unsafe.Sizeof(canary))
	per := 64 / sz
	all := make([]T, n+2*guardN+2*per)
	for i := range all {
		all[i] = canary
	}
	base := int(uintptr(unsafe.Pointer(&all[0])) % 64)
	first := guardN
	// position p is aligned if (base + p*sz) % 64 == 0
	for (base+first*sz)%64 != 0 && first < guardN+per {
		first++
	}
	return &gbuf[T]{all: all, lo: first + off%per, n: n, canary: canary}
}

func (g *gbuf[T]) body() []T { return g.all[g.lo : g.lo+g.n] }

// intact says whether everything outside the block is as it was.
func (g *gbuf[T]) intact() (int, bool) {
	for i, v := range g.all {
		if (i < g.lo || i >= g.lo+g.n) && v != g.canary {
			return i - g.lo, false
		}
	}
	return 0, true
}

// num turns a sample into numbers.
func num[T any](out []float64, v T) []float64 {
	switch x := any(v).(type) {
	case float64:
		return append(out, x)
	case float32:
		return append(out, float64(x))
	case complex128:
		return append(out, real(x), imag(x))
	case complex64:
		return append(out, float64(real(x)), float64(imag(x)))
	case byte:
		return append(out, float64(x))
	case int8:
		return append(out, float64(x))
	case int16:
		return append(out, float64(x))
	case int32:
		return append(out, float64(x))
	}
	panic("num")
}

func nums[T any](v []T) []float64 {
	var out []float64
	for _, x := range v {
		out = num(out, x)
	}
	return out
}

func eq(a, b float64) bool { return a == b || a != a && b != b }

// differ returns the first position at which the two differ, or -1.
func differ(a, b []float64) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if !eq(a[i], b[i]) {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}

func at(v []float64, i int) any {
	if i < len(v) {
		return v[i]
	}
	return "nothing"
}

// near is like differ within tol times the scale of the reference.
func near(a, ref []float64, tol, scale float64) (int, float64) {
	for _, v := range ref {
		if x := math.Abs(v); x > scale {
			scale = x
		}
	}
	if scale == 0 {
		scale = 1e-30
	}
	worst := 0.0
	for i := 0; i < len(a) && i < len(ref); i++ {
		d := math.Abs(a[i]-ref[i]) / scale
		if !(d <= tol) {
			return i, d
		}
		worst = max(worst, d)
	}
	if len(a) != len(ref) {
		return min(len(a), len(ref)), 0
	}
	return -1, worst
}

type lcg uint64

func (l *lcg) next() uint64 {
	*l = *l*6364136223846793005 + 1442695040888963407
	return uint64(*l >> 33)
}
func (l *lcg) unit() float64 { return float64(l.next())/float64(1<<30) - 1 } // [-1, 1)

// signal makes n samples (float32 values).
func signal(W *simrt.Stream, n int) []float64 {
	style := W.N(9)
	l := lcg(W.N(1<<30))*2654435761 + 12345
	amp := pickf(W, 1, 1, 100, 1e-3, 32767)
	x := make([]float64, n)
	p := 0.0
	for i := range x {
		v := 0.0
		switch style {
		case 0, 1:
			v = l.unit()
		case 2: // impulse
			if i == 0 {
				v = 1
			}
		case 3:
			v = 1
		case 4: // ramp
			v = float64(i%50)/25 - 1
		case 5: // sparse
			if l.next()%7 == 0 {
				v = l.unit()
			}
		case 6: // tone
			v = math.Sin(0.37 * float64(i))
		case 7: // bursts and silence
			if i/20%2 == 0 {
				v = l.unit()
			}
		default: // random walk
			p = 0.95*p + 0.3*l.unit()
			v = p
		}
		x[i] = float64(float32(v * amp))
	}
	return x
}

// longStream is the length above which a stream is a long one.
const longStream = 5000

// long is a length beyond what counters of 16 bits hold, now and then.
func long(W *simrt.Stream, n int) int {
	return pick(W, 1<<16, 1<<16, 1<<15, 1<<14, 10000, 1<<17) + n>>pick(W, 0, 0, 3, 5)
}

// cuts is a way of cutting a stream of n samples into blocks.
func cuts(s *simrt.Sim, W *simrt.Stream, n int) []int {
	var c []int
	style := W.N(6)
	pos := 0
	empty, short := 0, 0
	for i := 0; pos < n || i == 0; i++ {
		b := 0
		k := style
		if n > longStream { // blocks of a radio
			k += 10
		}
		switch k {
		case 0, 10:
			b = n - pos
		case 11:
			b = 1000
		case 12:
			b = pick(W, 4096, 8192, 2048, 16384)
		case 14:
			b = pick(W, 16384, 512, 32768, 65536, 65535, 7777, 32769, 10000) + pick(W, 0, 0, 1, 3, 7)
		case 15:
			b = pick(W, 0, 1, 5000, 20000, 48, 3)
		case 1:
			b = 1
		case 2:
			b = pick(W, 1, 2, 3, 4, 7, 8)
		case 3, 13:
			b = W.N(n - pos + 1)
		case 4:
			b = pick(W, 16, 32, 33, 5, 64, 31, 1, 100)
		default:
			b = pick(W, 0, 1, 17, 48, 3, 200)
		}
		if b > 1 && style > 1 && W.Chance(1, 5) { // the source returns less than asked for
			b = W.N(b)
			short++
		}
		b = min(b, n-pos)
		if b == 0 {
			empty++
			if len(c) > 4*n+20 {
				b = n - pos
			}
		}
		c = append(c, b)
		pos += b
	}
	if W.Chance(1, 3) {
		c = append(c, 0)
		empty++
	}
	s.Faults["empty block"] += int64(empty)
	s.Faults["short transfer"] += int64(short)
	return c
}
