package isa

import (
	"fmt"
	"math"
	"math/bits"
)

// arm is an ARMv7 processor as far as the repository's assembler needs it: integer instructions, VFP with
// short vectors, and some of NEON (without its flushing of denormal numbers).
type arm struct {
	m          *mem
	r          [16]uint32
	v          [64]uint32 // s0..s31, and the upper d registers
	n, z, c, o bool
	fpscr      uint32
	pc         uint32 // of the instruction that runs
	jump       bool
}

func (a *arm) unknown(op uint32) { panic(&Unknown{"arm", uint64(a.pc), op}) }

func (a *arm) reg(i uint32) uint32 {
	if i == 15 {
		return a.pc + 8
	}
	return a.r[i]
}

func (a *arm) set(i, v uint32) {
	a.r[i] = v
	if i == 15 {
		a.jump = true
	}
}

func (a *arm) cond(c uint32) bool {
	var t bool
	switch c >> 1 {
	case 0:
		t = a.z
	case 1:
		t = a.c
	case 2:
		t = a.n
	case 3:
		t = a.o
	case 4:
		t = a.c && !a.z
	case 5:
		t = a.n == a.o
	case 6:
		t = !a.z && a.n == a.o
	default:
		return true
	}
	return t != (c&1 == 1)
}

func (a *arm) load32(at uint32) uint32     { return uint32(a.m.read(uint64(at), 4)) }
func (a *arm) store32(at uint32, v uint32) { a.m.write(uint64(at), 4, uint64(v)) }

func (a *arm) aligned(at uint32, what string) {
	if at&3 != 0 {
		panic(&Fault{"align", fmt.Sprintf("%s at an address that is not a multiple of 4", what)})
	}
}

// shift is the value of a shifted register operand and the carry out of the shifter.
func (a *arm) shift(op uint32) (uint32, bool) {
	x := a.reg(op & 15)
	n := op >> 7 & 31
	reg := op>>4&1 == 1
	if reg {
		n = a.reg(op>>8&15) & 255
		if n == 0 {
			return x, a.c
		}
	}
	switch op >> 5 & 3 {
	case 0:
		if n == 0 {
			return x, a.c
		}
		if n > 32 {
			return 0, false
		}
		return uint32(uint64(x) << n), x>>(32-n)&1 == 1
	case 1:
		if n == 0 && !reg {
			n = 32
		}
		if n > 32 {
			return 0, false
		}
		return uint32(uint64(x) >> n), x>>(n-1)&1 == 1
	case 2:
		if n == 0 && !reg {
			n = 32
		}
		n = min(n, 32)
		return uint32(int64(int32(x)) >> n), int64(int32(x))>>(n-1)&1 == 1
	}
	if n == 0 && !reg { // rrx
		v := x >> 1
		if a.c {
			v |= 1 << 31
		}
		return v, x&1 == 1
	}
	v := bits.RotateLeft32(x, -int(n&31))
	return v, v>>31 == 1
}

func (a *arm) addc(x, y uint32, c bool, s bool) uint32 {
	var ci uint32
	if c {
		ci = 1
	}
	v, co := bits.Add32(x, y, ci)
	if s {
		a.n, a.z, a.c = v>>31 == 1, v == 0, co == 1
		a.o = (x^v)&(y^v)>>31 == 1
	}
	return v
}

func (a *arm) step() {
	op := a.load32(a.pc)
	a.jump = false
	if op>>28 == 15 {
		a.uncond(op)
	} else if a.cond(op >> 28) {
		a.exec(op)
	}
	if a.jump {
		a.pc = a.r[15] &^ 1
	} else {
		a.pc += 4
	}
}

func (a *arm) exec(op uint32) {
	rn, rd, rm := op>>16&15, op>>12&15, op&15
	switch {
	case op&0x0ffffff0 == 0x012fff10: // bx
		a.set(15, a.reg(rm))
	case op&0x0ffffff0 == 0x012fff30: // blx
		t := a.reg(rm)
		a.r[14] = a.pc + 4
		a.set(15, t)
	case op&0x0ff000f0 == 0x01600010: // clz
		a.set(rd, uint32(bits.LeadingZeros32(a.reg(rm))))
	case op&0x0ff00000 == 0x03000000: // movw
		a.set(rd, rn<<12|op&0xfff)
	case op&0x0ff00000 == 0x03400000: // movt
		a.set(rd, a.reg(rd)&0xffff|(rn<<12|op&0xfff)<<16)
	case op&0x0fffff00 == 0x0320f000: // nop and hints
	case op&0x0e000090 == 0x00000090:
		a.extra(op)
	case op&0x0c000000 == 0:
		a.data(op)
	case op&0x0e000010 == 0x06000010:
		a.media(op)
	case op&0x0c000000 == 0x04000000:
		off := op & 0xfff
		if op>>25&1 == 1 {
			off, _ = a.shift(op)
		}
		at := a.index(op, off)
		byteSized := op>>22&1 == 1
		switch load := op>>20&1 == 1; {
		case load && byteSized:
			a.set(rd, uint32(a.m.read(uint64(at), 1)))
		case load:
			a.set(rd, a.load32(at))
		case byteSized:
			a.m.write(uint64(at), 1, uint64(a.reg(rd)&255))
		default:
			a.store32(at, a.reg(rd))
		}
	case op&0x0e000000 == 0x08000000: // ldm, stm
		a.block(op)
	case op&0x0e000000 == 0x0a000000:
		if op>>24&1 == 1 {
			a.r[14] = a.pc + 4
		}
		a.set(15, uint32(int32(a.pc+8)+int32(op<<8)>>6))
	case op&0x0e000000 == 0x0c000000 && op>>9&7 == 5:
		a.vmem(op)
	case op&0x0f000010 == 0x0e000000 && op>>9&7 == 5:
		a.vdata(op)
	case op&0x0f000010 == 0x0e000010 && op>>9&7 == 5:
		a.vmove(op)
	default:
		a.unknown(op)
	}
}

// index computes an address and writes the base back.
func (a *arm) index(op, off uint32) uint32 {
	rn := op >> 16 & 15
	b := a.reg(rn)
	to := b + off
	if op>>23&1 == 0 {
		to = b - off
	}
	at := to
	if op>>24&1 == 0 {
		at = b
	}
	if op>>24&1 == 0 || op>>21&1 == 1 {
		a.set(rn, to)
	}
	return at
}

func (a *arm) extra(op uint32) {
	rd, rm := op>>12&15, op&15
	if op>>5&3 == 0 { // multiplication
		x, y := a.reg(rm), a.reg(op>>8&15)
		switch op >> 20 & 0xff {
		case 0:
			a.set(op>>16&15, x*y)
		case 2:
			a.set(op>>16&15, x*y+a.reg(rd))
		case 8:
			v := uint64(x) * uint64(y)
			a.set(rd, uint32(v))
			a.set(op>>16&15, uint32(v>>32))
		case 12:
			v := uint64(int64(int32(x)) * int64(int32(y)))
			a.set(rd, uint32(v))
			a.set(op>>16&15, uint32(v>>32))
		default:
			a.unknown(op)
		}
		return
	}
	off := op>>8&15<<4 | op&15
	if op>>22&1 == 0 {
		off = a.reg(rm)
	}
	load := op>>20&1 == 1
	if !load && op>>5&3 != 1 {
		a.unknown(op)
	}
	v := a.reg(rd)
	at := a.index(op, off)
	switch {
	case !load:
		a.m.write(uint64(at), 2, uint64(v&0xffff))
	case op>>5&3 == 1:
		a.set(rd, uint32(a.m.read(uint64(at), 2)))
	case op>>5&3 == 2:
		a.set(rd, uint32(int32(int8(a.m.read(uint64(at), 1)))))
	default:
		a.set(rd, uint32(int32(int16(a.m.read(uint64(at), 2)))))
	}
}

func (a *arm) data(op uint32) {
	rn, rd := op>>16&15, op>>12&15
	s := op>>20&1 == 1
	var y uint32
	c := a.c
	if op>>25&1 == 1 {
		n := op >> 8 & 15 * 2
		y = bits.RotateLeft32(op&255, -int(n))
		if n != 0 {
			c = y>>31 == 1
		}
	} else {
		y, c = a.shift(op)
	}
	x := a.reg(rn)
	logic := func(v uint32) uint32 {
		if s {
			a.n, a.z, a.c = v>>31 == 1, v == 0, c
		}
		return v
	}
	k := op >> 21 & 15
	if k >= 8 && k < 12 && !s {
		a.unknown(op)
	}
	switch k {
	case 0:
		a.set(rd, logic(x&y))
	case 1:
		a.set(rd, logic(x^y))
	case 2:
		a.set(rd, a.addc(x, ^y, true, s))
	case 3:
		a.set(rd, a.addc(y, ^x, true, s))
	case 4:
		a.set(rd, a.addc(x, y, false, s))
	case 5:
		a.set(rd, a.addc(x, y, a.c, s))
	case 6:
		a.set(rd, a.addc(x, ^y, a.c, s))
	case 7:
		a.set(rd, a.addc(y, ^x, a.c, s))
	case 8:
		logic(x & y)
	case 9:
		logic(x ^ y)
	case 10:
		a.addc(x, ^y, true, true)
	case 11:
		a.addc(x, y, false, true)
	case 12:
		a.set(rd, logic(x|y))
	case 13:
		a.set(rd, logic(y))
	case 14:
		a.set(rd, logic(x&^y))
	default:
		a.set(rd, logic(^y))
	}
}

func (a *arm) media(op uint32) {
	rn, rd, rm := op>>16&15, op>>12&15, op&15
	rot := func() uint32 { return bits.RotateLeft32(a.reg(rm), -int(op>>10&3*8)) }
	ext := func(v uint32) {
		if rn != 15 {
			v += a.reg(rn)
		}
		a.set(rd, v)
	}
	switch {
	case op&0x0ff00ff0 == 0x06500ff0: // usub8
		x, y, v := a.reg(rn), a.reg(rm), uint32(0)
		for i := 0; i < 32; i += 8 {
			v |= (x>>i - y>>i) & 255 << i
		}
		a.set(rd, v)
	case op&0x0ff003f0 == 0x06a00070: // sxtb
		ext(uint32(int32(int8(rot()))))
	case op&0x0ff003f0 == 0x06b00070: // sxth
		ext(uint32(int32(int16(rot()))))
	case op&0x0ff003f0 == 0x06e00070: // uxtb
		ext(rot() & 255)
	case op&0x0ff003f0 == 0x06f00070: // uxth
		ext(rot() & 0xffff)
	case op&0x0fe00030 == 0x06a00010: // ssat
		x := int64(int32(a.reg(rm)))
		n := op >> 7 & 31
		if op>>6&1 == 0 {
			x = int64(int32(a.reg(rm) << n))
		} else {
			if n == 0 {
				n = 32
			}
			x >>= n
		}
		top := int64(1) << (op >> 16 & 31)
		a.set(rd, uint32(int32(max(-top, min(top-1, x)))))
	case op&0x0fe00030 == 0x06e00010: // usat
		x := int64(int32(a.reg(rm)))
		n := op >> 7 & 31
		if op>>6&1 == 0 {
			x = int64(int32(a.reg(rm) << n))
		} else {
			if n == 0 {
				n = 32
			}
			x >>= n
		}
		top := int64(1) << (op >> 16 & 31)
		a.set(rd, uint32(int32(max(0, min(top-1, x)))))
	default:
		a.unknown(op)
	}
}

func (a *arm) block(op uint32) {
	rn, list := op>>16&15, op&0xffff
	n := uint32(bits.OnesCount32(list)) * 4
	b := a.reg(rn)
	a.aligned(b, "ldm/stm")
	if op>>22&1 == 1 {
		a.unknown(op)
	}
	at, to := b, b+n
	if op>>23&1 == 0 {
		at, to = b-n, b-n
	}
	if op>>24&1 == op>>23&1 {
		at += 4 // increment before, decrement after
	}
	load := op>>20&1 == 1
	if op>>21&1 == 1 && !(load && list>>rn&1 == 1) {
		defer a.set(rn, to)
	}
	for i := uint32(0); i < 16; i++ {
		if list>>i&1 == 0 {
			continue
		}
		if load {
			a.set(i, a.load32(at))
		} else {
			a.store32(at, a.reg(i))
		}
		at += 4
	}
}

// vmem is the part of the VFP that moves data from and to memory.
func (a *arm) vmem(op uint32) {
	dbl := op>>8&1 == 1
	d := op>>12&15<<1 | op>>22&1
	if dbl {
		d = (op>>22&1<<4 | op>>12&15) * 2
	}
	if op&0x0fe000d0 == 0x0c400010 { // two registers
		rt, rt2 := op>>12&15, op>>16&15
		s := op&15<<1 | op>>5&1
		if dbl {
			s = (op>>5&1<<4 | op&15) * 2
		}
		if op>>20&1 == 1 {
			a.set(rt, a.v[s])
			a.set(rt2, a.v[s+1])
		} else {
			a.v[s], a.v[s+1] = a.reg(rt), a.reg(rt2)
		}
		return
	}
	rn, off := op>>16&15, op&255*4
	load := op>>20&1 == 1
	n := op & 255
	b := a.reg(rn)
	if rn == 15 {
		b &^= 3
	}
	at := b
	switch {
	case op>>24&1 == 1 && op>>21&1 == 0: // one
		n = 1
		if dbl {
			n = 2
		}
		at = b + off
		if op>>23&1 == 0 {
			at = b - off
		}
	case op>>24&1 == 0 && op>>23&1 == 1: // increment after
		if op>>21&1 == 1 {
			a.set(rn, b+off)
		}
	case op>>24&1 == 1 && op>>23&1 == 0: // decrement before
		at = b - off
		a.set(rn, at)
	default:
		a.unknown(op)
	}
	a.aligned(at, "vldm/vstm/vldr/vstr")
	if d+n > 64 || n == 0 {
		a.unknown(op)
	}
	for i := uint32(0); i < n; i++ {
		if load {
			a.v[d+i] = a.load32(at + 4*i)
		} else {
			a.store32(at+4*i, a.v[d+i])
		}
	}
}

func (a *arm) f(i uint32) float32       { return math.Float32frombits(a.v[i]) }
func (a *arm) setf(i uint32, x float32) { a.v[i] = math.Float32bits(x) }

// vdata is VFP arithmetic, on short vectors if the fpscr says so.
func (a *arm) vdata(op uint32) {
	d, n, m := op>>12&15<<1|op>>22&1, op>>16&15<<1|op>>7&1, op&15<<1|op>>5&1
	if op>>8&1 == 1 {
		a.vdouble(op)
		return
	}
	b6 := op>>6&1 == 1
	// operations on scalars only
	if op>>20&0xb == 0xb && b6 {
		x := a.f(m)
		switch op2, b7 := op>>16&15, op>>7&1 == 1; {
		case op2 == 4 || op2 == 5:
			y := x
			x = a.f(d)
			if op2 == 5 {
				y = 0
			}
			f := uint32(3) // unordered
			switch {
			case x == y:
				f = 6
			case x < y:
				f = 8
			case x > y:
				f = 2
			}
			a.fpscr = a.fpscr&^(15<<28) | f<<28
			return
		case op2 == 8:
			if b7 {
				a.setf(d, float32(int32(a.v[m])))
			} else {
				a.setf(d, float32(a.v[m]))
			}
			return
		case op2 == 12 || op2 == 13:
			v := math.RoundToEven(float64(x))
			if b7 {
				v = math.Trunc(float64(x))
			}
			if op2 == 13 {
				a.v[d] = uint32(toint(v))
			} else if v != v || v < 0 {
				a.v[d] = 0
			} else {
				a.v[d] = uint32(min(v, math.MaxUint32))
			}
			return
		case op2 == 7 && b7: // single to double
			a.setd(op>>22&1<<4|op>>12&15, float64(x))
			return
		case op2 > 1:
			a.unknown(op)
		}
	}
	count, stride := a.fpscr>>16&7+1, uint32(1)
	if a.fpscr>>20&3 != 0 { // 1 is reserved, 3 means 2
		stride = 2
	}
	if d < 8 {
		count = 1
	}
	mstep := stride
	if m < 8 {
		mstep = 0
	}
	next := func(r, s uint32) uint32 { return r&^7 | (r+s)&7 }
	for ; count > 0; count-- {
		x, y := a.f(n), a.f(m)
		var v float32
		switch k := op >> 20 & 0xb; {
		case k == 0 && !b6:
			v = float32(a.f(d) + float32(x*y))
		case k == 0:
			v = float32(a.f(d) - float32(x*y))
		case k == 1 && b6:
			v = float32(-a.f(d) - float32(x*y))
		case k == 1:
			v = float32(-a.f(d) + float32(x*y))
		case k == 2 && !b6:
			v = x * y
		case k == 2:
			v = -(x * y)
		case k == 3 && !b6:
			v = x + y
		case k == 3:
			v = x - y
		case k == 8 && !b6:
			v = x / y
		case k == 0xb && !b6: // immediate
			i := op>>16&15<<4 | op&15
			w := i >> 7 << 31
			if i>>6&1 == 1 {
				w |= 0x1f << 25
			} else {
				w |= 1 << 30
			}
			v = math.Float32frombits(w | i&0x3f<<19)
		case k == 0xb && op>>16&15 == 0 && op>>7&1 == 0:
			v = y
		case k == 0xb && op>>16&15 == 0:
			v = math.Float32frombits(a.v[m] &^ (1 << 31))
		case k == 0xb && op>>16&15 == 1 && op>>7&1 == 0:
			v = math.Float32frombits(a.v[m] ^ 1<<31)
		case k == 0xb && op>>16&15 == 1:
			v = float32(math.Sqrt(float64(y)))
		default:
			a.unknown(op)
		}
		a.setf(d, v)
		d, n, m = next(d, stride), next(n, stride), next(m, mstep)
	}
}

func toint(v float64) int32 {
	if v != v {
		return 0
	}
	return int32(max(math.MinInt32, min(math.MaxInt32, v)))
}

func (a *arm) d(i uint32) float64 {
	return math.Float64frombits(uint64(a.v[2*i+1])<<32 | uint64(a.v[2*i]))
}

func (a *arm) setd(i uint32, x float64) {
	b := math.Float64bits(x)
	a.v[2*i], a.v[2*i+1] = uint32(b), uint32(b>>32)
}

func (a *arm) vdouble(op uint32) {
	d, n, m := op>>22&1<<4|op>>12&15, op>>7&1<<4|op>>16&15, op>>5&1<<4|op&15
	b6 := op>>6&1 == 1
	x, y := a.d(n), a.d(m)
	switch k := op >> 20 & 0xb; {
	case a.fpscr>>16&7 != 0:
		a.unknown(op)
	case k == 0 && !b6:
		a.setd(d, float64(a.d(d)+float64(x*y)))
	case k == 2 && !b6:
		a.setd(d, x*y)
	case k == 3 && !b6:
		a.setd(d, x+y)
	case k == 3:
		a.setd(d, x-y)
	case k == 8 && !b6:
		a.setd(d, x/y)
	case k == 0xb && b6 && op>>16&15 == 7 && op>>7&1 == 1: // double to single
		a.setf(op>>12&15<<1|op>>22&1, float32(y))
	case k == 0xb && b6 && op>>16&15 == 1 && op>>7&1 == 1:
		a.setd(d, math.Sqrt(y))
	default:
		a.unknown(op)
	}
}

// vmove moves single values between core and floating point registers.
func (a *arm) vmove(op uint32) {
	rt := op >> 12 & 15
	switch {
	case op&0x0fe00f7f == 0x0e000a10: // vmov sn, rt
		n := op>>16&15<<1 | op>>7&1
		if op>>20&1 == 1 {
			a.set(rt, a.v[n])
		} else {
			a.v[n] = a.reg(rt)
		}
	case op&0x0fc00f7f == 0x0e000b10: // vmov dn[x], rt
		n := (op>>7&1<<4|op>>16&15)*2 | op>>21&1
		if op>>20&1 == 1 {
			a.set(rt, a.v[n])
		} else {
			a.v[n] = a.reg(rt)
		}
	case op&0x0fff0fff == 0x0ef10a10: // vmrs
		if rt == 15 {
			f := a.fpscr >> 28
			a.n, a.z, a.c, a.o = f>>3&1 == 1, f>>2&1 == 1, f>>1&1 == 1, f&1 == 1
		} else {
			a.set(rt, a.fpscr)
		}
	case op&0x0fff0fff == 0x0ee10a10: // vmsr
		a.fpscr = a.reg(rt)
	case op&0x0f900f5f == 0x0e800b10: // vdup
		v := a.reg(rt)
		switch op>>22&1<<1 | op>>5&1 {
		case 2:
			v = v & 255 * 0x01010101
		case 1:
			v = v & 0xffff * 0x00010001
		case 3:
			a.unknown(op)
		}
		d, n := (op>>7&1<<4|op>>16&15)*2, uint32(2)
		if op>>21&1 == 1 {
			n = 4
		}
		for i := uint32(0); i < n; i++ {
			a.v[d+i] = v
		}
	default:
		a.unknown(op)
	}
}

// uncond are the instructions that have no condition: NEON and prefetching.
func (a *arm) uncond(op uint32) {
	d, n, m := (op>>22&1<<4|op>>12&15)*2, (op>>7&1<<4|op>>16&15)*2, (op>>5&1<<4|op&15)*2
	q := uint32(2)
	if op>>6&1 == 1 {
		q = 4
	}
	each := func(f func(x, y float32) float32) {
		var v [4]float32
		for i := uint32(0); i < q; i++ {
			v[i] = f(a.f(n+i), a.f(m+i))
		}
		for i := uint32(0); i < q; i++ {
			a.setf(d+i, v[i])
		}
	}
	pairs := func(f func(x, y float32) float32) {
		x, y := f(a.f(n), a.f(n+1)), f(a.f(m), a.f(m+1))
		a.setf(d, x)
		a.setf(d+1, y)
	}
	switch {
	case op&0x0d700000 == 0x05500000 || op&0x0d700000 == 0x05100000: // pld
	case op&0x0f900000 == 0x04000000: // vld1, vst1
		regs := map[uint32]uint32{7: 1, 10: 2, 6: 3, 2: 4}[op>>8&15]
		if regs == 0 || d/2+regs > 32 {
			a.unknown(op)
		}
		rn, rm := op>>16&15, op&15
		at := a.reg(rn)
		if al := op >> 4 & 3; al != 0 && at&(4<<al-1) != 0 {
			panic(&Fault{"align", "vld1/vst1 at an address that does not have the alignment it asks for"})
		}
		if rm == 13 {
			a.set(rn, at+8*regs)
		} else if rm != 15 {
			a.set(rn, at+a.reg(rm))
		}
		for i := uint32(0); i < 2*regs; i++ {
			if op>>21&1 == 1 {
				a.v[d+i] = a.load32(at + 4*i)
			} else {
				a.store32(at+4*i, a.v[d+i])
			}
		}
	case op&0x0f800f50 == 0x03800200 && op>>20&3 == 0: // vsubl.u8
		var v [4]uint32
		for i := uint32(0); i < 8; i++ {
			x, y := a.v[n+i/4]>>(i%4*8)&255, a.v[m+i/4]>>(i%4*8)&255
			v[i/2] |= (x - y) & 0xffff << (i % 2 * 16)
		}
		copy(a.v[d:d+4], v[:])
	case op&0x0fbf0fd0 == 0x02900a10: // vmovl.s16
		var v [4]uint32
		for i := uint32(0); i < 4; i++ {
			v[i] = uint32(int32(int16(a.v[m+i/2] >> (i % 2 * 16))))
		}
		copy(a.v[d:d+4], v[:])
	case op&0x0fbf0e10 == 0x03bb0600: // vcvt
		for i := uint32(0); i < q; i++ {
			switch op >> 7 & 3 {
			case 0:
				a.setf(d+i, float32(int32(a.v[m+i])))
			case 1:
				a.setf(d+i, float32(a.v[m+i]))
			case 2:
				a.v[d+i] = uint32(toint(math.Trunc(float64(a.f(m + i)))))
			default:
				a.unknown(op)
			}
		}
	case op&0x0eb00f50 == 0x02a00940: // vmul.f32 by a scalar
		y := a.f(op&15*2 + op>>5&1)
		q := uint32(2)
		if op>>24&1 == 1 {
			q = 4
		}
		for i := uint32(0); i < q; i++ {
			a.setf(d+i, a.f(n+i)*y)
		}
	case op&0x0fb00f10 == 0x03000d10: // vmul.f32
		each(func(x, y float32) float32 { return x * y })
	case op&0x0fb00f10 == 0x02000d00:
		each(func(x, y float32) float32 { return x + y })
	case op&0x0fb00f10 == 0x02200d00:
		each(func(x, y float32) float32 { return x - y })
	case op&0x0fb00f10 == 0x02000f00:
		each(func(x, y float32) float32 { return max(x, y) })
	case op&0x0fb00f10 == 0x02200f00:
		each(func(x, y float32) float32 { return min(x, y) })
	case op&0x0fb00f50 == 0x03000f00:
		pairs(func(x, y float32) float32 { return max(x, y) })
	case op&0x0fb00f50 == 0x03200f00:
		pairs(func(x, y float32) float32 { return min(x, y) })
	default:
		a.unknown(op)
	}
}
