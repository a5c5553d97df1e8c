package isa

import (
	"math"
	"math/bits"
)

// arm64 is an ARMv8 processor as far as the repository's assembler needs it.
type arm64 struct {
	m          *mem
	x          [32]uint64 // 31 is the stack pointer
	v          [32][4]uint32
	n, z, c, o bool
	pc         uint64
	jump       bool
}

func (a *arm64) unknown(op uint32) { panic(&Unknown{"arm64", a.pc, op}) }

func (a *arm64) reg(i uint32) uint64 { // 31 is zero
	if i == 31 {
		return 0
	}
	return a.x[i]
}

func (a *arm64) set(i uint32, v uint64, wide bool) {
	if i == 31 {
		return
	}
	if !wide {
		v = uint64(uint32(v))
	}
	a.x[i] = v
}

func (a *arm64) goTo(at uint64) { a.pc, a.jump = at, true }

func (a *arm64) cond(c uint32) bool {
	var t bool
	switch c >> 1 {
	case 0:
		t = a.z
	case 1:
		t = a.c
	case 2:
		t = a.n
	case 3:
		t = a.o
	case 4:
		t = a.c && !a.z
	case 5:
		t = a.n == a.o
	case 6:
		t = !a.z && a.n == a.o
	default:
		return true
	}
	return t != (c&1 == 1)
}

func (a *arm64) addc(x, y uint64, c uint64, s, wide bool) uint64 {
	var v uint64
	if wide {
		var co uint64
		v, co = bits.Add64(x, y, c)
		if s {
			a.n, a.z, a.c, a.o = v>>63 == 1, v == 0, co == 1, (x^v)&(y^v)>>63 == 1
		}
		return v
	}
	w, co := bits.Add32(uint32(x), uint32(y), uint32(c))
	if s {
		a.n, a.z, a.c, a.o = w>>31 == 1, w == 0, co == 1, (uint32(x)^w)&(uint32(y)^w)>>31 == 1
	}
	return uint64(w)
}

func (a *arm64) f(i uint32, l int) float32 { return math.Float32frombits(a.v[i][l]) }

func (a *arm64) scalar(i uint32, w uint32) { a.v[i] = [4]uint32{w} }

func (a *arm64) step() {
	op := uint32(a.m.read(a.pc, 4))
	a.jump = false
	a.exec(op)
	if !a.jump {
		a.pc += 4
	}
}

func fmax(x, y float32) float32 { return max(x, y) }
func fmin(x, y float32) float32 { return min(x, y) }

func (a *arm64) exec(op uint32) {
	rd, rn, rm := op&31, op>>5&31, op>>16&31
	wide := op>>31 == 1
	sub, setf := op>>30&1 == 1, op>>29&1 == 1
	add := func(x, y uint64) uint64 {
		if sub {
			return a.addc(x, ^y, 1, setf, wide)
		}
		return a.addc(x, y, 0, setf, wide)
	}
	// to a register where 31 is the stack pointer
	setSP := func(i uint32, v uint64) {
		if i == 31 {
			a.x[31] = v
		} else {
			a.set(i, v, wide)
		}
	}
	signed := func(v uint32, n int) int64 { return int64(v) << (64 - n) >> (64 - n) }
	switch {
	case op == 0xd503201f: // nop
	case op&0x1f800000 == 0x11000000: // add, sub immediate
		imm := uint64(op >> 10 & 0xfff)
		if op>>22&1 == 1 {
			imm <<= 12
		}
		v := add(a.x[rn], imm)
		if setf {
			a.set(rd, v, wide)
		} else {
			setSP(rd, v)
		}
	case op&0x1f200000 == 0x0b000000, op&0x1f000000 == 0x0a000000: // add, sub and logic on shifted registers
		y := a.reg(rm)
		n := op >> 10 & 63
		if !wide {
			y = uint64(uint32(y))
		}
		switch op >> 22 & 3 {
		case 0:
			y <<= n
		case 1:
			y >>= n
		case 2:
			if wide {
				y = uint64(int64(y) >> n)
			} else {
				y = uint64(int32(y) >> n)
			}
		default:
			a.unknown(op)
		}
		if op&0x1f000000 == 0x0b000000 {
			a.set(rd, add(a.reg(rn), y), wide)
			return
		}
		if op>>21&1 == 1 {
			y = ^y
		}
		v := a.reg(rn)
		switch op >> 29 & 3 {
		case 1:
			v |= y
		case 2:
			v ^= y
		default:
			v &= y
		}
		if op>>29&3 == 3 {
			a.c, a.o = false, false
			a.z, a.n = v == 0, v>>63 == 1
			if !wide {
				a.z, a.n = uint32(v) == 0, uint32(v)>>31 == 1
			}
		}
		a.set(rd, v, wide)
	case op&0x1f200000 == 0x0b200000: // add, sub on extended registers
		if op>>13&3 != 3 || op>>22&3 != 0 || !wide {
			a.unknown(op)
		}
		v := add(a.x[rn], a.reg(rm)<<(op>>10&7))
		if setf {
			a.set(rd, v, wide)
		} else {
			setSP(rd, v)
		}
	case op&0x1f800000 == 0x12000000: // logic on immediates
		imms, immr := op>>10&63, op>>16&63
		size := bits.Len32(op>>22&1<<6|^imms&63) - 1
		if size < 1 {
			a.unknown(op)
		}
		esize := uint32(1) << size
		ones := imms&(esize-1) + 1
		e := uint64(1)<<ones - 1
		if r := immr & (esize - 1); r > 0 {
			e = e>>r | e<<(esize-r)
			if esize < 64 {
				e &= uint64(1)<<esize - 1
			}
		}
		v := uint64(0)
		for i := uint32(0); i < 64; i += esize {
			v |= e << i
		}
		x := a.reg(rn)
		switch op >> 29 & 3 {
		case 1:
			setSP(rd, x|v)
		case 2:
			setSP(rd, x^v)
		case 0:
			setSP(rd, x&v)
		default:
			x &= v
			a.c, a.o, a.z, a.n = false, false, x == 0, x>>63 == 1
			a.set(rd, x, wide)
		}
	case op&0x1f800000 == 0x12800000: // movn, movz, movk
		sh := op >> 21 & 3 * 16
		imm := uint64(op>>5&0xffff) << sh
		switch op >> 29 & 3 {
		case 0:
			a.set(rd, ^imm, wide)
		case 2:
			a.set(rd, imm, wide)
		case 3:
			a.set(rd, a.reg(rd)&^(0xffff<<sh)|imm, wide)
		default:
			a.unknown(op)
		}
	case op&0x7f800000 == 0x53000000 && op>>22&1 == op>>31: // ubfm
		r, s := op>>16&63, op>>10&63
		x := a.reg(rn)
		if !wide {
			x = uint64(uint32(x))
		}
		if s >= r {
			a.set(rd, x>>r&(1<<(s-r+1)-1), wide)
		} else {
			w := uint32(32)
			if wide {
				w = 64
			}
			a.set(rd, x&(1<<(s+1)-1)<<(w-r), wide)
		}
	case op&0x1f000000 == 0x10000000: // adr, adrp
		imm := signed(op>>5&0x7ffff<<2|op>>29&3, 21)
		if wide {
			a.set(rd, uint64(int64(a.pc&^0xfff)+imm<<12), true)
		} else {
			a.set(rd, uint64(int64(a.pc)+imm), true)
		}
	case op&0x7c000000 == 0x14000000: // b, bl
		if wide {
			a.x[30] = a.pc + 4
		}
		a.goTo(uint64(int64(a.pc) + signed(op&0x3ffffff, 26)*4))
	case op&0xff000010 == 0x54000000:
		if a.cond(op & 15) {
			a.goTo(uint64(int64(a.pc) + signed(op>>5&0x7ffff, 19)*4))
		}
	case op&0x7e000000 == 0x34000000: // cbz, cbnz
		x := a.reg(rd)
		if !wide {
			x = uint64(uint32(x))
		}
		if (x == 0) == (op>>24&1 == 0) {
			a.goTo(uint64(int64(a.pc) + signed(op>>5&0x7ffff, 19)*4))
		}
	case op&0xfffffc1f == 0xd65f0000, op&0xfffffc1f == 0xd61f0000: // ret, br
		a.goTo(a.reg(rn))
	case op&0xffc00000 == 0xf9800000: // prfm
	case op&0x3b000000 == 0x39000000, op&0x3b200c00 == 0x38000400, op&0x3b200c00 == 0x38000c00, op&0x3b200c00 == 0x38000000:
		a.single(op)
	case op&0x3a000000 == 0x28000000:
		a.pair(op)
	case op&0xfffffc00 == 0x4e010c00: // dup b
		v := uint32(a.reg(rn)) & 255 * 0x01010101
		a.v[rd] = [4]uint32{v, v, v, v}
	case op&0xfffffc00 == 0x4e040c00: // dup s
		v := uint32(a.reg(rn))
		a.v[rd] = [4]uint32{v, v, v, v}
	case op&0xffe0fc00 == 0x6e208400: // sub b
		var v [4]uint32
		for i := range v {
			for k := 0; k < 32; k += 8 {
				v[i] |= (a.v[rn][i]>>k - a.v[rm][i]>>k) & 255 << k
			}
		}
		a.v[rd] = v
	case op&0x9ffffc00 == 0x0f08a400: // sxtl, uxtl b
		h := int(op >> 30 & 1 * 2)
		var v [4]uint32
		for i := 0; i < 8; i++ {
			b := int8(a.v[rn][h+i/4] >> (i % 4 * 8))
			x := uint16(int16(b))
			if op>>29&1 != 0 {
				x = uint16(uint8(b))
			}
			v[i/2] |= uint32(x) << (i % 2 * 16)
		}
		a.v[rd] = v
	case op&0x9ffffc00 == 0x0f10a400: // sxtl, uxtl h
		h := int(op >> 30 & 1 * 2)
		var v [4]uint32
		for i := 0; i < 4; i++ {
			x := uint16(a.v[rn][h+i/2] >> (i % 2 * 16))
			if v[i] = uint32(int32(int16(x))); op>>29&1 != 0 {
				v[i] = uint32(x)
			}
		}
		a.v[rd] = v
	case op&0xfffffc00 == 0x4e21d800: // scvtf 4s
		for i := range a.v[rd] {
			a.v[rd][i] = math.Float32bits(float32(int32(a.v[rn][i])))
		}
	case op&0xfffffc00 == 0x1e220000: // scvtf s, w
		a.scalar(rd, math.Float32bits(float32(int32(a.reg(rn)))))
	case op&0xfffffc00 == 0x9e220000: // scvtf s, x
		a.scalar(rd, math.Float32bits(float32(int64(a.reg(rn)))))
	case op&0xfffffc00 == 0x1e270000: // fmov s, w
		a.scalar(rd, uint32(a.reg(rn)))
	case op&0xfffffc00 == 0x1e204000: // fmov s, s
		a.scalar(rd, a.v[rn][0])
	case op&0xffc0f400 == 0x4f809000: // fmul by an element
		y := a.f(rm, int(op>>11&1<<1|op>>21&1))
		for i := range a.v[rd] {
			a.v[rd][i] = math.Float32bits(a.f(rn, i) * y)
		}
	case op&0xff60fc00 == 0x4e20f400: // fmax, fmin
		g := fmax
		if op>>23&1 == 1 {
			g = fmin
		}
		for i := range a.v[rd] {
			a.v[rd][i] = math.Float32bits(g(a.f(rn, i), a.f(rm, i)))
		}
	case op&0xff7ffc00 == 0x6e30f800: // fmaxv, fminv
		g := fmax
		if op>>23&1 == 1 {
			g = fmin
		}
		a.scalar(rd, math.Float32bits(g(g(a.f(rn, 0), a.f(rn, 1)), g(a.f(rn, 2), a.f(rn, 3)))))
	case op&0xffe00c00 == 0x1e200800: // arithmetic on singles
		x, y := a.f(rn, 0), a.f(rm, 0)
		switch op >> 12 & 15 {
		case 0:
			x *= y
		case 1:
			x /= y
		case 2:
			x += y
		case 3:
			x -= y
		case 4:
			x = fmax(x, y)
		case 5:
			x = fmin(x, y)
		default:
			a.unknown(op)
		}
		a.scalar(rd, math.Float32bits(x))
	default:
		a.unknown(op)
	}
}

// single loads or stores one register.
func (a *arm64) single(op uint32) {
	rt, rn := op&31, op>>5&31
	size := op >> 30
	opc := op >> 22 & 3
	vec := op>>26&1 == 1
	if vec && opc&2 != 0 {
		if size != 0 {
			a.unknown(op)
		}
		size = 4
	}
	n := 1 << size
	at, back := a.x[rn], a.x[rn]
	if op>>24&1 == 1 {
		at += uint64(op>>10&0xfff) << size
		back = a.x[rn]
	} else {
		off := uint64(int64(op>>12&0x1ff) << 55 >> 55)
		back += off
		switch op >> 10 & 3 {
		case 0:
			at, back = back, a.x[rn]
		case 3:
			at = back
		}
	}
	load := opc&1 == 1 || !vec && opc != 0
	switch {
	case vec && load:
		var v [4]uint32
		for i := 0; i < n; i += 4 {
			v[i/4] = uint32(a.m.read(at+uint64(i), min(n, 4)))
		}
		a.v[rt] = v
	case vec:
		for i := 0; i < n; i += 4 {
			a.m.write(at+uint64(i), min(n, 4), uint64(a.v[rt][i/4]))
		}
	case load:
		v := a.m.read(at, n)
		if opc >= 2 { // signed
			if size == 3 {
				a.unknown(op)
			}
			s := 64 - 8*n
			v = uint64(int64(v) << s >> s)
		}
		a.set(rt, v, opc != 3)
	default:
		a.m.write(at, n, a.reg(rt))
	}
	a.x[rn] = back
}

// pair loads or stores two registers.
func (a *arm64) pair(op uint32) {
	rt, rt2, rn := op&31, op>>10&31, op>>5&31
	vec, load := op>>26&1 == 1, op>>22&1 == 1
	n := uint64(4)
	switch opc := op >> 30; {
	case vec && opc < 3:
		n <<= opc
	case !vec && opc == 2:
		n = 8
	case !vec && opc == 0:
	default:
		a.unknown(op)
	}
	off := uint64(int64(op>>15&0x7f)<<57>>57) * n
	at, back := a.x[rn], a.x[rn]
	switch op >> 23 & 3 {
	case 1:
		back += off
	case 2:
		at += off
	case 3:
		at += off
		back = at
	default:
		a.unknown(op)
	}
	for i, t := range []uint32{rt, rt2} {
		at := at + uint64(i)*n
		switch {
		case vec && load:
			var v [4]uint32
			for k := range v[:n/4] {
				v[k] = uint32(a.m.read(at+uint64(4*k), 4))
			}
			a.v[t] = v
		case vec:
			for k := range a.v[t][:n/4] {
				a.m.write(at+uint64(4*k), 4, uint64(a.v[t][k]))
			}
		case load:
			a.set(t, a.m.read(at, int(n)), n == 8)
		default:
			a.m.write(at, int(n), a.reg(t))
		}
	}
	a.x[rn] = back
}
