package isa

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

// Mode is what the processor of a call is like.
type Mode struct {
	Vars map[string]byte // package variables the code looks at
	Seed uint64          // what registers and results hold before
}

// layout is how a value of a type lies in the processor's memory.
func (p *Prog) layout(t reflect.Type) (size, align int) {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 1, 1
	case reflect.Int16, reflect.Uint16:
		return 2, 2
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 4, 4
	case reflect.Int, reflect.Uint, reflect.Uintptr, reflect.Pointer:
		return p.Word, p.Word
	case reflect.Int64, reflect.Uint64, reflect.Float64:
		return 8, min(8, p.Word)
	case reflect.Complex64:
		return 8, 4
	case reflect.Complex128:
		return 16, min(8, p.Word)
	case reflect.Slice:
		return 3 * p.Word, p.Word
	case reflect.Struct:
		align = 1
		for i := 0; i < t.NumField(); i++ {
			s, a := p.layout(t.Field(i).Type)
			size = (size+a-1)/a*a + s
			align = max(align, a)
		}
		return (size + align - 1) / align * align, align
	}
	panic(&Unknown{Arch: p.Arch})
}

type caller struct {
	p    *Prog
	m    *mem
	top  uint64
	bufs map[unsafe.Pointer]*region // of slices, by their first element
	orig map[*region]unsafe.Pointer
	caps map[*region]int64 // bytes
	ptrs []*region
	vals []reflect.Value
}

func aligned(n int) []byte {
	w := make([]uint64, n/8+1)
	return unsafe.Slice((*byte)(unsafe.Pointer(&w[0])), n)
}

// region makes room of n bytes at an address that is like real modulo 64.
func (c *caller) region(name string, n int, real uintptr) *region {
	c.top = (c.top+4096+63)&^63 + uint64(real%64)
	r := &region{base: c.top, b: aligned(n), name: name}
	c.top += uint64(n)
	c.m.add(r)
	return r
}

func raw(v reflect.Value) (unsafe.Pointer, int) {
	n := v.Len() * int(v.Type().Elem().Size())
	return v.UnsafePointer(), n
}

// flat says that elements lie in memory there as they do here.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Float32, reflect.Float64, reflect.Int64, reflect.Uint64, reflect.Complex64, reflect.Complex128:
		return true
	}
	return false
}

func (c *caller) put(at uint64, v reflect.Value, name string) {
	w := c.p.Word
	switch v.Kind() {
	case reflect.Bool:
		x := uint64(0)
		if v.Bool() {
			x = 1
		}
		c.m.write(at, 1, x)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, _ := c.p.layout(v.Type())
		c.m.write(at, n, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n, _ := c.p.layout(v.Type())
		c.m.write(at, n, v.Uint())
	case reflect.Float32:
		c.m.write(at, 4, uint64(math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		c.m.write(at, 8, math.Float64bits(v.Float()))
	case reflect.Complex64:
		x := complex64(v.Complex())
		c.m.write(at, 4, uint64(math.Float32bits(real(x))))
		c.m.write(at+4, 4, uint64(math.Float32bits(imag(x))))
	case reflect.Complex128:
		c.m.write(at, 8, math.Float64bits(real(v.Complex())))
		c.m.write(at+8, 8, math.Float64bits(imag(v.Complex())))
	case reflect.Struct:
		off := 0
		for i := 0; i < v.NumField(); i++ {
			s, a := c.p.layout(v.Field(i).Type())
			off = (off + a - 1) / a * a
			c.put(at+uint64(off), v.Field(i), name)
			off += s
		}
	case reflect.Pointer:
		var to uint64
		if !v.IsNil() {
			n, _ := c.p.layout(v.Type().Elem())
			r := c.region("what "+name+" points to", n, 0)
			c.put(r.base, v.Elem(), name)
			c.ptrs, c.vals = append(c.ptrs, r), append(c.vals, v)
			to = r.base
		}
		c.m.write(at, w, to)
	case reflect.Slice:
		if !flat(v.Type().Elem()) {
			panic(&Unknown{Arch: c.p.Arch})
		}
		var base uint64
		if p, n := raw(v); v.Cap() > 0 {
			r := c.bufs[p]
			if r == nil {
				r = c.region(name, n, uintptr(p))
				c.bufs[p], c.orig[r] = r, p
			} else if n > len(r.b) {
				if n > len(r.b)+2048 {
					panic(&Unknown{Arch: c.p.Arch})
				}
				r.b = aligned(n)
			}
			copy(r.b, unsafe.Slice((*byte)(p), n))
			c.caps[r] = max(c.caps[r], int64(v.Cap())*int64(v.Type().Elem().Size()))
			base = r.base
		}
		c.m.write(at, w, base)
		c.m.write(at+uint64(w), w, uint64(v.Len()))
		c.m.write(at+2*uint64(w), w, uint64(v.Cap()))
	default:
		panic(&Unknown{Arch: c.p.Arch})
	}
}

// get reads a value back; slices come out of the caller's memory or, if sim, of the processor's.
func (c *caller) get(at uint64, v reflect.Value, sim bool) {
	w := c.p.Word
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.m.read(at, 1)&1 != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, _ := c.p.layout(v.Type())
		v.SetInt(int64(c.m.read(at, n)) << (64 - 8*n) >> (64 - 8*n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n, _ := c.p.layout(v.Type())
		v.SetUint(c.m.read(at, n))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(uint32(c.m.read(at, 4)))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(c.m.read(at, 8)))
	case reflect.Complex64:
		v.SetComplex(complex128(complex(math.Float32frombits(uint32(c.m.read(at, 4))), math.Float32frombits(uint32(c.m.read(at+4, 4))))))
	case reflect.Complex128:
		v.SetComplex(complex(math.Float64frombits(c.m.read(at, 8)), math.Float64frombits(c.m.read(at+8, 8))))
	case reflect.Struct:
		off := 0
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			s, a := c.p.layout(f.Type())
			off = (off + a - 1) / a * a
			c.get(at+uint64(off), reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem(), sim)
			off += s
		}
	case reflect.Pointer: // only of arguments
		to := c.m.read(at, w)
		for i, r := range c.ptrs {
			if r.base == to {
				x := reflect.New(v.Type().Elem())
				c.get(to, x.Elem(), sim)
				v.Set(x)
				c.vals = append(c.vals, x)
				c.ptrs = append(c.ptrs, c.ptrs[i])
				return
			}
		}
		if to != 0 {
			panic(&Fault{"outside", "a pointer that is none of the arguments"})
		}
	case reflect.Slice:
		to, n, k := c.m.read(at, w), int64(c.m.read(at+uint64(w), w)), int64(c.m.read(at+2*uint64(w), w))
		es := int64(v.Type().Elem().Size())
		if n < 0 || k < n || n > 1<<32 {
			panic(&Fault{"outside", fmt.Sprintf("a slice of length %d and capacity %d", n, k)})
		}
		for _, r := range c.m.regs {
			p, ok := c.orig[r]
			if !ok || to < r.base || to > r.base+uint64(len(r.b)) || to == r.base+uint64(len(r.b)) && n > 0 {
				continue
			}
			off := to - r.base
			if int64(off)+n*es > int64(len(r.b)) {
				panic(&Fault{"outside", fmt.Sprintf("a slice of length %d, %d elements beyond its array", n, n-int64(len(r.b))/es)})
			}
			if int64(off)+k*es > c.caps[r] {
				panic(&Fault{"outside", fmt.Sprintf("a slice whose capacity of %d goes beyond its array", k)})
			}
			if n == 0 {
				k = 0
			}
			if sim {
				p = unsafe.Pointer(unsafe.SliceData(r.b))
				k = n
			}
			*(*[3]uintptr)(v.Addr().UnsafePointer()) = [3]uintptr{0, uintptr(n), uintptr(k)}
			*(*unsafe.Pointer)(v.Addr().UnsafePointer()) = unsafe.Add(p, off)
			return
		}
		if n > 0 {
			panic(&Fault{"outside", "a slice that is none of the arguments"})
		}
		v.SetZero()
	default:
		panic(&Unknown{Arch: c.p.Arch})
	}
}

type frame struct {
	in, out []int // offsets
	size    int
}

func (p *Prog) frame(t reflect.Type) (f frame) {
	at := 0
	add := func(t reflect.Type) int {
		s, a := p.layout(t)
		at = (at + a - 1) / a * a
		o := at
		at += s
		return o
	}
	for i := 0; i < t.NumIn(); i++ {
		f.in = append(f.in, add(t.In(i)))
	}
	at = (at + p.Word - 1) / p.Word * p.Word
	for i := 0; i < t.NumOut(); i++ {
		f.out = append(f.out, add(t.Out(i)))
	}
	f.size = (at + p.Word - 1) / p.Word * p.Word
	return f
}

// Call calls an assembler function of type t with Go's stack-based calling convention. What it changes in
// its arguments is changed in args. It branches to functions of the package's own by name.
func (p *Prog) Call(name string, t reflect.Type, args []reflect.Value, own map[string]any, mode Mode) (res []reflect.Value, err error) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *Fault:
			err = x
		case *Unknown:
			err = x
		default:
			panic(x)
		}
	}()
	entry := p.funcs[name]
	if entry == 0 {
		return nil, &Fault{"missing", "no such function"}
	}
	m := &mem{sign: byte(mode.Seed>>3&1) << 7}
	code := &region{base: codeBase, b: p.code, ro: true, name: "code"}
	m.add(code)
	vars := append([]byte(nil), p.data...)
	for v, x := range mode.Vars {
		if at, ok := p.vars[v]; ok {
			vars[at-varBase] = x
		}
	}
	for v := range p.vars {
		if _, ok := mode.Vars[v]; !ok {
			panic(&Unknown{Arch: p.Arch})
		}
	}
	m.add(&region{base: varBase, b: vars, ro: true, name: "package variables"})
	f := p.frame(t)
	rnd := mode.Seed*2862933555777941757 + 3037000493
	next := func() uint64 {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return rnd ^ rnd>>29
	}
	const depth = 4096
	stack := &region{base: stackBase, b: aligned(depth + p.Word + f.size), name: "the stack"}
	for i := range stack.b {
		stack.b[i] = byte(next() >> 20)
	}
	m.add(stack)
	sp := uint64(stackBase + depth) // holds the return address or room for it
	fp := sp + uint64(p.Word)
	c := &caller{p: p, m: m, top: heapBase, bufs: map[unsafe.Pointer]*region{}, orig: map[*region]unsafe.Pointer{}, caps: map[*region]int64{}}
	steps := 20000
	for i, a := range args {
		c.put(fp+uint64(f.in[i]), a, fmt.Sprintf("argument %d", i))
		if a.Kind() == reflect.Slice {
			steps += 64 * a.Len()
		}
	}
	given := len(c.ptrs)
	tail := func(at uint64, ok bool) {
		fn := p.ext[at]
		v := reflect.ValueOf(own[fn])
		if own[fn] == nil {
			panic(&Fault{"missing", "there is no function " + fn + " to branch to"})
		}
		if !ok {
			panic(&Unknown{Arch: p.Arch})
		}
		g := p.frame(v.Type())
		if g.size > f.size {
			panic(&Fault{"outside", "branches to " + fn + ", which has more arguments and results"})
		}
		var in []reflect.Value
		for i, o := range g.in {
			x := reflect.New(v.Type().In(i)).Elem()
			c.get(fp+uint64(o), x, true)
			in = append(in, x)
		}
		had := len(c.ptrs)
		for i, r := range v.Call(in) {
			c.give(fp+uint64(g.out[i]), r)
		}
		for i := given; i < had; i++ {
			c.put(c.ptrs[i].base, c.vals[i].Elem(), "")
		}
	}
	past := func(pc uint64) {
		if f := p.ends[pc]; f != "" {
			panic(&Fault{"hang", "runs past the end of " + f})
		}
	}
	switch p.Arch {
	case "arm":
		a := &arm{m: m, pc: uint32(entry)}
		for i := range a.r {
			a.r[i] = uint32(next() >> 8)
		}
		for i := range a.v {
			a.v[i] = uint32(next() >> 8)
		}
		f := next() >> 7
		a.n, a.z, a.c, a.o = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0
		a.r[13], a.r[14] = uint32(sp), exitAddr
		g := a.r[10]
		for ; a.pc != exitAddr; steps-- {
			if p.ext[uint64(a.pc)] != "" {
				tail(uint64(a.pc), a.r[13] == uint32(sp) && a.r[14] == exitAddr)
				break
			}
			if steps == 0 {
				panic(&Fault{"hang", "does not return"})
			}
			past(uint64(a.pc))
			a.step()
		}
		switch {
		case a.r[13] != uint32(sp):
			panic(&Fault{"registers", "returns with another stack pointer"})
		case a.r[10] != g:
			panic(&Fault{"registers", "changes the register of the goroutine"})
		case a.fpscr>>16&0x37 != 0:
			panic(&Fault{"registers", "leaves the floating point unit in its vector mode"})
		}
	case "arm64":
		a := &arm64{m: m, pc: entry}
		for i := range a.x {
			a.x[i] = next()
		}
		for i := range a.v {
			for k := range a.v[i] {
				a.v[i][k] = uint32(next() >> 8)
			}
		}
		f := next() >> 7
		a.n, a.z, a.c, a.o = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0
		a.x[31], a.x[30] = sp, exitAddr
		g, r18, r29 := a.x[28], a.x[18], a.x[29]
		for ; a.pc != exitAddr; steps-- {
			if p.ext[a.pc] != "" {
				tail(a.pc, a.x[31] == sp && a.x[30] == exitAddr)
				break
			}
			if steps == 0 {
				panic(&Fault{"hang", "does not return"})
			}
			past(a.pc)
			a.step()
		}
		switch {
		case a.x[31] != sp || a.x[29] != r29:
			panic(&Fault{"registers", "returns with another stack or frame pointer"})
		case a.x[28] != g || a.x[18] != r18:
			panic(&Fault{"registers", "changes a register that is not its own"})
		}
	case "386":
		pc := entry
		for p.ext[pc] == "" {
			past(pc)
			if m.read(pc, 1) != 0xe9 || steps == 0 {
				panic(&Unknown{p.Arch, pc, uint32(m.read(pc, 1))})
			}
			steps--
			pc += 5 + uint64(int64(int32(m.read(pc+1, 4))))
		}
		tail(pc, true)
	default:
		panic(&Unknown{Arch: p.Arch})
	}
	for i := 0; i < given; i++ {
		v := c.vals[i].Elem()
		c.get(c.ptrs[i].base, v, false)
	}
	for r, o := range c.orig {
		copy(unsafe.Slice((*byte)(o), len(r.b)), r.b)
	}
	for i, o := range f.out {
		x := reflect.New(t.Out(i)).Elem()
		c.get(fp+uint64(o), x, false)
		res = append(res, x)
	}
	return res, nil
}

// give stores a result, whose slices are in the processor's memory.
func (c *caller) give(at uint64, v reflect.Value) {
	if v.Kind() != reflect.Slice {
		c.put(at, v, "result")
		return
	}
	var base uint64
	p, _ := raw(v)
	for _, r := range c.m.regs {
		if c.orig[r] == nil {
			continue
		}
		if lo := unsafe.Pointer(unsafe.SliceData(r.b)); uintptr(p) >= uintptr(lo) && uintptr(p) <= uintptr(lo)+uintptr(len(r.b)) && (v.Cap() > 0 || base == 0) {
			base = r.base + uint64(uintptr(p)-uintptr(lo))
		}
	}
	if base == 0 && v.Len() > 0 {
		panic(&Unknown{Arch: c.p.Arch})
	}
	w := c.p.Word
	c.m.write(at, w, base)
	c.m.write(at+uint64(w), w, uint64(v.Len()))
	c.m.write(at+2*uint64(w), w, uint64(v.Cap()))
}
