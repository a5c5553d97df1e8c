// Package isa simulates the processors that the repository's assembler is written for and this machine
// is not: it runs the machine code the Go assembler makes of it, one instruction after another, on
// memory in which every access is checked.
package isa

import (
	"encoding/binary"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// Prog is the assembled code of a package for one architecture.
type Prog struct {
	Arch  string
	Word  int
	funcs map[string]uint64 // entry points
	ends  map[uint64]string // where functions end
	ext   map[uint64]string // addresses that stand for functions in Go
	vars  map[string]uint64 // variables in Go
	code  []byte
	data  []byte

	Declared []string // functions without a body in Go
}

const (
	codeBase  = 0x10000
	varBase   = 0x800000
	extBase   = 0xf00000
	exitAddr  = 0xeffff0
	stackBase = 0x1000000
	heapBase  = 0x2000000
)

type symbol struct {
	name string
	text bool
	b    []byte
	rels []reloc
}

type reloc struct {
	off, size int
	typ, name string
	add       uint64
}

var (
	symRE = regexp.MustCompile(`^(\S+) (STEXT|SRODATA|SNOPTRDATA|SDATA|SBSS|SNOPTRBSS)\b.* size=(\d+)`)
	hexRE = regexp.MustCompile(`^\t0x([0-9a-f]+) ((?:[0-9a-f]{2} )+)`)
	relRE = regexp.MustCompile(`^\trel (\d+)\+(\d+) t=(\S+) (\S+?)\+([0-9a-f]+)$`)
)

func base(name string) string {
	if i := strings.LastIndexByte(name, '.'); i > strings.LastIndexByte(name, '/') && !strings.HasPrefix(name, "$") {
		return name[i+1:]
	}
	return name
}

// Load reads the listings of the assembler (go tool asm -S).
func Load(arch, listing string) (*Prog, error) {
	p := &Prog{Arch: arch, Word: 4, funcs: map[string]uint64{}, ends: map[uint64]string{}, ext: map[uint64]string{}, vars: map[string]uint64{}}
	if arch == "arm64" {
		p.Word = 8
	}
	var syms []*symbol
	var s *symbol
	for _, l := range strings.Split(listing, "\n") {
		if m := symRE.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[3])
			s = &symbol{name: base(m[1]), text: m[2] == "STEXT", b: make([]byte, n)}
			syms = append(syms, s)
		} else if s == nil {
			continue
		} else if m := hexRE.FindStringSubmatch(l); m != nil {
			at, _ := strconv.ParseInt(m[1], 16, 64)
			for _, h := range strings.Fields(m[2]) {
				v, _ := strconv.ParseUint(h, 16, 8)
				if int(at) >= len(s.b) {
					return nil, fmt.Errorf("%s: %s: listing longer than the symbol", arch, s.name)
				}
				s.b[at] = byte(v)
				at++
			}
		} else if m := relRE.FindStringSubmatch(l); m != nil {
			off, _ := strconv.Atoi(m[1])
			size, _ := strconv.Atoi(m[2])
			add, _ := strconv.ParseUint(m[5], 16, 64)
			s.rels = append(s.rels, reloc{off, size, m[3], base(m[4]), add})
		}
	}
	addr := map[string]uint64{}
	for _, s := range syms {
		for len(p.code)%16 != 0 {
			p.code = append(p.code, 0)
		}
		addr[s.name] = codeBase + uint64(len(p.code))
		if s.text {
			p.funcs[s.name] = addr[s.name]
		}
		p.code = append(p.code, s.b...)
		if s.text {
			p.ends[codeBase+uint64(len(p.code))] = s.name
			p.code = append(p.code, 0, 0, 0, 0)
		}
	}
	nvar, next := uint64(0), uint64(0)
	for _, s := range syms {
		at := addr[s.name]
		for _, r := range s.rels {
			call := strings.HasPrefix(r.typ, "R_CALL")
			t, ok := addr[r.name]
			if !ok {
				if call {
					t = extBase + 16*next
					next++
					p.ext[t] = r.name
				} else {
					t = varBase + 16*nvar
					nvar++
					p.vars[r.name] = t
				}
				addr[r.name] = t
			}
			o := int(at-codeBase) + r.off
			pc := at + uint64(r.off)
			w := p.code[o:]
			switch r.typ {
			case "R_CALLARM":
				v := uint32(int64(t)-int64(pc)-8) >> 2 & 0xffffff
				binary.LittleEndian.PutUint32(w, binary.LittleEndian.Uint32(w)&0xff000000|v)
			case "R_CALLARM64":
				v := uint32((int64(t)-int64(pc))>>2) & 0x3ffffff
				binary.LittleEndian.PutUint32(w, binary.LittleEndian.Uint32(w)&^0x3ffffff|v)
			case "R_CALL":
				binary.LittleEndian.PutUint32(w, uint32(int64(t)-int64(pc)-4))
			case "R_ADDR":
				if r.size == 8 {
					binary.LittleEndian.PutUint64(w, t+r.add)
				} else {
					binary.LittleEndian.PutUint32(w, uint32(t+r.add))
				}
			case "R_ADDRARM64", "R_ARM64_PCREL_LDST32", "R_ARM64_PCREL_LDST64", "R_ARM64_PCREL_LDST8":
				d := int64((t+r.add)>>12) - int64(pc>>12)
				v := binary.LittleEndian.Uint32(w)
				v = v&^(3<<29|0x7ffff<<5) | uint32(d&3)<<29 | uint32(d>>2&0x7ffff)<<5
				binary.LittleEndian.PutUint32(w, v)
				lo := uint32((t + r.add) & 0xfff)
				switch r.typ {
				case "R_ARM64_PCREL_LDST32":
					lo >>= 2
				case "R_ARM64_PCREL_LDST64":
					lo >>= 3
				}
				x := binary.LittleEndian.Uint32(w[4:])
				binary.LittleEndian.PutUint32(w[4:], x&^(0xfff<<10)|lo<<10)
			default:
				return nil, fmt.Errorf("%s: %s: relocation %s", arch, s.name, r.typ)
			}
		}
	}
	p.data = make([]byte, 16*nvar+16)
	return p, nil
}

// Has says whether the architecture's assembler defines a function.
func (p *Prog) Has(name string) bool { return p.funcs[name] != 0 }

// Declares says whether Go code expects the assembler to define a function.
func (p *Prog) Declares(name string) bool { return slices.Contains(p.Declared, name) }

// Names are the functions the assembler defines.
func (p *Prog) Names() (n []string) {
	for f := range p.funcs {
		n = append(n, f)
	}
	sort.Strings(n)
	return n
}

// A Fault is what the machine code does wrong.
type Fault struct{ Kind, Msg string }

func (f *Fault) Error() string { return f.Kind + ": " + f.Msg }

// Unknown is an instruction that is not simulated.
type Unknown struct {
	Arch string
	PC   uint64
	Op   uint32
}

func (u *Unknown) Error() string {
	return fmt.Sprintf("%s instruction %08x at %#x is not simulated", u.Arch, u.Op, u.PC)
}

type region struct {
	base uint64
	b    []byte
	ro   bool
	name string
}

type mem struct {
	sign byte // of what lies between the regions, as floating point numbers
	regs []*region
	over int // bytes read outside of every region
}

func (m *mem) add(r *region) { m.regs = append(m.regs, r) }

func (m *mem) find(a uint64, n int) []byte {
	for _, r := range m.regs {
		if a >= r.base && a+uint64(n) <= r.base+uint64(len(r.b)) {
			return r.b[a-r.base:][:n]
		}
	}
	return nil
}

func (m *mem) near(a uint64) (string, int64) {
	name, best := "nothing", int64(1<<40)
	for _, r := range m.regs {
		d := int64(a) - int64(r.base)
		e := int64(a) - int64(r.base) - int64(len(r.b))
		if d < 0 {
			e = -d
		} else {
			e++
		}
		if e < best {
			name, best = r.name, e
		}
	}
	return name, best
}

func (m *mem) read(a uint64, n int) uint64 {
	var buf [8]byte
	b := m.find(a, n)
	if b == nil {
		name, far := m.near(a)
		if far > 256 {
			panic(&Fault{"outside", fmt.Sprintf("reads %d bytes at %d bytes from %s", n, far, name)})
		}
		m.over += n
		for i := range buf {
			buf[i] = 0x5a
			if (a+uint64(i))%4 == 3 {
				buf[i] ^= m.sign
			}
			if x := m.find(a+uint64(i), 1); x != nil {
				buf[i] = x[0]
			}
		}
		b = buf[:n]
	}
	v := uint64(0)
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func (m *mem) write(a uint64, n int, v uint64) {
	for _, r := range m.regs {
		if a >= r.base && a+uint64(n) <= r.base+uint64(len(r.b)) {
			if r.ro {
				panic(&Fault{"outside", "writes to " + r.name})
			}
			b := r.b[a-r.base:]
			for i := 0; i < n; i++ {
				b[i] = byte(v >> (8 * i))
			}
			return
		}
	}
	name, far := m.near(a)
	panic(&Fault{"outside", fmt.Sprintf("writes %d bytes at %d bytes from %s", n, far, name)})
}
