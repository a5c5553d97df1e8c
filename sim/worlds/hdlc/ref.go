// Package hdlc simulates a radio channel with several AX.25 stations and several receivers, each running
// the repository's decoder on what it hears.
package hdlc

import (
	"bytes"
	"fmt"

	"github.com/samuel/go-dsp/dsp/ax25"
)

// ---------------------------------------------------------------- what was sent

type addr struct {
	call string
	ssid int
	cbit bool // C or H bit
	rr   byte // reserved bits
}

// frame is a frame as its sender means it.
type frame struct {
	id      int
	flex    bool
	qso     int
	cmd     bool
	dst     addr
	src     addr
	rep     []addr
	ctrl    byte
	hasPID  bool
	pid     byte
	info    []byte
	octets  []byte // with FCS
	wellf   bool   // a well-formed frame that has to be decoded
	comment string
}

func fcs(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

func withFCS(b []byte) []byte {
	f := fcs(b)
	return append(append([]byte(nil), b...), byte(f), byte(f>>8))
}

func fcsOK(b []byte) bool {
	n := len(b)
	if n < 3 {
		return false
	}
	return fcs(b[:n-2]) == uint16(b[n-2])|uint16(b[n-1])<<8
}

func putAddr(a addr, last bool) []byte {
	b := []byte("      ")
	copy(b, a.call)
	for i := range b {
		b[i] <<= 1
	}
	x := byte(a.ssid)<<1 | a.rr<<5
	if a.cbit {
		x |= 0x80
	}
	if last {
		x |= 1
	}
	return append(b, x)
}

func (f *frame) encode() {
	var b []byte
	if f.flex {
		c := make([]byte, 6)
		for i := range c {
			if i < len(f.dst.call) {
				c[i] = f.dst.call[i] - 0x20
			}
		}
		b1 := byte(f.qso&0x3f)<<2 | 1
		if f.cmd {
			b1 |= 2
		}
		b = []byte{byte(f.qso >> 6), b1,
			c[0]<<2 | c[1]>>4, c[1]<<4 | c[2]>>2, c[2]<<6 | c[3], c[4]<<2 | c[5]>>4, c[5]<<4 | byte(f.dst.ssid)}
	} else {
		b = append(b, putAddr(f.dst, false)...)
		b = append(b, putAddr(f.src, len(f.rep) == 0)...)
		for i, r := range f.rep {
			b = append(b, putAddr(r, i == len(f.rep)-1)...)
		}
	}
	b = append(b, f.ctrl)
	if f.hasPID {
		b = append(b, f.pid)
		b = append(b, f.info...)
	}
	f.octets = withFCS(b)
}

// diff compares a decoded frame with what was sent.
func (f *frame) diff(g *ax25.Frame) string {
	var e []string
	chk := func(what string, got, want any) {
		if got != want {
			e = append(e, fmt.Sprintf("%s is %v, sent %v", what, got, want))
		}
	}
	chk("destination", g.Destination, ax25.Address{Callsign: f.dst.call, SSID: f.dst.ssid})
	if f.flex {
		chk("version 1", g.V1, false)
		chk("command", g.Command, f.cmd)
	} else {
		chk("source", g.Source, ax25.Address{Callsign: f.src.call, SSID: f.src.ssid})
		chk("number of repeaters", len(g.Repeaters), len(f.rep))
		for i := range f.rep {
			if i < len(g.Repeaters) {
				chk(fmt.Sprintf("repeater %d", i), g.Repeaters[i], ax25.Address{Callsign: f.rep[i].call, SSID: f.rep[i].ssid})
			}
		}
		chk("version 1", g.V1, f.dst.cbit == f.src.cbit)
		if f.dst.cbit != f.src.cbit {
			chk("command", g.Command, f.dst.cbit)
		}
	}
	chk("poll/final", g.PollFinal, f.ctrl>>4&1 == 1)
	switch {
	case f.ctrl&1 == 0:
		chk("type", g.Type, ax25.IFrame)
		chk("N(S)", g.SendSeq, int(f.ctrl>>1&7))
		chk("N(R)", g.RecvSeq, int(f.ctrl>>5))
	case f.ctrl&3 == 1:
		chk("type", g.Type, ax25.SFrame)
		chk("N(R)", g.RecvSeq, int(f.ctrl>>5))
		chk("supervisory type", byte(g.SupervisoryType), f.ctrl&0xf)
	default:
		chk("type", g.Type, ax25.UFrame)
		chk("unnumbered type", byte(g.UnnumberedType), f.ctrl&0xef)
	}
	if f.hasPID {
		chk("protocol id", byte(g.PID), f.pid)
		if !bytes.Equal(g.Info, f.info) {
			e = append(e, fmt.Sprintf("information is %d bytes %x, sent %d bytes %x", len(g.Info), clip(g.Info), len(f.info), clip(f.info)))
		}
	}
	if len(e) == 0 {
		return ""
	}
	return fmt.Sprint(e)
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// ---------------------------------------------------------------- reference receiver

type verdict int

const (
	none   verdict = iota // nothing may be returned
	may                   // correct FCS but not what a proper sender sends: returning it is not judged
	proper                // a proper frame: if something is returned it is this
)

type span struct {
	v   verdict
	f   *frame
	why string
}

// reference finds, over a whole bit stream, what may be returned at the end of each flag.
func reference(bits []byte) map[int]*span {
	out := map[int]*span{}
	at := func(i int) byte {
		if i < 0 {
			return 0
		}
		return bits[i]
	}
	flagEnd := func(i int) bool {
		if at(i) != 0 || at(i-7) != 0 {
			return false
		}
		for k := 1; k < 7; k++ {
			if at(i-k) != 1 {
				return false
			}
		}
		return true
	}
	prev := -1
	open := false
	for i := range bits {
		if !flagEnd(i) {
			continue
		}
		if !open {
			out[i] = &span{why: "no flag opened it"}
		} else {
			out[i] = judge(bits[min(prev+1, i):i])
		}
		open, prev = true, i
	}
	return out
}

// judge decides on the bits between two flags (the last flag's first seven bits included).
func judge(b []byte) *span {
	ones := 0
	var oct []byte
	var cur byte
	n := 0
	data := len(b) - 7 // bits before the closing flag
	whole := false
	if data < 0 {
		return &span{why: "nothing between the flags"}
	}
	k := 0
	for i, x := range b {
		if i == data {
			whole = k%8 == 0 && ones != 5 // a zero follows five ones, or the last bit was lost
		}
		if x == 1 {
			ones++
			if ones >= 7 {
				return &span{why: "abort"}
			}
		} else {
			stuffed := ones == 5
			ones = 0
			if stuffed {
				continue
			}
		}
		cur |= x << uint(n)
		n++
		k++
		if n == 8 {
			oct = append(oct, cur)
			cur, n = 0, 0
		}
	}
	if len(oct) > 512 {
		return &span{why: "longer than 512 octets"}
	}
	if !whole {
		return &span{why: "not whole octets"}
	}
	if !fcsOK(oct) {
		return &span{why: "wrong FCS"}
	}
	d := oct[:len(oct)-2]
	if len(d) < 8 {
		return &span{why: "too short"}
	}
	f := parse(d)
	if f == nil {
		if d[1]&1 == 0 && len(d) < 15 {
			return &span{why: "too short"}
		}
		return &span{v: may}
	}
	return &span{v: proper, f: f}
}

func alnum(c byte) bool { return c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' }

func getAddr(b []byte) (addr, bool) {
	var a addr
	end := false
	for i := 0; i < 6; i++ {
		if b[i]&1 != 0 {
			return a, false
		}
		c := b[i] >> 1
		switch {
		case c == ' ':
			end = true
		case end || !alnum(c):
			return a, false
		default:
			a.call += string(rune(c))
		}
	}
	a.ssid = int(b[6]>>1) & 15
	a.cbit = b[6]&0x80 != 0
	return a, a.call != ""
}

// parse reads the octets of a proper frame; nil if it is not one.
func parse(d []byte) *frame {
	f := &frame{}
	var r []byte
	if d[1]&1 != 0 {
		f.flex = true
		f.cmd = d[1]&2 != 0
		f.qso = int(d[0])<<6 | int(d[1]>>2)
		var v uint64
		for _, x := range d[2:7] {
			v = v<<8 | uint64(x)
		}
		f.dst.ssid = int(v & 15)
		for i := 0; i < 6; i++ {
			c := byte(v>>(34-6*i)) & 0x3f
			if c == 0 {
				if v&(1<<(34-6*i)-1)>>4 != 0 {
					return nil // a gap in the callsign
				}
				break
			}
			f.dst.call += string(rune(c + 0x20))
		}
		if f.dst.call == "" {
			return nil
		}
		r = d[7:]
	} else {
		if len(d) < 15 {
			return nil
		}
		var ok bool
		if f.dst, ok = getAddr(d); !ok || d[6]&1 != 0 {
			return nil
		}
		o := 7
		for last := false; !last; o += 7 {
			if len(d) < o+8 {
				return nil
			}
			a, ok := getAddr(d[o:])
			if !ok {
				return nil
			}
			last = d[o+6]&1 != 0
			if o == 7 {
				f.src = a
			} else {
				f.rep = append(f.rep, a)
			}
		}
		if len(f.rep) > 8 {
			return nil
		}
		r = d[o:]
	}
	f.ctrl = r[0]
	r = r[1:]
	if f.ctrl&1 == 0 || f.ctrl&0xef == 3 {
		if len(r) == 0 {
			return nil
		}
		f.hasPID = true
		f.pid = r[0]
		f.info = r[1:]
	}
	return f
}
