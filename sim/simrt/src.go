package simrt

// A Stream is a sequence of bounded choices: drawn from a seeded generator (and recorded), or
// replayed from a recording. Past the end of a recording every choice is 0, which by convention
// is always the most benign one (no fault, no preemption, first alternative, shortest script).
type Stream struct {
	state  uint64
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix combines integers into one well-distributed value.
func Mix(vals ...uint64) uint64 {
	var h uint64 = 0x8445d61a4e774912
	for _, v := range vals {
		h ^= v
		h = splitmix(&h)
	}
	return h
}

// N returns a choice in [0, n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if int64(v) >= int64(n) {
				v = uint32(int64(v) % int64(n))
			}
		}
	} else {
		v = uint32(splitmix(&s.state) % uint64(n))
	}
	s.pos++
	s.Rec = append(s.Rec, v)
	return int(v)
}

// N1 returns a choice in [1, n) when generating; a replay may also yield 0.
func (s *Stream) N1(n int) int {
	if n <= 2 {
		n = 2
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if int64(v) >= int64(n) {
				v = uint32(int64(v) % int64(n))
			}
		}
	} else {
		v = 1 + uint32(splitmix(&s.state)%uint64(n-1))
	}
	s.pos++
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Range returns a choice in [lo, hi], lo being the benign one.
func (s *Stream) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}

// Chance is true with probability num/den; the benign choice is false.
func (s *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	if num >= den {
		return true
	}
	return s.N(den) >= den-num
}

// Weighted picks an index with the given weights; index 0 is the benign one.
func (s *Stream) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Bytes fills b from the stream (4 bytes per choice).
func (s *Stream) U32() uint32 { return uint32(s.N(1<<31 - 1)) }

// Choices is everything that decides a run.
type Choices struct {
	W []uint32 `json:"w"` // workload and configuration
	F []uint32 `json:"f"` // faults, delays, fragmentation
	S []uint32 `json:"s"` // schedule
}

func (c *Choices) Len() int { return len(c.W) + len(c.F) + len(c.S) }

// Src is the source of all nondeterminism of a run.
type Src struct{ W, F, S *Stream }

// NewSrc makes a generating source from a seed.
func NewSrc(seed uint64) *Src {
	mk := func(k uint64) *Stream { return &Stream{state: Mix(seed, k)} }
	return &Src{W: mk(1), F: mk(2), S: mk(3)}
}

// ReplaySrc makes a source that replays recorded choices.
func ReplaySrc(c *Choices) *Src {
	mk := func(r []uint32) *Stream { return &Stream{replay: r, isRep: true} }
	return &Src{W: mk(c.W), F: mk(c.F), S: mk(c.S)}
}

// Recorded returns the choices made so far.
func (s *Src) Recorded() *Choices {
	cp := func(x []uint32) []uint32 {
		n := len(x)
		for n > 0 && x[n-1] == 0 {
			n--
		}
		return append([]uint32(nil), x[:n]...)
	}
	return &Choices{W: cp(s.W.Rec), F: cp(s.F.Rec), S: cp(s.S.Rec)}
}
