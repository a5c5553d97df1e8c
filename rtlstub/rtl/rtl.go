// Package rtl is a simulated RTL-SDR tuner driver (the real one needs cgo and hardware, and is not
// available offline). Callbacks of one asynchronous read are serial and run on a driver task of the
// server's process; the transfer buffer is reused (poisoned) after each callback.
package rtl

import (
	"errors"
	"fmt"

	"verif/sim/simrt"
)

// Tuner is the simulated hardware.
type Tuner struct {
	Idx       int
	Name      string
	Gains     []int
	XtalRTL   uint
	XtalTuner uint
	FreqStep  uint // the tuner rounds down to multiples of this
	FreqMax   uint
	RateStep  uint
	RateMax   uint
	GainSnap  bool // gain is set to the nearest table entry

	Freq uint
	Rate uint
	Gain int
	AGC  bool

	Lost bool
	Cur  *Device
	Hist []*Read
}

// Read is one asynchronous read: everything delivered to its callback.
type Read struct {
	ID       int
	Tuner    *Tuner
	Dev      *Device
	Tag      int // session that started it
	StartAt  int64
	Failed   bool // never delivered anything: the start failed
	SyncFail bool // ... and ReadAsync said so: the callback is never called
	Aborted  bool // the driver ended the read on its own; the tuner stays usable
	Bytes    []byte
	Cuts     []int   // cumulative lengths after each completed callback that asked to go on
	CutNS    []int64 // when these callbacks completed
	Given    int     // bytes handed to the callback so far (including one in progress)
	Stopped  bool    // callback asked to stop
	EndedAt  int64   // -1 while active
	NilGiven bool
	LostEnd  bool
	BufSize  int
}

// Active reports whether the read may still deliver.
func (r *Read) Active() bool { return r.EndedAt < 0 }

// Params configure fault injection (per-mille, drawn from F).
type Params struct {
	CallErr      int
	OpenErr      int
	OpenDelay    int64
	StartFail    int
	SyncFail     int   // ReadAsync itself reports the failure
	Abort        int   // a read ends on its own between two transfers
	CloseErr     int   // Close closes the handle but reports an error
	NilAfterTrue bool  // the wrapper also reports the end of a read the callback ended
	NilBefore    bool  // ... before the read is inactive
	Short        int   // transfers shorter than the buffer
	Empty        int   // zero-length transfers
	Tiny         bool  // two-byte transfers (long streams)
	ChunkMax     int   // cap on the transfer length (keeps runs cheap)
	CloseWaits   bool  // Close waits for a running read to end, it does not end it
	Stall        int   // a transfer takes much longer
	CancelLat    int64 // how long a read lingers after the callback asked to stop
	Pace         int64 // ns per transfer (0: by sample rate)
	MaxBytes     int   // per read: afterwards the tuner idles (keeps runs finite)
	KeepBytes    bool
}

// Call is one driver call.
type Call struct {
	At    int64
	Op    string
	Arg   int64
	Res   int64
	Err   bool
	Tag   int
	Tuner *Tuner
	Dev   *Device
}

// Hardware is all simulated tuners of a run.
type Hardware struct {
	S        *simrt.Sim
	P        Params
	Tuners   []*Tuner
	Devices  []*Device
	Reads    []*Read
	OnCall   func(c *Call)
	OnMisuse func(kind string, t *Tuner, tag int, msg string)
	OnData   func(r *Read, n int)
	OnEnd    func(r *Read)
	devID    int
}

// Of returns the hardware of the active simulation.
func Of() *Hardware {
	s := simrt.Active()
	if s == nil {
		return &Hardware{}
	}
	if h, ok := s.Values["rtl"].(*Hardware); ok {
		return h
	}
	h := &Hardware{S: s}
	s.Values["rtl"] = h
	return h
}

func (h *Hardware) chance(pm int) bool { return pm > 0 && h.S.Src.F.Chance(pm, 1000) }

func (h *Hardware) misuse(kind string, t *Tuner, f string, a ...any) {
	tag := 0
	if g := simrt.Current(); g != nil {
		tag = g.Tag
	}
	msg := fmt.Sprintf(f, a...)
	h.S.Event("rtl.misuse", kind, msg)
	if h.OnMisuse != nil {
		h.OnMisuse(kind, t, tag, msg)
	}
}

// Device is an open handle.
type Device struct {
	h       *Hardware
	ID      int
	T       *Tuner
	Tag     int // session that opened it
	Proc    *simrt.Proc
	closed  bool
	closing bool
	Active  *Read // read that may still deliver
	waitq   simrt.WaitQ
	pending int // reads started and not ended
	OpenAt  int64
	CloseAt int64
}

// Closed reports whether the handle has been closed.
func (d *Device) Closed() bool { return d.closed }

// Pending counts reads started and not ended.
func (d *Device) Pending() int { return d.pending }

var (
	errUSB    = errors.New("rtl: usb error")
	errClosed = errors.New("rtl: device is closed")
	errInval  = errors.New("rtl: invalid value")
	errBusy   = errors.New("rtl: device or resource busy")
)

func GetDeviceCount() int { return len(Of().Tuners) }

func GetDeviceName(i int) string {
	h := Of()
	if i < 0 || i >= len(h.Tuners) {
		return ""
	}
	return h.Tuners[i].Name
}

func tag() int {
	if g := simrt.Current(); g != nil {
		return g.Tag
	}
	return 0
}

func (h *Hardware) log(c *Call) {
	c.At = h.S.Now()
	c.Tag = tag()
	h.S.Event("rtl."+c.Op, c.Tuner.Idx, c.Arg, c.Res, c.Err)
	if h.OnCall != nil {
		h.OnCall(c)
	}
}

// Open opens a tuner.
func Open(i int) (*Device, error) {
	if simrt.Dying() {
		return nil, errUSB
	}
	h := Of()
	if i < 0 || i >= len(h.Tuners) {
		return nil, errInval
	}
	t := h.Tuners[i]
	simrt.Point()
	if h.P.OpenDelay > 0 {
		simrt.Sleep(int64(h.S.Src.F.N(int(h.P.OpenDelay))))
	}
	if t.Cur != nil {
		h.misuse("double-open", t, "tuner %d (%s) opened while it is open on behalf of session %d", t.Idx, t.Name, t.Cur.Tag)
		h.log(&Call{Op: "open", Tuner: t, Err: true})
		return nil, errBusy
	}
	if t.Lost || h.chance(h.P.OpenErr) {
		if !t.Lost {
			h.S.Fault("tuner_open_failure")
		}
		h.log(&Call{Op: "open", Tuner: t, Err: true})
		return nil, errUSB
	}
	h.devID++
	d := &Device{h: h, ID: h.devID, T: t, Tag: tag(), Proc: simrt.Current().Proc, OpenAt: h.S.Now(), CloseAt: -1}
	h.Devices = append(h.Devices, d)
	t.Cur = d
	d.Proc.OnDeath = append(d.Proc.OnDeath, func() {
		if !d.closed {
			d.closed = true
			if t.Cur == d {
				t.Cur = nil
			}
		}
		if d.Active != nil {
			d.Active.EndedAt = h.S.Now()
			d.Active = nil
		}
	})
	h.log(&Call{Op: "open", Tuner: t, Dev: d})
	return d, nil
}

func (d *Device) use(op string) bool {
	if simrt.Dying() {
		return false
	}
	simrt.Point()
	_ = d.T // a nil handle crashes here, as it would in the C library
	if d.closed {
		d.h.misuse("use-after-close", d.T, "%s on tuner %d after its handle was closed", op, d.T.Idx)
		return false
	}
	if tg := tag(); tg != d.Tag {
		d.h.misuse("foreign-use", d.T, "%s on tuner %d, which session %d holds, on behalf of session %d", op, d.T.Idx, d.Tag, tg)
	}
	return true
}

// Close closes the handle; it waits for a running read and, with some drivers, ends it.
func (d *Device) Close() error {
	if simrt.Dying() {
		return nil
	}
	simrt.Point()
	if d.closed {
		d.h.misuse("double-close", d.T, "tuner %d: handle closed twice", d.T.Idx)
		return errClosed
	}
	if tg := tag(); tg != d.Tag {
		d.h.misuse("foreign-use", d.T, "Close of tuner %d, which session %d holds, on behalf of session %d", d.T.Idx, d.Tag, tg)
	}
	d.closing = !d.h.P.CloseWaits
	for d.pending > 0 {
		d.h.S.Probe("close_waits_for_read")
		d.waitq.Wait("rtl close", -1)
		if simrt.Dying() {
			return nil
		}
	}
	if d.closed {
		d.h.misuse("double-close", d.T, "tuner %d: handle closed twice", d.T.Idx)
		return errClosed
	}
	d.closed = true
	d.CloseAt = d.h.S.Now()
	if d.T.Cur == d {
		d.T.Cur = nil
	}
	d.h.log(&Call{Op: "close", Tuner: d.T, Dev: d})
	if d.h.chance(d.h.P.CloseErr) {
		d.h.S.Fault("tuner_close_error")
		return errUSB
	}
	return nil
}

func (d *Device) fail(op string, arg int64) bool {
	h := d.h
	if d.T.Lost || h.chance(h.P.CallErr) {
		if !d.T.Lost {
			h.S.Fault("tuner_call_failure:" + op)
		}
		h.log(&Call{Op: op, Arg: arg, Err: true, Tuner: d.T, Dev: d})
		return true
	}
	return false
}

func (d *Device) SetCenterFreq(f uint) error {
	if !d.use("SetCenterFreq") {
		return errClosed
	}
	if f > d.T.FreqMax {
		d.h.log(&Call{Op: "setfreq", Arg: int64(f), Err: true, Tuner: d.T, Dev: d})
		return errInval
	}
	if d.fail("setfreq", int64(f)) {
		return errUSB
	}
	if d.T.FreqStep > 1 {
		d.T.Freq = f / d.T.FreqStep * d.T.FreqStep
	} else {
		d.T.Freq = f
	}
	d.h.log(&Call{Op: "setfreq", Arg: int64(f), Res: int64(d.T.Freq), Tuner: d.T, Dev: d})
	return nil
}

func (d *Device) GetCenterFreq() (uint, error) {
	if !d.use("GetCenterFreq") {
		return 0, errClosed
	}
	if d.fail("getfreq", 0) {
		return 0, errUSB
	}
	d.h.log(&Call{Op: "getfreq", Res: int64(d.T.Freq), Tuner: d.T, Dev: d})
	return d.T.Freq, nil
}

func (d *Device) SetSampleRate(r uint) error {
	if !d.use("SetSampleRate") {
		return errClosed
	}
	if r > d.T.RateMax || r == 0 {
		d.h.log(&Call{Op: "setrate", Arg: int64(r), Err: true, Tuner: d.T, Dev: d})
		return errInval
	}
	if d.fail("setrate", int64(r)) {
		return errUSB
	}
	d.T.Rate = r
	if d.T.RateStep > 1 {
		d.T.Rate = r / d.T.RateStep * d.T.RateStep
	}
	d.h.log(&Call{Op: "setrate", Arg: int64(r), Res: int64(d.T.Rate), Tuner: d.T, Dev: d})
	return nil
}

func (d *Device) GetSampleRate() (int, error) {
	if !d.use("GetSampleRate") {
		return 0, errClosed
	}
	if d.fail("getrate", 0) {
		return 0, errUSB
	}
	d.h.log(&Call{Op: "getrate", Res: int64(d.T.Rate), Tuner: d.T, Dev: d})
	return int(d.T.Rate), nil
}

func (d *Device) SetTunerGain(g int) error {
	if !d.use("SetTunerGain") {
		return errClosed
	}
	if d.fail("setgain", int64(g)) {
		return errUSB
	}
	d.T.Gain = g
	if d.T.GainSnap && len(d.T.Gains) > 0 {
		best := d.T.Gains[0]
		for _, x := range d.T.Gains {
			if abs(x-g) < abs(best-g) {
				best = x
			}
		}
		d.T.Gain = best
	}
	d.h.log(&Call{Op: "setgain", Arg: int64(g), Res: int64(d.T.Gain), Tuner: d.T, Dev: d})
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (d *Device) GetTunerGain() (int, error) {
	if !d.use("GetTunerGain") {
		return 0, errClosed
	}
	if d.fail("getgain", 0) {
		return 0, errUSB
	}
	d.h.log(&Call{Op: "getgain", Res: int64(d.T.Gain), Tuner: d.T, Dev: d})
	return d.T.Gain, nil
}

func (d *Device) GetTunerGains() ([]int, error) {
	if !d.use("GetTunerGains") {
		return nil, errClosed
	}
	if d.fail("getgains", 0) {
		return nil, errUSB
	}
	d.h.log(&Call{Op: "getgains", Res: int64(len(d.T.Gains)), Tuner: d.T, Dev: d})
	return append([]int(nil), d.T.Gains...), nil
}

func (d *Device) SetAGCMode(on bool) error {
	if !d.use("SetAGCMode") {
		return errClosed
	}
	a := int64(0)
	if on {
		a = 1
	}
	if d.fail("setagc", a) {
		return errUSB
	}
	d.T.AGC = on
	d.h.log(&Call{Op: "setagc", Arg: a, Tuner: d.T, Dev: d})
	return nil
}

// SetTunerGainMode selects manual or automatic gain.
func (d *Device) SetTunerGainMode(manual bool) error {
	if !d.use("SetTunerGainMode") {
		return errClosed
	}
	if d.fail("setgainmode", 0) {
		return errUSB
	}
	return nil
}

func (d *Device) GetXtalFreq() (rtl, tuner uint, err error) {
	if !d.use("GetXtalFreq") {
		return 0, 0, errClosed
	}
	if d.fail("getxtal", 0) {
		return 0, 0, errUSB
	}
	d.h.log(&Call{Op: "getxtal", Res: int64(d.T.XtalTuner), Tuner: d.T, Dev: d})
	return d.T.XtalRTL, d.T.XtalTuner, nil
}

func (d *Device) ResetBuffer() error {
	if !d.use("ResetBuffer") {
		return errClosed
	}
	if d.fail("reset", 0) {
		return errUSB
	}
	d.h.log(&Call{Op: "reset", Tuner: d.T, Dev: d})
	return nil
}

// fill writes the sample bytes of a read at an offset: every read has its own sequence.
func fill(b []byte, id, off int) {
	x := uint64(id)*0x9e3779b97f4a7c15 + 12345
	for i := range b {
		p := uint64(off + i)
		z := x + (p>>3)*0xbf58476d1ce4e5b9
		z ^= z >> 29
		z *= 0x94d049bb133111eb
		b[i] = byte(z >> (8 * (p & 7)))
	}
}

// ReadAsync starts an asynchronous read. The callback gets each transfer (nil when the read has
// ended for a reason other than the callback's own wish) and returns true to end the read.
func (d *Device) ReadAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	return d.readAsync(nBuffers, bufferSize, cb)
}

// ReadAsyncUsingSync behaves like ReadAsync.
func (d *Device) ReadAsyncUsingSync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	return d.readAsync(nBuffers, bufferSize, cb)
}

func (d *Device) readAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	if !d.use("ReadAsync") {
		return errClosed
	}
	h := d.h
	s := h.S
	r := &Read{ID: len(h.Reads) + 1, Tuner: d.T, Dev: d, Tag: tag(), StartAt: s.Now(), EndedAt: -1, BufSize: bufferSize}
	h.Reads = append(h.Reads, r)
	d.T.Hist = append(d.T.Hist, r)
	d.pending++
	if h.chance(h.P.SyncFail) {
		s.Fault("stream_start_refused")
		r.Failed, r.SyncFail = true, true
		h.log(&Call{Op: "readasync", Arg: int64(bufferSize), Err: true, Tuner: d.T, Dev: d, Res: int64(r.ID)})
		d.ended(r)
		return errUSB
	}
	r.Failed = d.T.Lost || h.chance(h.P.StartFail)
	if r.Failed {
		s.Fault("stream_start_failure")
	}
	h.log(&Call{Op: "readasync", Arg: int64(bufferSize), Err: r.Failed, Tuner: d.T, Dev: d, Res: int64(r.ID)})
	s.Spawn(simrt.Current().Proc, fmt.Sprintf("rtl-read%d", r.ID), func() { d.pump(r, bufferSize, cb) })
	simrt.Point()
	return nil
}

func (d *Device) ended(r *Read) {
	h := d.h
	if r.EndedAt >= 0 {
		return
	}
	r.EndedAt = h.S.Now()
	if d.Active == r {
		d.Active = nil
	}
	d.pending--
	d.waitq.WakeAll()
	h.S.Event("rtl.readend", r.ID)
	if h.OnEnd != nil {
		h.OnEnd(r)
	}
}

func (d *Device) pump(r *Read, size int, cb func([]byte) bool) {
	h := d.h
	s := h.S
	end := func() { d.ended(r) }
	if r.Failed {
		simrt.Sleep(int64(1000 + s.Src.F.N(200000)))
		r.NilGiven = true
		if h.P.NilBefore {
			cb(nil)
			end()
		} else {
			end()
			cb(nil)
		}
		return
	}
	// a read still being cancelled finishes first
	for d.Active != nil && !d.closing {
		s.Probe("read_queued_behind_cancelling_read")
		d.waitq.Wait("rtl read queue", -1)
	}
	if !d.closing {
		d.Active = r
	}
	buf := make([]byte, size)
	for !d.closing && !d.T.Lost {
		if h.P.MaxBytes > 0 && r.Given >= h.P.MaxBytes {
			// the tuner keeps running, slowly
			simrt.Sleep(50e6)
			if d.closing || d.T.Lost {
				break
			}
		} else {
			dur := h.P.Pace
			if dur == 0 {
				dur = 16e6
			}
			dur = dur/2 + int64(s.Src.F.N(int(dur)))
			if h.chance(h.P.Stall) {
				s.Fault("tuner_stall")
				dur *= 20
			}
			simrt.Sleep(dur)
			if d.closing || d.T.Lost {
				break
			}
		}
		if h.chance(h.P.Abort) {
			s.Fault("read_aborted_by_driver")
			s.Event("rtl.abort", r.ID)
			r.Aborted = true
			break
		}
		n := size
		if h.P.ChunkMax > 0 && n > h.P.ChunkMax {
			n = h.P.ChunkMax
		}
		if h.P.Tiny {
			n = 2
		} else if h.chance(h.P.Empty) {
			s.Fault("empty_transfer")
			n = 0
		} else if h.chance(h.P.Short) {
			s.Fault("short_transfer")
			switch s.Src.F.N(4) {
			case 0:
				n = 2 * (1 + s.Src.F.N(n/2))
			case 1:
				n = 8192
			case 2:
				n = 8190 + 2*s.Src.F.N(3)
			default:
				n = 2 * (1 + s.Src.F.N(64))
			}
			if n > size {
				n = size
			}
		}
		if h.P.MaxBytes > 0 && r.Given >= h.P.MaxBytes && n > 64 {
			n = 64
		}
		b := buf[:n]
		fill(b, r.ID, r.Given)
		r.Bytes = append(r.Bytes, b...)
		r.Given += n
		s.Event("rtl.data", r.ID, n)
		if h.OnData != nil {
			h.OnData(r, n)
		}
		stop := cb(b)
		for i := range b {
			b[i] = 0xA5
		}
		if stop {
			r.Stopped = true
			break
		}
		r.Cuts = append(r.Cuts, r.Given)
		r.CutNS = append(r.CutNS, s.Now())
	}
	r.LostEnd = d.T.Lost && !r.Stopped
	if h.P.CancelLat > 0 {
		simrt.Sleep(int64(s.Src.F.N(int(h.P.CancelLat))))
	}
	nl := !r.Stopped || h.P.NilAfterTrue
	if nl && h.P.NilBefore {
		r.NilGiven = true
		cb(nil)
	}
	end()
	if nl && !h.P.NilBefore {
		r.NilGiven = true
		cb(nil)
	}
}

// Unplug makes the tuner disappear; Replug brings it back.
func (h *Hardware) Unplug(t *Tuner) {
	t.Lost = true
	h.S.Fault("tuner_unplugged")
	h.S.Event("rtl.unplug", t.Idx)
}
func (h *Hardware) Replug(t *Tuner) {
	t.Lost = false
	h.S.Event("rtl.replug", t.Idx)
}
