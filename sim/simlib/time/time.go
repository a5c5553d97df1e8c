// Package time is simulated time.
package time

import (
	realtime "time"

	simnet "verif/sim/simlib/net"
	"verif/sim/simrt"
)

type (
	Time       = realtime.Time
	Duration   = realtime.Duration
	Month      = realtime.Month
	Weekday    = realtime.Weekday
	Location   = realtime.Location
	ParseError = realtime.ParseError
)

const (
	Nanosecond  = realtime.Nanosecond
	Microsecond = realtime.Microsecond
	Millisecond = realtime.Millisecond
	Second      = realtime.Second
	Minute      = realtime.Minute
	Hour        = realtime.Hour
	RFC3339     = realtime.RFC3339
	RFC3339Nano = realtime.RFC3339Nano
	RFC1123     = realtime.RFC1123
	RFC822      = realtime.RFC822
	ANSIC       = realtime.ANSIC
	UnixDate    = realtime.UnixDate
	Kitchen     = realtime.Kitchen
	Stamp       = realtime.Stamp
	StampMicro  = realtime.StampMicro
	StampMilli  = realtime.StampMilli
	DateTime    = realtime.DateTime
	DateOnly    = realtime.DateOnly
	TimeOnly    = realtime.TimeOnly
	January     = realtime.January
	December    = realtime.December
	February    = realtime.February
	March       = realtime.March
	April       = realtime.April
	May         = realtime.May
	June        = realtime.June
	July        = realtime.July
	August      = realtime.August
	September   = realtime.September
	October     = realtime.October
	November    = realtime.November
	Sunday      = realtime.Sunday
	Monday      = realtime.Monday
	Tuesday     = realtime.Tuesday
	Wednesday   = realtime.Wednesday
	Thursday    = realtime.Thursday
	Friday      = realtime.Friday
	Saturday    = realtime.Saturday
	Layout      = realtime.Layout
	RFC850      = realtime.RFC850
	RFC1123Z    = realtime.RFC1123Z
	RFC822Z     = realtime.RFC822Z
	RubyDate    = realtime.RubyDate
	StampNano   = realtime.StampNano
)

var (
	UTC   = realtime.UTC
	Local = realtime.UTC
)

func Now() Time {
	if s := simrt.Active(); s != nil {
		return simnet.Epoch.Add(Duration(s.Now()))
	}
	return simnet.Epoch
}
func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Sleep(d Duration)       { simrt.Point(); simrt.Sleep(int64(d)) }
func Unix(s, n int64) Time   { return realtime.Unix(s, n).UTC() }
func UnixMilli(n int64) Time { return realtime.UnixMilli(n).UTC() }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return realtime.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)          { return realtime.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return realtime.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return realtime.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return realtime.LoadLocation(n) }

type Timer struct {
	C  <-chan Time
	c  chan Time
	t  *simrt.Timer
	f  func()
	pr *simrt.Proc
}

func (t *Timer) arm(d Duration) {
	s := simrt.Active()
	if s == nil {
		return
	}
	if t.f != nil {
		p := t.pr
		t.t = s.After(int64(d), func() {
			if !p.Dead {
				s.Spawn(p, "time.AfterFunc", t.f)
			}
		})
		return
	}
	t.t = s.After(int64(d), func() { simrt.TrySendQuiet(t.c, Now()) })
}
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	if g := simrt.Current(); g != nil {
		t.pr = g.Proc
	}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	simrt.Point()
	if s := simrt.Active(); s != nil {
		return s.Cancel(t.t)
	}
	return false
}
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	t    *simrt.Timer
	stop bool
}

func (t *Ticker) arm() {
	s := simrt.Active()
	if s == nil {
		return
	}
	t.t = s.After(int64(t.d), func() {
		if t.stop {
			return
		}
		simrt.TrySendQuiet(t.c, Now())
		t.arm()
	})
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) Stop() {
	t.stop = true
	if s := simrt.Active(); s != nil {
		s.Cancel(t.t)
	}
}
func (t *Ticker) Reset(d Duration) { t.Stop(); t.stop = false; t.d = d; t.arm() }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }

func UnixMicro(n int64) Time { return realtime.UnixMicro(n).UTC() }
func ParseInLocation(layout, v string, l *Location) (Time, error) {
	return realtime.ParseInLocation(layout, v, l)
}
