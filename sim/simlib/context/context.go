// Package context is context over simulated channels and time.
package context

import (
	realctx "context"
	"time"

	simtime "verif/sim/simlib/time"
	"verif/sim/simrt"
)

type (
	Context         = realctx.Context
	CancelFunc      = realctx.CancelFunc
	CancelCauseFunc = realctx.CancelCauseFunc
)

var (
	Canceled         = realctx.Canceled
	DeadlineExceeded = realctx.DeadlineExceeded
)

func Background() Context                   { return realctx.Background() }
func TODO() Context                         { return realctx.TODO() }
func WithValue(p Context, k, v any) Context { return realctx.WithValue(p, k, v) }

type cctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	dl       time.Time
	hasDL    bool
	children []*cctx
	timer    *simtime.Timer
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.Context.Deadline()
}

type ckey struct{}

func (c *cctx) Value(k any) any {
	if k == (ckey{}) {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) cancel(e error) {
	if c.err != nil {
		return
	}
	c.err = e
	simrt.CloseQuiet(c.done)
	for _, x := range c.children {
		x.cancel(e)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}
func WithCancel(p Context) (Context, CancelFunc) {
	c := &cctx{Context: p, done: make(chan struct{})}
	if pc, ok := p.Value(ckey{}).(*cctx); ok {
		if pc.err != nil {
			c.cancel(pc.err)
		} else {
			pc.children = append(pc.children, c)
		}
	}
	return c, func() { simrt.Point(); c.cancel(Canceled) }
}
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	x, cf := WithCancel(p)
	c := x.(*cctx)
	c.dl, c.hasDL = d, true
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		c.dl = pd
	}
	c.timer = simtime.AfterFunc(simtime.Until(d), func() { c.cancel(DeadlineExceeded) })
	return c, cf
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, simtime.Now().Add(d))
}
func AfterFunc(ctx Context, f func()) func() bool {
	stopped := false
	simrt.GoCall(func() {
		simrt.Recv(ctx.Done())
		if !stopped {
			f()
		}
	})
	return func() bool { r := !stopped; stopped = true; return r }
}

func Cause(c Context) error {
	if x, ok := c.Value(ckey{}).(*cctx); ok && x.cause != nil {
		return x.cause
	}
	return c.Err()
}
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	x, _ := WithCancel(p)
	c := x.(*cctx)
	return c, func(e error) {
		simrt.Point()
		if c.err == nil {
			c.cause = e
			c.cancel(Canceled)
		}
	}
}
func WithoutCancel(p Context) Context { return realctx.WithoutCancel(p) }
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, simtime.Now().Add(d), cause)
}
func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	x, cf := WithCancel(p)
	c := x.(*cctx)
	c.dl, c.hasDL = d, true
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		c.dl = pd
	}
	c.timer = simtime.AfterFunc(simtime.Until(d), func() {
		if c.err == nil {
			c.cause = cause
		}
		c.cancel(DeadlineExceeded)
	})
	return c, cf
}
