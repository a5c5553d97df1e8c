// Package signal delivers simulated signals.
package signal

import (
	"os"

	"verif/sim/simlib/context"
	"verif/sim/simrt"
)

type reg struct {
	p    *simrt.Proc
	c    chan<- os.Signal
	sigs []os.Signal
}

func regs() *[]reg {
	s := simrt.Active()
	r, ok := s.Values["signals"].(*[]reg)
	if !ok {
		r = &[]reg{}
		s.Values["signals"] = r
	}
	return r
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if simrt.Active() == nil || simrt.Current() == nil {
		return
	}
	simrt.Point()
	r := regs()
	*r = append(*r, reg{simrt.Current().Proc, c, sig})
}

func Stop(c chan<- os.Signal) {
	r := regs()
	for i := 0; i < len(*r); i++ {
		if (*r)[i].c == c {
			*r = append((*r)[:i:i], (*r)[i+1:]...)
			i--
		}
	}
}
func Ignore(...os.Signal) {}
func Reset(...os.Signal)  {}

// Deliver sends a signal to a process (harness); it reports whether someone is notified of it.
func Deliver(p *simrt.Proc, sig os.Signal) bool {
	hit := false
	for _, x := range *regs() {
		if x.p != p {
			continue
		}
		match := len(x.sigs) == 0
		for _, s := range x.sigs {
			match = match || s == sig
		}
		if match {
			hit = true
			simrt.TrySendQuiet(x.c, sig)
		}
	}
	return hit
}

// NotifyContext returns a context that ends with the first of the signals.
func NotifyContext(p context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(p)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	if simrt.Active() != nil && simrt.Current() != nil {
		simrt.GoCall(func() {
			got := simrt.CaseRecv(c)
			simrt.Select(false, got, simrt.CaseRecv(ctx.Done()))
			cancel()
		})
	}
	return ctx, func() { Stop(c); cancel() }
}
