package dspw

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/samuel/go-dsp/dsp"
	"verif/sim/isa"
	"verif/sim/simrt"
)

// processor is one that this machine does not have. The package's assembler for it runs on a simulated one.
type processor struct {
	w    *world
	arch string
	mode isa.Mode
	name string
}

var progs = map[string]*isa.Prog{}

func (w *world) processor(W *simrt.Stream) *processor {
	p := &processor{w: w, arch: []string{"arm", "arm64", "386"}[W.Weighted(5, 3, 1)]}
	p.name = p.arch
	p.mode.Seed = uint64(W.N(1 << 20))
	p.mode.Vars = map[string]byte{"HaveNEON": 0, "UseVector": 0}
	if p.arch == "arm" {
		if W.N(2) == 1 {
			p.mode.Vars["HaveNEON"], p.name = 1, p.name+" with NEON"
			if W.N(5) == 4 {
				p.mode.Vars["UseVector"], p.name = 1, p.name+" and vectors"
			}
		} else if W.N(2) == 1 {
			p.mode.Vars["UseVector"], p.name = 1, p.name+" with vectors"
		}
	}
	return p
}

// load assembles the package for the processor.
func (p *processor) load() *isa.Prog {
	if prog := progs[p.arch]; prog != nil {
		return prog
	}
	listing, declared, fail := dsp.SimAsm(p.arch)
	if fail != "" {
		p.w.s.Violate(p.w.prop, "build", "%s: %s", p.arch, fail)
		return nil
	}
	prog, err := isa.Load(p.arch, listing)
	if err != nil {
		p.w.s.Probe("not simulated: " + err.Error())
		return nil
	}
	prog.Declared = declared
	progs[p.arch] = prog
	return prog
}

// other is a function of the package as the processor has it, or f if that cannot be simulated.
func other[F any](p *processor, name string, f F) F {
	s := p.w.s
	bad := func(class, msg string) F {
		s.Violate(p.w.prop, class, "%s on %s: %s", name, p.name, msg)
		return f
	}
	prog := p.load()
	if prog == nil {
		return f
	}
	t := reflect.TypeOf(f)
	if !prog.Has(name) {
		if prog.Declares(name) {
			return bad("missing", "it has no body, a program that uses it cannot be linked")
		}
		s.Probe("not simulated: " + p.arch + " has no assembler for " + name)
		return f
	}
	s.Probe("processor: " + p.name)
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		res, err := prog.Call(name, t, args, dsp.SimUnexported(), p.mode)
		var fault *isa.Fault
		switch {
		case errors.As(err, &fault):
			bad(fault.Kind, fault.Msg)
		case err != nil:
			s.Probe(fmt.Sprintf("not simulated: %v", err))
		default:
			return res
		}
		return reflect.ValueOf(f).Call(args)
	}).Interface().(F)
}

// crossing is 1 if the processors are what a run is about.
func (w *world) crossing() int {
	if w.prop == "D10" {
		return 1
	}
	return 0
}

// complete looks whether an architecture has all the functions the package needs there.
func (w *world) complete(W *simrt.Stream) bool {
	p := w.processor(W)
	all := dsp.SimSystems()
	if sys := all[W.N(len(all))]; sys[1] != "" {
		w.s.Violate(w.prop, "build", "%s: %s", sys[0], sys[1])
		return false
	}
	prog := p.load()
	if prog == nil {
		return len(w.s.Violations) == 0
	}
	for _, f := range prog.Declared {
		if !prog.Has(f) {
			w.s.Violate(w.prop, "missing", "%s on %s: it has no body, a program that uses it cannot be linked", f, p.arch)
			return false
		}
	}
	return true
}

// on is f as processor p has it under the unexported name; no processor, or no such function, is f itself.
func on[F any](p *processor, name string, f F) F {
	if p == nil {
		return f
	}
	if g, ok := dsp.SimUnexported()[name].(F); ok {
		return other(p, name, g)
	}
	p.w.s.Probe("not simulated: no function " + name)
	return f
}
