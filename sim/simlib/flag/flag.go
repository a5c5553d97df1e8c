// Package flag keeps one command line per simulated process.
package flag

import (
	realflag "flag"
	"time"

	"verif/sim/simrt"
)

type (
	FlagSet       = realflag.FlagSet
	Flag          = realflag.Flag
	Value         = realflag.Value
	ErrorHandling = realflag.ErrorHandling
)

const (
	ContinueOnError = realflag.ContinueOnError
	ExitOnError     = realflag.ExitOnError
	PanicOnError    = realflag.PanicOnError
)

var ErrHelp = realflag.ErrHelp
var Usage = func() {}

func cl() *FlagSet {
	g := simrt.Current()
	if g == nil {
		return realflag.NewFlagSet("scratch", ContinueOnError)
	}
	if g.Proc.Env == nil {
		g.Proc.Env = map[string]any{}
	}
	f, ok := g.Proc.Env["flags"].(*FlagSet)
	if !ok {
		f = realflag.NewFlagSet(g.Proc.Name, ContinueOnError)
		g.Proc.Env["flags"] = f
	}
	return f
}

func NewFlagSet(n string, e ErrorHandling) *FlagSet                     { return realflag.NewFlagSet(n, ContinueOnError) }
func Bool(n string, v bool, u string) *bool                             { return cl().Bool(n, v, u) }
func Int(n string, v int, u string) *int                                { return cl().Int(n, v, u) }
func Uint(n string, v uint, u string) *uint                             { return cl().Uint(n, v, u) }
func Int64(n string, v int64, u string) *int64                          { return cl().Int64(n, v, u) }
func String(n, v, u string) *string                                     { return cl().String(n, v, u) }
func Float64(n string, v float64, u string) *float64                    { return cl().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration       { return cl().Duration(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                       { cl().BoolVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)                          { cl().IntVar(p, n, v, u) }
func StringVar(p *string, n, v, u string)                               { cl().StringVar(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) { cl().DurationVar(p, n, v, u) }
func Float64Var(p *float64, n string, v float64, u string)              { cl().Float64Var(p, n, v, u) }
func Var(v Value, n, u string)                                          { cl().Var(v, n, u) }

// Parse parses the process's arguments (Env["args"]).
func Parse() {
	var args []string
	if g := simrt.Current(); g != nil {
		args, _ = g.Proc.Env["args"].([]string)
	}
	if err := cl().Parse(args); err != nil {
		simrt.Exit(2)
	}
}
func Parsed() bool     { return cl().Parsed() }
func Args() []string   { return cl().Args() }
func NArg() int        { return cl().NArg() }
func Arg(i int) string { return cl().Arg(i) }
func PrintDefaults()   {}
