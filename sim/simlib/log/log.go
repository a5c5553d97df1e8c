// Package log writes to the simulated process's standard error.
package log

import (
	"fmt"
	"io"
	reallog "log"

	"verif/sim/simrt"
)

const (
	Ldate         = reallog.Ldate
	Ltime         = reallog.Ltime
	Lmicroseconds = reallog.Lmicroseconds
	Llongfile     = reallog.Llongfile
	Lshortfile    = reallog.Lshortfile
	LUTC          = reallog.LUTC
	Lmsgprefix    = reallog.Lmsgprefix
	LstdFlags     = reallog.LstdFlags
)

type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{flags: LstdFlags}

func New(w io.Writer, prefix string, flags int) *Logger {
	return &Logger{w: w, prefix: prefix, flags: flags}
}
func Default() *Logger { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	s = l.prefix + s
	if l.w != nil {
		l.w.Write([]byte(s))
		return
	}
	g := simrt.Current()
	if g == nil || simrt.Dying() {
		return
	}
	simrt.Point()
	if len(g.Proc.Stderr) < 1<<16 {
		g.Proc.Stderr = append(g.Proc.Stderr, s...)
	}
	simrt.Active().Tracef("log %s: %s", g.Proc.Name, s[:len(s)-1])
}
func (l *Logger) Printf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...any)             { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Print(a ...any)               { l.out(fmt.Sprint(a...)) }
func (l *Logger) Fatalf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)); simrt.Exit(1) }
func (l *Logger) Fatalln(a ...any)             { l.out(fmt.Sprintln(a...)); simrt.Exit(1) }
func (l *Logger) Fatal(a ...any)               { l.out(fmt.Sprint(a...)); simrt.Exit(1) }
func (l *Logger) Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); l.out(s); panic(s) }
func (l *Logger) Panicln(a ...any)             { s := fmt.Sprintln(a...); l.out(s); panic(s) }
func (l *Logger) Panic(a ...any)               { s := fmt.Sprint(a...); l.out(s); panic(s) }
func (l *Logger) Output(_ int, s string) error { l.out(s); return nil }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) SetOutput(w io.Writer)        { l.w = w }

func Printf(f string, a ...any)    { std.Printf(f, a...) }
func Println(a ...any)             { std.Println(a...) }
func Print(a ...any)               { std.Print(a...) }
func Fatalf(f string, a ...any)    { std.Fatalf(f, a...) }
func Fatalln(a ...any)             { std.Fatalln(a...) }
func Fatal(a ...any)               { std.Fatal(a...) }
func Panicf(f string, a ...any)    { std.Panicf(f, a...) }
func Panicln(a ...any)             { std.Panicln(a...) }
func Panic(a ...any)               { std.Panic(a...) }
func Output(d int, s string) error { return std.Output(d, s) }
func SetPrefix(string)             {}
func SetFlags(int)                 {}
func SetOutput(io.Writer)          {}
func Flags() int                   { return LstdFlags }
func Prefix() string               { return "" }

func Writer() io.Writer             { return std.w }
func (l *Logger) Writer() io.Writer { return l.w }
