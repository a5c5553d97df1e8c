// Package fmt formats as usual; printing goes to the simulated process's standard output.
package fmt

import (
	realfmt "fmt"
	"io"

	simos "verif/sim/simlib/os"
)

type (
	Stringer   = realfmt.Stringer
	GoStringer = realfmt.GoStringer
	Formatter  = realfmt.Formatter
	State      = realfmt.State
	Scanner    = realfmt.Scanner
	ScanState  = realfmt.ScanState
)

func Sprintf(f string, a ...any) string                    { return realfmt.Sprintf(f, a...) }
func Sprint(a ...any) string                               { return realfmt.Sprint(a...) }
func Sprintln(a ...any) string                             { return realfmt.Sprintln(a...) }
func Errorf(f string, a ...any) error                      { return realfmt.Errorf(f, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return realfmt.Fprintf(w, f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return realfmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return realfmt.Fprintln(w, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return realfmt.Appendf(b, f, a...) }
func Append(b []byte, a ...any) []byte                     { return realfmt.Append(b, a...) }
func Appendln(b []byte, a ...any) []byte                   { return realfmt.Appendln(b, a...) }
func Sscanf(s, f string, a ...any) (int, error)            { return realfmt.Sscanf(s, f, a...) }
func Sscan(s string, a ...any) (int, error)                { return realfmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)              { return realfmt.Sscanln(s, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { return realfmt.Fscanf(r, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return realfmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return realfmt.Fscanln(r, a...) }
func Printf(f string, a ...any) (int, error)               { return realfmt.Fprintf(simos.Stdout, f, a...) }
func Print(a ...any) (int, error)                          { return realfmt.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)                        { return realfmt.Fprintln(simos.Stdout, a...) }
func Scan(a ...any) (int, error)                           { return realfmt.Fscan(simos.Stdin, a...) }
func Scanln(a ...any) (int, error)                         { return realfmt.Fscanln(simos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)                { return realfmt.Fscanf(simos.Stdin, f, a...) }
