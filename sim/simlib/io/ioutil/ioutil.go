// Package ioutil is io/ioutil on the simulated file system.
package ioutil

import (
	"io"
	iofs "io/fs"

	"verif/sim/simlib/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                 { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                 { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)                { return os.ReadFile(name) }
func WriteFile(n string, b []byte, m iofs.FileMode) error { return os.WriteFile(n, b, m) }
