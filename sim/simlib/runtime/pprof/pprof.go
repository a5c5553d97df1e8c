// Package pprof does nothing under simulation.
package pprof

import "io"

func StartCPUProfile(io.Writer) error  { return nil }
func StopCPUProfile()                  {}
func WriteHeapProfile(io.Writer) error { return nil }
