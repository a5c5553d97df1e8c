// Package zzproc lists the instrumented packages for other systems. The instrumenter overlays this file.
package zzproc

// Package is an instrumented package.
type Package struct {
	Reset  func()
	Vars   map[string]any // pointers
	Extern map[string]any // pointers to what stands for functions without a body
	Funcs  map[string]any
}

// System is an operating system on an architecture, and the packages for it.
type System struct {
	Sys      string
	CPU, DSP *Package
}

// Systems are filled in when the repository is instrumented.
var Systems []*System
