// Package os is the simulated operating system: files live in memory, per simulation.
package os

import (
	"io"
	"io/fs"
	realos "os"
	"syscall"
	"time"

	"verif/sim/simrt"
)

type (
	Signal       = realos.Signal
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	PathError    = fs.PathError
	SyscallError = realos.SyscallError
	DirEntry     = fs.DirEntry
)

const (
	O_RDONLY = realos.O_RDONLY
	O_WRONLY = realos.O_WRONLY
	O_RDWR   = realos.O_RDWR
	O_APPEND = realos.O_APPEND
	O_CREATE = realos.O_CREATE
	O_EXCL   = realos.O_EXCL
	O_TRUNC  = realos.O_TRUNC
	O_SYNC   = realos.O_SYNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm      = fs.ModePerm
	PathSeparator = '/'
	DevNull       = "/dev/null"
)

var (
	Interrupt           = realos.Interrupt
	Kill                = realos.Kill
	ErrNotExist         = fs.ErrNotExist
	ErrExist            = fs.ErrExist
	ErrPermission       = fs.ErrPermission
	ErrClosed           = fs.ErrClosed
	ErrInvalid          = fs.ErrInvalid
	ErrDeadlineExceeded = realos.ErrDeadlineExceeded
	Stdin               = &File{name: "/dev/stdin", std: 0}
	Stdout              = &File{name: "/dev/stdout", std: 1}
	Stderr              = &File{name: "/dev/stderr", std: 2}
	Args                = []string{"prog"}
)

func IsNotExist(e error) bool                 { return realos.IsNotExist(e) }
func IsExist(e error) bool                    { return realos.IsExist(e) }
func IsTimeout(e error) bool                  { return realos.IsTimeout(e) }
func IsPermission(e error) bool               { return realos.IsPermission(e) }
func NewSyscallError(c string, e error) error { return realos.NewSyscallError(c, e) }

// Disk is the simulated file system of a run. Reader, if set, decides how much each read returns.
type Disk struct {
	Files map[string]*Inode
	Stdin *Inode
	// ReadN maps (available, asked) to the number of bytes a read returns (0 allowed) or an error.
	ReadN func(name string, avail, asked int) (int, error)
	// WriteErr decides whether a write fails after n bytes.
	WriteN func(name string, asked int) (int, error)
	Fail   func(op, name string) error
	Open   int
	Env    map[string]string
}

// Inode is the content of a file, and the part of it that survives a power failure.
type Inode struct{ Data, Durable []byte }

// DiskOf returns the disk of the active simulation.
func DiskOf() *Disk {
	s := simrt.Active()
	if s == nil {
		return &Disk{Files: map[string]*Inode{}}
	}
	if d, ok := s.Values["disk"].(*Disk); ok {
		return d
	}
	d := &Disk{Files: map[string]*Inode{}}
	s.Values["disk"] = d
	return d
}

// File is an open simulated file.
type File struct {
	name   string
	std    int
	isFile bool
	ino    *Inode
	pos    int
	flag   int
	closed bool
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.std) }

func (f *File) inode() *Inode {
	if f.isFile {
		return f.ino
	}
	if f.std == 0 {
		return DiskOf().Stdin
	}
	return nil
}

// stdin position is per simulation
func (f *File) posp() *int {
	if f.isFile {
		return &f.pos
	}
	s := simrt.Active()
	if s == nil {
		return &f.pos
	}
	p, ok := s.Values["stdinpos"].(*int)
	if !ok {
		p = new(int)
		s.Values["stdinpos"] = p
	}
	return p
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	simrt.Point()
	if f.closed {
		return 0, &PathError{Op: "read", Path: f.name, Err: ErrClosed}
	}
	ino := f.inode()
	if ino == nil {
		return 0, io.EOF
	}
	p := f.posp()
	avail := len(ino.Data) - *p
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	d := DiskOf()
	if d.ReadN != nil {
		k, err := d.ReadN(f.name, avail, n)
		if err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
		if k < n {
			n = k
		}
	}
	if avail <= 0 {
		return 0, io.EOF
	}
	if n > avail {
		n = avail
	}
	copy(b, ino.Data[*p:*p+n])
	*p += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	ino := f.inode()
	if ino == nil || int(off) >= len(ino.Data) {
		return 0, io.EOF
	}
	n := copy(b, ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	simrt.Point()
	if f.closed {
		return 0, &PathError{Op: "write", Path: f.name, Err: ErrClosed}
	}
	if !f.isFile {
		g := simrt.Current()
		if g == nil || simrt.Dying() {
			return len(b), nil
		}
		if f.std == 1 {
			g.Proc.Stdout = append(g.Proc.Stdout, b...)
		} else if len(g.Proc.Stderr) < 1<<16 {
			g.Proc.Stderr = append(g.Proc.Stderr, b...)
		}
		return len(b), nil
	}
	n := len(b)
	var err error
	if d := DiskOf(); d.WriteN != nil {
		n, err = d.WriteN(f.name, n)
	}
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.ino.Data)
	}
	for len(f.ino.Data) < f.pos+n {
		f.ino.Data = append(f.ino.Data, 0)
	}
	copy(f.ino.Data[f.pos:], b[:n])
	f.pos += n
	if err != nil {
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	return n, nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	case 2:
		f.pos = len(f.ino.Data) + int(off)
	}
	return int64(f.pos), nil
}
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "sync", Path: f.name, Err: ErrClosed}
	}
	simrt.Point()
	if d := DiskOf(); d.Fail != nil {
		if err := d.Fail("sync", f.name); err != nil {
			return &PathError{Op: "sync", Path: f.name, Err: err}
		}
	}
	if f.isFile {
		f.ino.Durable = append([]byte(nil), f.ino.Data...)
	}
	return nil
}
func (f *File) SetDeadline(time.Time) error     { return nil }
func (f *File) SetReadDeadline(time.Time) error { return nil }
func (f *File) Truncate(n int64) error          { f.ino.Data = f.ino.Data[:n]; return nil }
func (f *File) Close() error {
	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	f.closed = true
	if f.isFile && simrt.Active() != nil {
		DiskOf().Open--
	}
	return nil
}

func OpenFile(name string, flag int, _ FileMode) (*File, error) {
	simrt.Point()
	d := DiskOf()
	if d.Fail != nil {
		if err := d.Fail("open", name); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
	ino := d.Files[name]
	if ino == nil {
		if flag&O_CREATE == 0 {
			return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		ino = &Inode{}
		d.Files[name] = ino
	}
	if flag&O_TRUNC != 0 {
		ino.Data = nil
	}
	d.Open++
	return &File{name: name, isFile: true, ino: ino, flag: flag}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func Remove(name string) error {
	d := DiskOf()
	if d.Files[name] == nil {
		return &PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	delete(d.Files, name)
	return nil
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, b []byte, m FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(b)
	return err
}

func Exit(code int)          { simrt.Exit(code) }
func Getenv(k string) string { return DiskOf().Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := DiskOf().Env[k]
	return v, ok
}
func Environ() []string           { return nil }
func Setenv(string, string) error { return nil }
func Hostname() (string, error)   { return "sim", nil }
func Getpid() int                 { return 1000 }
func Getwd() (string, error)      { return "/", nil }
func TempDir() string             { return "/tmp" }
