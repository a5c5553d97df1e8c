// Package net is the simulated network that instrumented code is linked with instead of net.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	realnet "net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/sim/simrt"
)

type (
	Addr                = realnet.Addr
	Conn                = realnet.Conn
	PacketConn          = realnet.PacketConn
	Listener            = realnet.Listener
	Error               = realnet.Error
	OpError             = realnet.OpError
	AddrError           = realnet.AddrError
	ParseError          = realnet.ParseError
	DNSError            = realnet.DNSError
	InvalidAddrError    = realnet.InvalidAddrError
	UnknownNetworkError = realnet.UnknownNetworkError
	UDPAddr             = realnet.UDPAddr
	TCPAddr             = realnet.TCPAddr
	IPAddr              = realnet.IPAddr
	IP                  = realnet.IP
	IPMask              = realnet.IPMask
	IPNet               = realnet.IPNet
	HardwareAddr        = realnet.HardwareAddr
	Flags               = realnet.Flags
)

const (
	IPv4len = realnet.IPv4len
	IPv6len = realnet.IPv6len
)

var (
	ErrClosed           = realnet.ErrClosed
	ErrWriteToConnected = realnet.ErrWriteToConnected
	IPv4zero            = realnet.IPv4zero
	IPv4bcast           = realnet.IPv4bcast
	IPv6zero            = realnet.IPv6zero
	IPv6loopback        = realnet.IPv6loopback
	IPv6unspecified     = realnet.IPv6unspecified
)

func ParseIP(s string) IP                              { return realnet.ParseIP(s) }
func ParseCIDR(s string) (IP, *IPNet, error)           { return realnet.ParseCIDR(s) }
func ParseMAC(s string) (HardwareAddr, error)          { return realnet.ParseMAC(s) }
func IPv4(a, b, c, d byte) IP                          { return realnet.IPv4(a, b, c, d) }
func IPv4Mask(a, b, c, d byte) IPMask                  { return realnet.IPv4Mask(a, b, c, d) }
func CIDRMask(ones, bits int) IPMask                   { return realnet.CIDRMask(ones, bits) }
func JoinHostPort(h, p string) string                  { return realnet.JoinHostPort(h, p) }
func SplitHostPort(hp string) (string, string, error)  { return realnet.SplitHostPort(hp) }
func UDPAddrFromAddrPort(addr netip.AddrPort) *UDPAddr { return realnet.UDPAddrFromAddrPort(addr) }
func TCPAddrFromAddrPort(addr netip.AddrPort) *TCPAddr { return realnet.TCPAddrFromAddrPort(addr) }

// Params configure the network of a run. Everything probabilistic is per-mille and drawn from F.
type Params struct {
	LatMin, LatMax int64 // ns, per segment / datagram
	Frag           int   // per-mille chance that a TCP write is cut into small segments
	ShortRead      int   // per-mille chance that a TCP read returns less than available
	Window         int   // TCP receive window
	AcceptErr      int   // per-mille: Accept reports a transient error
	DialErr        int   // per-mille: outgoing TCP connect fails
	UDPDialErr     int   // per-mille: UDP socket creation fails
	UDPSendErr     int   // per-mille: a UDP send fails locally
	Loss, Dup      int   // per-mille, datagrams
	Reorder        int   // per-mille: a datagram gets a much longer delay
	ICMP           bool  // datagrams to closed ports bounce (connection refused on a later send)
	RcvBuf         int   // bytes of datagrams queued per socket
}

// Network is the network of one simulation.
type Network struct {
	S         *simrt.Sim
	P         Params
	listeners []*TCPListener
	udp       []*UDPConn
	Conns     []*TCPConn
	UDPs      []*UDPConn
	nextPort  int
	DNS       map[string]string // name -> ip; unknown names fail
	nid       int
	Reliable  map[*simrt.Proc]bool // processes whose datagram sockets never fail locally

	OnAccept   func(c *TCPConn)
	OnTCPWrite func(c *TCPConn, b []byte)
	OnTCPRead  func(c *TCPConn, b []byte)
	OnTCPClose func(c *TCPConn)
	OnTCPDial  func(c *TCPConn)
	OnTCPFail  func(c *TCPConn) // a write failed although this end is open
	OnUDPFail  func()           // a socket could not be made
	OnUDPOpen  func(c *UDPConn)
	OnUDPClose func(c *UDPConn)
	OnUDPRecv  func(c *UDPConn, b []byte)
	OnUDPSend  func(c *UDPConn, to *UDPAddr, b []byte, err error)
}

// Of returns the network of the active simulation.
func Of() *Network {
	s := simrt.Active()
	if s == nil {
		panic("simnet: no simulation")
	}
	if n, ok := s.Values["net"].(*Network); ok {
		return n
	}
	n := &Network{S: s, nextPort: 40000, DNS: map[string]string{}, P: Params{Window: 65536, RcvBuf: 1 << 20, LatMin: 1000, LatMax: 1000}}
	s.Values["net"] = n
	return n
}

func (n *Network) lat() int64 {
	if n.P.LatMax <= n.P.LatMin {
		return n.P.LatMin
	}
	return n.P.LatMin + int64(n.S.Src.F.N(int(n.P.LatMax-n.P.LatMin+1)))
}

func (n *Network) chance(pm int) bool { return pm > 0 && n.S.Src.F.Chance(pm, 1000) }

func curProc() *simrt.Proc {
	if g := simrt.Current(); g != nil {
		return g.Proc
	}
	return nil
}

func procIP(p *simrt.Proc) IP {
	if p == nil || p.IP == "" {
		return realnet.IPv4(127, 0, 0, 1)
	}
	return realnet.ParseIP(p.IP)
}

func (n *Network) ephemeral() int { n.nextPort++; return n.nextPort }

func sysErr(call string, e error) error { return os.NewSyscallError(call, e) }

type timeoutError struct{}

func (timeoutError) Error() string        { return "i/o timeout" }
func (timeoutError) Timeout() bool        { return true }
func (timeoutError) Temporary() bool      { return true }
func (timeoutError) Is(target error) bool { return target == os.ErrDeadlineExceeded }

// ---------------------------------------------------------------- name resolution

func lookupPort(network, service string) (int, error) {
	if service == "" {
		return 0, nil
	}
	if p, err := strconv.Atoi(service); err == nil {
		if p < 0 || p > 65535 {
			return 0, &AddrError{Err: "invalid port", Addr: service}
		}
		return p, nil
	}
	switch strings.ToLower(service) {
	case "domain":
		return 53, nil
	case "http":
		return 80, nil
	}
	return 0, &DNSError{Err: "unknown port", Name: network + "/" + service, IsNotFound: true}
}

func resolve(network, address string) (ip IP, zone string, port int, err error) {
	host, ps, err := SplitHostPort(address)
	if err != nil {
		return nil, "", 0, err
	}
	if port, err = lookupPort(network, ps); err != nil {
		return nil, "", 0, err
	}
	if host == "" {
		return nil, "", port, nil
	}
	h := host
	if i := strings.LastIndexByte(h, '%'); i > 0 && strings.Contains(h, ":") {
		h, zone = h[:i], h[i+1:]
	}
	if ip = realnet.ParseIP(h); ip != nil {
		if ip4 := ip.To4(); ip4 != nil {
			ip = ip4
			if strings.HasSuffix(network, "6") {
				return nil, "", 0, &AddrError{Err: "no suitable address found", Addr: host}
			}
		} else if strings.HasSuffix(network, "4") {
			return nil, "", 0, &AddrError{Err: "no suitable address found", Addr: host}
		}
		return ip, zone, port, nil
	}
	n := Of()
	simrt.Point()
	simrt.Sleep(n.lat())
	if host == "localhost" {
		return realnet.IPv4(127, 0, 0, 1).To4(), "", port, nil
	}
	a, ok := n.DNS[host]
	if !ok {
		n.S.Fault("dns_failure")
		return nil, "", 0, &DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	ip = realnet.ParseIP(a)
	if ip4 := ip.To4(); ip4 != nil {
		ip = ip4
	}
	return ip, "", port, nil
}

func badNet(network string, base string) error {
	switch network {
	case base, base + "4", base + "6":
		return nil
	}
	return UnknownNetworkError(network)
}

func ResolveUDPAddr(network, address string) (*UDPAddr, error) {
	if network == "" {
		network = "udp"
	}
	if err := badNet(network, "udp"); err != nil {
		return nil, err
	}
	ip, z, p, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	return &UDPAddr{IP: ip, Zone: z, Port: p}, nil
}

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	if network == "" {
		network = "tcp"
	}
	if err := badNet(network, "tcp"); err != nil {
		return nil, err
	}
	ip, z, p, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	return &TCPAddr{IP: ip, Zone: z, Port: p}, nil
}

func ResolveIPAddr(network, address string) (*IPAddr, error) {
	ip, z, _, err := resolve("ip", address+":0")
	if err != nil {
		return nil, err
	}
	return &IPAddr{IP: ip, Zone: z}, nil
}

func LookupHost(host string) ([]string, error) {
	ip, _, _, err := resolve("tcp", host+":0")
	if err != nil {
		return nil, err
	}
	return []string{ip.String()}, nil
}

func LookupIP(host string) ([]IP, error) {
	ip, _, _, err := resolve("tcp", host+":0")
	if err != nil {
		return nil, err
	}
	return []IP{ip}, nil
}

func LookupPort(network, service string) (int, error) { return lookupPort(network, service) }

// ---------------------------------------------------------------- TCP

type half struct { // data flowing towards one end
	buf      []byte
	inflight int
	lastAt   int64
	eof      bool
	rst      bool
	rq       simrt.WaitQ
	wq       simrt.WaitQ
}

// TCPConn is one end of a simulated TCP connection.
type TCPConn struct {
	N             *Network
	ID            int
	Proc          *simrt.Proc
	local, remote *TCPAddr
	in            half
	peer          *TCPConn
	closed        bool
	wclosed       bool
	linger0       bool
	rdl, wdl      int64 // deadlines (simulated ns); -1 none
	Server        bool  // accepted end
	BytesIn       int
	BytesOut      int
	Tag           int // session number of an accepted connection: tasks that use it inherit it
	User          any // for the monitor
	failWrites    error
	failAfter     int // bytes still taken before the failure
}

func (c *TCPConn) own() {
	if c.Tag != 0 {
		if g := simrt.Current(); g != nil && g.Proc == c.Proc {
			g.Tag = c.Tag
		}
	}
}

func (c *TCPConn) opErr(op string, err error) error {
	return &OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (n *Network) newPair(cp, sp *simrt.Proc, ca, sa *TCPAddr) (*TCPConn, *TCPConn) {
	n.nid++
	c := &TCPConn{N: n, ID: n.nid * 2, Proc: cp, local: ca, remote: sa, rdl: -1, wdl: -1}
	s := &TCPConn{N: n, ID: n.nid*2 + 1, Proc: sp, local: sa, remote: ca, rdl: -1, wdl: -1, Server: true}
	c.peer, s.peer = s, c
	n.Conns = append(n.Conns, c, s)
	for _, x := range []*TCPConn{c, s} {
		x := x
		x.Proc.OnDeath = append(x.Proc.OnDeath, func() {
			if !x.closed {
				x.markClosed()
				x.sendRST()
			}
		})
	}
	return c, s
}

// Open reports whether this end has not been closed.
func (c *TCPConn) Open() bool { return !c.closed }

// Broken reports whether the connection has been reset under this end.
func (c *TCPConn) Broken() bool { return c.in.rst }

// Peer returns the other end.
func (c *TCPConn) Peer() *TCPConn { return c.peer }

// Unread counts delivered bytes not yet read by this end.
func (c *TCPConn) Unread() int { return len(c.in.buf) + c.in.inflight }

func (c *TCPConn) markClosed() {
	if c.closed {
		return
	}
	c.closed = true
	c.N.S.Event("tcp.close", c.ID)
	if c.N.OnTCPClose != nil && !c.N.S.Cleaning() {
		c.N.OnTCPClose(c)
	}
	c.in.rq.WakeAll()
	c.peer.in.wq.WakeAll()
}

func (c *TCPConn) sendRST() {
	p := c.peer
	at := c.N.S.Now() + c.N.P.LatMin
	if p.in.lastAt > at {
		at = p.in.lastAt
	}
	p.in.lastAt = at
	c.N.S.After(at-c.N.S.Now(), func() {
		p.in.rst = true
		p.in.buf = nil
		p.in.rq.WakeAll()
		c.in.wq.WakeAll()
		p.in.wq.WakeAll()
	})
}

func (c *TCPConn) sendFIN() {
	p := c.peer
	at := c.N.S.Now() + c.N.P.LatMin
	if p.in.lastAt > at {
		at = p.in.lastAt
	}
	p.in.lastAt = at
	c.N.S.After(at-c.N.S.Now(), func() {
		p.in.eof = true
		p.in.rq.WakeAll()
	})
}

func (c *TCPConn) Close() error {
	if simrt.Dying() {
		return nil
	}
	simrt.Point()
	if c.closed {
		return c.opErr("close", ErrClosed)
	}
	unread := len(c.in.buf) > 0 || c.linger0
	c.markClosed()
	if unread {
		c.sendRST()
	} else if !c.wclosed {
		c.sendFIN()
	}
	c.wclosed = true
	return nil
}

// Abort resets the connection (harness).
func (c *TCPConn) Abort() {
	if c.closed {
		return
	}
	c.N.S.Fault("tcp_reset")
	c.markClosed()
	c.sendRST()
}

// Cut makes the connection break under both ends (harness).
func (c *TCPConn) Cut() {
	c.N.S.Fault("tcp_cut")
	for _, x := range []*TCPConn{c, c.peer} {
		x.in.rst = true
		x.in.buf = nil
		x.in.rq.WakeAll()
		x.in.wq.WakeAll()
		x.peer.in.wq.WakeAll()
	}
}

// FailWrites makes every further Write on this end fail (harness).
func (c *TCPConn) FailWrites(err error) { c.failWrites = err; c.peer.in.wq.WakeAll() }

// FailWritesAfter makes Write fail once k more bytes have been taken (harness).
func (c *TCPConn) FailWritesAfter(k int, err error) { c.failAfter = k; c.FailWrites(err) }

func (c *TCPConn) CloseWrite() error {
	if c.closed {
		return c.opErr("close", ErrClosed)
	}
	if !c.wclosed {
		c.wclosed = true
		c.sendFIN()
	}
	return nil
}
func (c *TCPConn) CloseRead() error { return nil }

func (c *TCPConn) Read(b []byte) (int, error) {
	if simrt.Dying() {
		return 0, c.opErr("read", ErrClosed)
	}
	simrt.Point()
	for {
		if c.closed {
			return 0, c.opErr("read", ErrClosed)
		}
		if c.rdl >= 0 && c.N.S.Now() >= c.rdl {
			return 0, c.opErr("read", timeoutError{})
		}
		if len(b) == 0 {
			return 0, nil
		}
		if n := len(c.in.buf); n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && c.N.chance(c.N.P.ShortRead) {
				c.N.S.Fault("tcp_short_read")
				n = 1 + c.N.S.Src.F.N(n-1)
			}
			copy(b, c.in.buf[:n])
			c.in.buf = c.in.buf[n:]
			c.BytesIn += n
			c.in.wq.WakeAll()
			c.own()
			if c.N.OnTCPRead != nil {
				c.N.OnTCPRead(c, b[:n])
			}
			return n, nil
		}
		if c.in.rst {
			return 0, c.opErr("read", sysErr("read", syscall.ECONNRESET))
		}
		if c.in.eof {
			return 0, io.EOF
		}
		d := int64(-1)
		if c.rdl >= 0 {
			d = c.rdl - c.N.S.Now()
		}
		c.in.rq.Wait("tcp read", d)
		if simrt.Dying() {
			return 0, c.opErr("read", ErrClosed)
		}
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if simrt.Dying() {
		return 0, c.opErr("write", ErrClosed)
	}
	simrt.Point()
	n := c.N
	p := c.peer
	done := 0
	c.own()
	frag := len(b) > 1 && n.chance(n.P.Frag)
	if frag {
		n.S.Fault("tcp_fragmentation")
	}
	for {
		if c.closed {
			return done, c.opErr("write", ErrClosed)
		}
		if c.wclosed {
			return done, c.opErr("write", sysErr("write", syscall.EPIPE))
		}
		if c.in.rst {
			return done, c.opErr("write", sysErr("write", syscall.EPIPE))
		}
		if c.failWrites != nil && (c.failAfter == 0 || done == len(b)) {
			if done == len(b) && done > 0 {
				return done, nil
			}
			n.S.Fault("tcp_write_error")
			if n.OnTCPFail != nil {
				n.OnTCPFail(c)
			}
			return done, c.opErr("write", c.failWrites)
		}
		if c.wdl >= 0 && n.S.Now() >= c.wdl {
			return done, c.opErr("write", timeoutError{})
		}
		if done == len(b) {
			return done, nil
		}
		room := n.P.Window - len(p.in.buf) - p.in.inflight
		if room <= 0 {
			d := int64(-1)
			if c.wdl >= 0 {
				d = c.wdl - n.S.Now()
			}
			n.S.Probe("tcp_backpressure")
			p.in.wq.Wait("tcp write", d)
			if simrt.Dying() {
				return done, c.opErr("write", ErrClosed)
			}
			continue
		}
		k := len(b) - done
		if k > room {
			k = room
		}
		if frag && k > 1 {
			k = 1 + n.S.Src.F.N(k)
			if k > len(b)-done {
				k = len(b) - done
			}
		}
		if c.failWrites != nil {
			k = min(k, c.failAfter)
			c.failAfter -= k
		}
		seg := append([]byte(nil), b[done:done+k]...)
		done += k
		c.BytesOut += k
		n.S.Event("tcp.write", c.ID, seg)
		if n.OnTCPWrite != nil {
			n.OnTCPWrite(c, seg)
		}
		p.in.inflight += k
		at := n.S.Now() + n.lat()
		if p.in.lastAt > at {
			at = p.in.lastAt
		}
		p.in.lastAt = at
		n.S.After(at-n.S.Now(), func() {
			p.in.inflight -= len(seg)
			if p.closed || p.Proc.Dead {
				// data for a closed socket: reset
				if !c.in.rst {
					p.sendRST()
				}
				return
			}
			if p.in.rst {
				return
			}
			p.in.buf = append(p.in.buf, seg...)
			p.in.rq.WakeAll()
		})
	}
}

func (c *TCPConn) LocalAddr() Addr  { return c.local }
func (c *TCPConn) RemoteAddr() Addr { return c.remote }

func toNS(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	ns := t.Sub(Epoch).Nanoseconds()
	if ns < 0 {
		ns = 0
	}
	return ns
}

// Epoch is the wall-clock time at which a simulation starts.
var Epoch = time.Date(2024, 3, 9, 12, 0, 0, 0, time.UTC)

func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", ErrClosed)
	}
	c.rdl = toNS(t)
	c.in.rq.WakeAll()
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", ErrClosed)
	}
	c.wdl = toNS(t)
	c.peer.in.wq.WakeAll()
	return nil
}
func (c *TCPConn) SetLinger(sec int) error                  { c.linger0 = sec == 0; return nil }
func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }

// TCPListener is a simulated listening socket.
type TCPListener struct {
	N      *Network
	proc   *simrt.Proc
	addr   *TCPAddr
	queue  []*TCPConn
	q      simrt.WaitQ
	closed bool
	dl     int64
}

func wild(ip IP) bool { return len(ip) == 0 || ip.IsUnspecified() }

func (n *Network) findListener(a *TCPAddr) *TCPListener {
	for _, l := range n.listeners {
		if !l.closed && l.addr.Port == a.Port && (l.addr.IP.Equal(a.IP) || wild(l.addr.IP) && (procIP(l.proc).Equal(a.IP) || a.IP.IsLoopback() && procIP(curProc()).Equal(procIP(l.proc)))) {
			return l
		}
	}
	return nil
}

func Listen(network, address string) (Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	n := Of()
	p := curProc()
	if a == nil {
		a = &TCPAddr{}
	}
	a = &TCPAddr{IP: a.IP, Port: a.Port, Zone: a.Zone}
	if a.Port == 0 {
		a.Port = n.ephemeral()
	}
	for _, l := range n.listeners {
		if !l.closed && l.proc.IP == p.IP && l.addr.Port == a.Port {
			return nil, &OpError{Op: "listen", Net: network, Addr: a, Err: sysErr("bind", syscall.EADDRINUSE)}
		}
	}
	l := &TCPListener{N: n, proc: p, addr: a, dl: -1}
	n.listeners = append(n.listeners, l)
	p.OnDeath = append(p.OnDeath, func() { l.shut() })
	return l, nil
}

func (l *TCPListener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.queue {
		c.markClosed()
		c.sendRST()
	}
	l.queue = nil
	l.q.WakeAll()
}

func (l *TCPListener) opErr(err error) error {
	return &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: err}
}

func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if simrt.Dying() {
		return nil, l.opErr(ErrClosed)
	}
	simrt.Point()
	for {
		if l.closed {
			return nil, l.opErr(ErrClosed)
		}
		if l.dl >= 0 && l.N.S.Now() >= l.dl {
			return nil, l.opErr(timeoutError{})
		}
		if len(l.queue) > 0 {
			if l.N.chance(l.N.P.AcceptErr) {
				l.N.S.Fault("accept_error")
				if l.N.S.Src.F.N(2) == 0 {
					return nil, l.opErr(sysErr("accept", syscall.ECONNABORTED))
				}
				simrt.Sleep(1e6)
				return nil, l.opErr(sysErr("accept", syscall.EMFILE))
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.N.S.Event("tcp.accept", c.ID)
			if l.N.OnAccept != nil {
				l.N.OnAccept(c)
			}
			return c, nil
		}
		d := int64(-1)
		if l.dl >= 0 {
			d = l.dl - l.N.S.Now()
		}
		l.q.Wait("accept", d)
		if simrt.Dying() {
			return nil, l.opErr(ErrClosed)
		}
	}
}

func (l *TCPListener) Close() error {
	if simrt.Dying() {
		return nil
	}
	if l.closed {
		return &OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: ErrClosed}
	}
	l.shut()
	return nil
}
func (l *TCPListener) Addr() Addr                    { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error { l.dl = toNS(t); l.q.WakeAll(); return nil }

// Listening reports whether the process has an open listener on the port.
func (n *Network) Listening(p *simrt.Proc, port int) bool {
	for _, l := range n.listeners {
		if !l.closed && l.proc == p && l.addr.Port == port {
			return true
		}
	}
	return false
}

func Dial(network, address string) (Conn, error) {
	return dial(network, address, -1, nil)
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	if d <= 0 {
		return dial(network, address, -1, nil)
	}
	return dial(network, address, int64(d), nil)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     Addr
	FallbackDelay time.Duration
	KeepAlive     time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	t := int64(-1)
	if d.Timeout > 0 {
		t = int64(d.Timeout)
	}
	return dial(network, address, t, d.LocalAddr)
}
func (d *Dialer) DialContext(_ context.Context, network, address string) (Conn, error) {
	return d.Dial(network, address)
}

func dial(network, address string, timeout int64, la Addr) (Conn, error) {
	if strings.HasPrefix(network, "udp") {
		a, err := ResolveUDPAddr(network, address)
		if err != nil {
			return nil, &OpError{Op: "dial", Net: network, Err: err}
		}
		l, _ := la.(*UDPAddr)
		c, err := DialUDP(network, l, a)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	l, _ := la.(*TCPAddr)
	c, err := dialTCP(network, l, a, timeout)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	return dialTCP(network, laddr, raddr, -1)
}

func dialTCP(network string, laddr, raddr *TCPAddr, timeout int64) (*TCPConn, error) {
	n := Of()
	if raddr == nil {
		return nil, &OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	if simrt.Dying() {
		return nil, &OpError{Op: "dial", Net: network, Addr: raddr, Err: ErrClosed}
	}
	p := curProc()
	ra := &TCPAddr{IP: raddr.IP, Port: raddr.Port, Zone: raddr.Zone}
	if wild(ra.IP) {
		ra.IP = procIP(p)
	}
	simrt.Point()
	simrt.Sleep(n.lat())
	if n.chance(n.P.DialErr) {
		n.S.Fault("tcp_connect_failure")
		if n.S.Src.F.N(2) == 0 {
			return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: sysErr("connect", syscall.ECONNREFUSED)}
		}
		d := int64(127e9)
		if timeout >= 0 && timeout < d {
			simrt.Sleep(timeout)
			return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: timeoutError{}}
		}
		simrt.Sleep(d)
		return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: sysErr("connect", syscall.ETIMEDOUT)}
	}
	l := n.findListener(ra)
	if l == nil {
		simrt.Sleep(n.lat())
		return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: sysErr("connect", syscall.ECONNREFUSED)}
	}
	ca := &TCPAddr{IP: procIP(p), Port: n.ephemeral()}
	if laddr != nil && laddr.Port != 0 {
		ca.Port = laddr.Port
	}
	c, s := n.newPair(p, l.proc, ca, ra)
	l.queue = append(l.queue, s)
	l.q.WakeOne()
	n.S.Event("tcp.dial", c.ID, ra.String())
	if n.OnTCPDial != nil {
		n.OnTCPDial(c)
	}
	simrt.Sleep(n.lat())
	return c, nil
}

// ---------------------------------------------------------------- UDP

type dgram struct {
	b    []byte
	from *UDPAddr
}

// UDPConn is a simulated UDP socket.
type UDPConn struct {
	N        *Network
	ID       int
	Proc     *simrt.Proc
	Tag      int
	local    *UDPAddr
	remote   *UDPAddr
	queue    []dgram
	qbytes   int
	q        simrt.WaitQ
	closed   bool
	rdl      int64
	refused  bool
	User     any
	Sent     int
	recvErrs []error
}

func (c *UDPConn) opErr(op string, err error) error {
	o := &OpError{Op: op, Net: "udp", Source: c.local, Err: err}
	if c.remote != nil {
		o.Addr = c.remote
	}
	return o
}

func (n *Network) newUDP(laddr, raddr *UDPAddr, op, network string) (*UDPConn, error) {
	p := curProc()
	if !p.Harness && !n.Reliable[p] && n.chance(n.P.UDPDialErr) {
		n.S.Fault("udp_socket_failure")
		if n.OnUDPFail != nil {
			n.OnUDPFail()
		}
		return nil, &OpError{Op: op, Net: network, Err: sysErr("socket", syscall.EMFILE)}
	}
	la := &UDPAddr{IP: procIP(p)}
	if laddr != nil {
		if !wild(laddr.IP) {
			la.IP = laddr.IP
		}
		la.Port = laddr.Port
	}
	if la.Port == 0 {
		la.Port = n.ephemeral()
	} else {
		for _, u := range n.udp {
			if !u.closed && u.local.Port == la.Port && u.local.IP.Equal(la.IP) {
				return nil, &OpError{Op: op, Net: network, Addr: la, Err: sysErr("bind", syscall.EADDRINUSE)}
			}
		}
	}
	n.nid++
	c := &UDPConn{N: n, ID: n.nid * 2, Proc: p, local: la, remote: raddr, rdl: -1}
	if g := simrt.Current(); g != nil {
		c.Tag = g.Tag
	}
	n.udp = append(n.udp, c)
	n.UDPs = append(n.UDPs, c)
	p.OnDeath = append(p.OnDeath, func() { c.shut() })
	n.S.Event("udp.open", c.ID, la.String())
	if n.OnUDPOpen != nil {
		n.OnUDPOpen(c)
	}
	return c, nil
}

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	if err := badNet(network, "udp"); err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	if raddr == nil {
		return nil, &OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	if simrt.Dying() {
		return nil, &OpError{Op: "dial", Net: network, Addr: raddr, Err: ErrClosed}
	}
	simrt.Point()
	n := Of()
	ra := &UDPAddr{IP: raddr.IP, Port: raddr.Port, Zone: raddr.Zone}
	if wild(ra.IP) {
		ra.IP = procIP(curProc())
	}
	if ra.IP.Equal(realnet.IPv4bcast) {
		return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: sysErr("connect", syscall.EACCES)}
	}
	if ip4 := ra.IP.To4(); ip4 != nil && ip4[0] == 192 && ip4[1] == 0 && ip4[2] == 2 { // TEST-NET-1: no route in this world
		n.S.Fault("udp_no_route")
		return nil, &OpError{Op: "dial", Net: network, Addr: ra, Err: sysErr("connect", syscall.ENETUNREACH)}
	}
	return n.newUDP(laddr, ra, "dial", network)
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	if err := badNet(network, "udp"); err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	return Of().newUDP(laddr, nil, "listen", network)
}

func ListenPacket(network, address string) (PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	c, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Open reports whether the socket has not been closed.
func (c *UDPConn) Open() bool { return !c.closed }

func (c *UDPConn) shut() {
	if c.closed {
		return
	}
	c.closed = true
	c.N.S.Event("udp.close", c.ID)
	if c.N.OnUDPClose != nil && !c.N.S.Cleaning() {
		c.N.OnUDPClose(c)
	}
	for i, u := range c.N.udp {
		if u == c {
			c.N.udp = append(c.N.udp[:i:i], c.N.udp[i+1:]...)
			break
		}
	}
	c.q.WakeAll()
}

func (c *UDPConn) Close() error {
	if simrt.Dying() {
		return nil
	}
	simrt.Point()
	if c.closed {
		return c.opErr("close", ErrClosed)
	}
	c.shut()
	return nil
}

func (c *UDPConn) send(b []byte, to *UDPAddr) (int, error) {
	if simrt.Dying() {
		return 0, c.opErr("write", ErrClosed)
	}
	simrt.Point()
	n := c.N
	fail := func(e error) (int, error) {
		n.S.Event("udp.sendfail", c.ID, e)
		if n.OnUDPSend != nil {
			n.OnUDPSend(c, to, append([]byte(nil), b...), e)
		}
		return 0, c.opErr("write", e)
	}
	if c.closed {
		n.S.Event("udp.send-on-closed", c.ID)
		return 0, c.opErr("write", ErrClosed)
	}
	if len(b) > 65507 {
		return fail(sysErr("write", syscall.EMSGSIZE))
	}
	if c.refused {
		c.refused = false
		n.S.Fault("udp_icmp_refused")
		return fail(sysErr("write", syscall.ECONNREFUSED))
	}
	if !c.Proc.Harness && !n.Reliable[c.Proc] && n.chance(n.P.UDPSendErr) {
		n.S.Fault("udp_send_error")
		es := []error{syscall.ENOBUFS, syscall.EPERM, syscall.ENETUNREACH, syscall.ECONNREFUSED}
		return fail(sysErr("write", es[n.S.Src.F.N(len(es))]))
	}
	data := append([]byte(nil), b...)
	c.Sent++
	n.S.Event("udp.send", c.ID, to.String(), len(data))
	if n.OnUDPSend != nil {
		n.OnUDPSend(c, to, data, nil)
	}
	if n.chance(n.P.Loss) {
		n.S.Fault("udp_loss")
		return len(b), nil
	}
	copies := 1
	if n.chance(n.P.Dup) {
		n.S.Fault("udp_duplicate")
		copies = 2
	}
	for i := 0; i < copies; i++ {
		d := n.lat()
		if n.chance(n.P.Reorder) {
			n.S.Fault("udp_reorder")
			d += n.P.LatMax * int64(1+n.S.Src.F.N(8))
		}
		src := c
		n.S.After(d, func() {
			var t *UDPConn
			for _, u := range n.udp {
				if u.local.Port == to.Port && u.local.IP.Equal(to.IP) && (u.remote == nil || u.remote.IP.Equal(src.local.IP) && u.remote.Port == src.local.Port) {
					t = u
					break
				}
			}
			if t == nil {
				if n.P.ICMP && src.remote != nil && !src.closed {
					src.refused = true
				}
				return
			}
			if t.qbytes+len(data) > n.P.RcvBuf {
				n.S.Fault("udp_rcvbuf_overflow")
				return
			}
			t.queue = append(t.queue, dgram{data, src.local})
			t.qbytes += len(data)
			t.q.WakeOne()
		})
	}
	return len(b), nil
}

// InjectRecvErr queues an error for the next receive (harness).
func (c *UDPConn) InjectRecvErr(e error) { c.recvErrs = append(c.recvErrs, e); c.q.WakeOne() }

// Queued counts datagrams (and errors) waiting to be received.
func (c *UDPConn) Queued() int { return len(c.queue) + len(c.recvErrs) }

// Deliver queues a datagram directly (harness).
func (c *UDPConn) Deliver(b []byte, from *UDPAddr) {
	c.queue = append(c.queue, dgram{b, from})
	c.qbytes += len(b)
	c.q.WakeOne()
}

func (c *UDPConn) recv(b []byte) (int, *UDPAddr, error) {
	if simrt.Dying() {
		return 0, nil, c.opErr("read", ErrClosed)
	}
	simrt.Point()
	for {
		if c.closed {
			return 0, nil, c.opErr("read", ErrClosed)
		}
		if c.rdl >= 0 && c.N.S.Now() >= c.rdl {
			return 0, nil, c.opErr("read", timeoutError{})
		}
		if len(c.recvErrs) > 0 {
			e := c.recvErrs[0]
			c.recvErrs = c.recvErrs[1:]
			c.N.S.Fault("udp_receive_error")
			return 0, nil, c.opErr("read", e)
		}
		if len(c.queue) > 0 {
			d := c.queue[0]
			c.queue = c.queue[1:]
			c.qbytes -= len(d.b)
			if c.N.OnUDPRecv != nil {
				c.N.OnUDPRecv(c, d.b)
			}
			k := copy(b, d.b)
			if len(c.queue) > 0 {
				c.q.WakeOne()
			}
			return k, d.from, nil
		}
		dl := int64(-1)
		if c.rdl >= 0 {
			dl = c.rdl - c.N.S.Now()
		}
		c.q.Wait("udp receive", dl)
		if simrt.Dying() {
			return 0, nil, c.opErr("read", ErrClosed)
		}
	}
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c.remote == nil {
		return 0, c.opErr("write", sysErr("write", syscall.EDESTADDRREQ))
	}
	return c.send(b, c.remote)
}
func (c *UDPConn) WriteTo(b []byte, a Addr) (int, error) {
	u, ok := a.(*UDPAddr)
	if !ok {
		return 0, c.opErr("write", syscall.EINVAL)
	}
	return c.WriteToUDP(b, u)
}
func (c *UDPConn) WriteToUDP(b []byte, a *UDPAddr) (int, error) {
	if c.remote != nil {
		return 0, c.opErr("write", ErrWriteToConnected)
	}
	if a == nil {
		return 0, c.opErr("write", errors.New("missing address"))
	}
	if wild(a.IP) {
		a = &UDPAddr{IP: procIP(c.Proc), Port: a.Port}
	}
	return c.send(b, a)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, realnet.UDPAddrFromAddrPort(a))
}
func (c *UDPConn) Read(b []byte) (int, error) { n, _, err := c.recv(b); return n, err }
func (c *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, a, err := c.recv(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) { return c.recv(b) }
func (c *UDPConn) LocalAddr() Addr                             { return c.local }
func (c *UDPConn) RemoteAddr() Addr {
	if c.remote == nil {
		return nil
	}
	return c.remote
}
func (c *UDPConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	c.rdl = toNS(t)
	c.q.WakeAll()
	return nil
}
func (c *UDPConn) SetWriteDeadline(time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(int) error         { return nil }

// OpenUDP lists the open UDP sockets of a process.
func (n *Network) OpenUDP(p *simrt.Proc) []*UDPConn {
	var out []*UDPConn
	for _, u := range n.udp {
		if u.Proc == p && !u.closed {
			out = append(out, u)
		}
	}
	return out
}

// OpenTCP lists the open TCP connections of a process.
func (n *Network) OpenTCP(p *simrt.Proc) []*TCPConn {
	var out []*TCPConn
	for _, c := range n.Conns {
		if c.Proc == p && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

var _ Conn = (*TCPConn)(nil)
var _ Conn = (*UDPConn)(nil)
var _ PacketConn = (*UDPConn)(nil)
var _ fmt.Stringer = IP{}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.recv(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *UDPAddr, err error) {
	n, addr, err = c.recv(b)
	return
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *UDPAddr) (n, oobn int, err error) {
	if c.remote != nil && a == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, a)
	}
	return
}

type ListenConfig struct{ KeepAlive time.Duration }

func (*ListenConfig) Listen(_ context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}
func (*ListenConfig) ListenPacket(_ context.Context, network, address string) (PacketConn, error) {
	return ListenPacket(network, address)
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{c}, r) }
func (c *TCPConn) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{c}) }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error) {
	return nil, errors.New("not simulated")
}
