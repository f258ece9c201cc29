// Package vnet is an in-memory network: connections on which the harness plays the peer, with the deadlines, errors
// and segment boundaries of TCP, all in the fake time of the bubble that runs the execution.
package vnet

import (
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/shim/vrt"
)

// Types the code can keep using from package net.
type (
	Conn         = net.Conn
	Addr         = net.Addr
	PacketConn   = net.PacketConn
	Error        = net.Error
	OpError      = net.OpError
	TCPAddr      = net.TCPAddr
	UDPAddr      = net.UDPAddr
	IPAddr       = net.IPAddr
	IP           = net.IP
	AddrError    = net.AddrError
	DNSError     = net.DNSError
	ParseError   = net.ParseError
	UnknownError = net.UnknownNetworkError
)

// ErrClosed is net.ErrClosed.
var ErrClosed = net.ErrClosed

// Write is one call of Write on a connection.
type SimWrite struct {
	At   time.Time
	Data []byte
}

// SimNet is the network of one execution.
type SimNet struct {
	mu      sync.Mutex
	Conns   []*TCPConn
	Dialed  []string // addresses connected to, in order
	Looked  []string // addresses given for resolution
	UDP     []*UDPConn
	Refuse  bool // refuse connections
	NoUDP   bool // refuse listeners
	ports   int  // given out by the system
	OnDial  func(*TCPConn)
	MaxIdle int // reads after the end of the stream that count as running away
}

var cur *SimNet

// SimReset starts a new execution.
func SimReset() *SimNet {
	cur = &SimNet{MaxIdle: 200}
	return cur
}

// SimFirst is the first connection, if there is one.
func (n *SimNet) SimFirst() *TCPConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.Conns) == 0 {
		return nil
	}
	return n.Conns[0]
}

// SimAt is the first connection to the port, if there is one.
func (n *SimNet) SimAt(port int) *TCPConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, c := range n.Conns {
		if _, p, _ := net.SplitHostPort(c.addr); p == strconv.Itoa(port) {
			return c
		}
	}
	return nil
}

type segment struct{ data []byte }

// TCPConn is the client's end of a connection.
type TCPConn struct {
	mu       sync.Mutex
	rx       []segment
	rerr     error // after the last segment
	rdl, wdl time.Time
	wake     chan struct{}
	closed   bool
	tx       []SimWrite
	werr     error
	stall    int // bytes the next write gets rid of before its deadline, plus 1
	idle     int
	addr     string
	Reads    int
	Runaway  bool
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *TCPConn) signal() {
	close(c.wake)
	c.wake = make(chan struct{})
}

// Read returns bytes of one segment.
func (c *TCPConn) Read(p []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vrt.P()
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			c.count()
			return 0, opErr("read", net.ErrClosed)
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			c.mu.Unlock()
			c.count()
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.rx) > 0 {
			n := copy(p, c.rx[0].data)
			c.rx[0].data = c.rx[0].data[n:]
			if len(c.rx[0].data) == 0 {
				c.rx = c.rx[1:]
			}
			c.Reads++
			c.idle = 0
			c.mu.Unlock()
			return n, nil
		}
		if c.rerr != nil {
			err := c.rerr
			if err != io.EOF {
				c.rerr = io.EOF // a socket reports its error once
			}
			c.mu.Unlock()
			c.count()
			return 0, err
		}
		wake := c.wake
		var t *time.Timer
		var tc <-chan time.Time
		if !c.rdl.IsZero() {
			t = time.NewTimer(c.rdl.Sub(now))
			tc = t.C
		}
		c.idle = 0
		c.mu.Unlock()
		select {
		case <-wake:
		case <-tc:
		}
		if t != nil {
			t.Stop()
		}
		vrt.P()
	}
}

// count stops a goroutine that reads a finished connection again and again.
func (c *TCPConn) count() {
	c.mu.Lock()
	c.idle++
	over := c.idle > cur.MaxIdle
	if over {
		c.Runaway = true
	}
	c.mu.Unlock()
	if over {
		panic(vrt.SimKill{Why: "reads a connection that has ended or timed out " + strconv.Itoa(cur.MaxIdle) + " times without waiting"})
	}
}

// Write sends p to the harness.
func (c *TCPConn) Write(p []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vrt.P()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	if c.werr != nil {
		return 0, c.werr
	}
	if n := c.stall - 1; n >= 0 && len(p) > 0 {
		c.stall = 0
		if n >= len(p) {
			n = len(p) - 1
		}
		c.tx = append(c.tx, SimWrite{time.Now(), append([]byte{}, p[:n]...)})
		d := time.Minute // if the client would wait for ever
		if !c.wdl.IsZero() {
			d = time.Until(c.wdl)
		}
		c.mu.Unlock()
		time.Sleep(d)
		c.mu.Lock()
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		p = p[n:]
		c.tx = append(c.tx, SimWrite{time.Now(), append([]byte{}, p...)})
		return n + len(p), nil
	}
	c.tx = append(c.tx, SimWrite{time.Now(), append([]byte{}, p...)})
	return len(p), nil
}

func (c *TCPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.signal()
	return nil
}

func (c *TCPConn) CloseRead() error                         { return c.ok() }
func (c *TCPConn) CloseWrite() error                        { return c.ok() }
func (c *TCPConn) SetNoDelay(bool) error                    { return c.ok() }
func (c *TCPConn) SetKeepAlive(bool) error                  { return c.ok() }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return c.ok() }
func (c *TCPConn) SetReadBuffer(int) error                  { return c.ok() }
func (c *TCPConn) SetWriteBuffer(int) error                 { return c.ok() }
func (c *TCPConn) SetLinger(int) error                      { return c.ok() }

func (c *TCPConn) ok() error {
	if c == nil {
		return syscall.EINVAL
	}
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: SimLocal, Port: 40000}
}

func (c *TCPConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(192, 0, 2, 9), Port: 554}
}

func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.signal()
	return nil
}

func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	return nil
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// SimFeed makes bytes arrive in one segment.
func (c *TCPConn) SimFeed(b []byte) {
	if len(b) == 0 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rx = append(c.rx, segment{append([]byte{}, b...)})
	c.signal()
}

// SimEnd ends the stream of bytes to the client: with end of file, or with an error.
func (c *TCPConn) SimEnd(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err == nil {
		err = io.EOF
	} else {
		err = opErr("read", err)
	}
	c.rerr = err
	c.signal()
}

// SimFailWrites makes writes fail from now on, or work again.
func (c *TCPConn) SimFailWrites(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.werr = nil; err != nil {
		c.werr = opErr("write", err)
	}
}

// SimStall makes the next write time out when n bytes of it (all but one at most) have been sent.
func (c *TCPConn) SimStall(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stall = n + 1
}

// SimPending is the number of bytes the client has not read.
func (c *TCPConn) SimPending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.rx {
		n += len(s.data)
	}
	return n
}

// SimSent returns the calls of Write from number n on.
func (c *TCPConn) SimSent(n int) []SimWrite {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]SimWrite{}, c.tx[n:]...)
}

// SimClosed tells whether the client has closed the connection.
func (c *TCPConn) SimClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func dial(address string) (*TCPConn, error) {
	n := cur
	n.mu.Lock()
	n.Dialed = append(n.Dialed, address)
	if n.Refuse {
		n.mu.Unlock()
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	c := &TCPConn{wake: make(chan struct{}), addr: address}
	n.Conns = append(n.Conns, c)
	f := n.OnDial
	n.mu.Unlock()
	if f != nil {
		f(c)
	}
	return c, nil
}

// names gives the hosts of the simulated network their addresses.
func resolve(host string) net.IP {
	if ip := net.ParseIP(host); ip != nil {
		return ip
	}
	return net.IPv4(192, 0, 2, 9)
}

func (n *SimNet) lookup(address string) (net.IP, int, error) {
	n.mu.Lock()
	n.Looked = append(n.Looked, address)
	n.mu.Unlock()
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, 0, err
	}
	p, err := net.LookupPort("tcp", port)
	if err != nil {
		return nil, 0, err
	}
	return resolve(host), p, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	ip, p, err := cur.lookup(address)
	if err != nil {
		return nil, err
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	ip, p, err := cur.lookup(address)
	if err != nil {
		return nil, err
	}
	return &net.UDPAddr{IP: ip, Port: p}, nil
}

func ResolveIPAddr(network, address string) (*net.IPAddr, error) {
	return &net.IPAddr{IP: resolve(address)}, nil
}

func LookupIP(host string) ([]net.IP, error)                      { return []net.IP{resolve(host)}, nil }
func LookupHost(host string) ([]string, error)                    { return []string{resolve(host).String()}, nil }
func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) { return dial(r.String()) }

func Dial(network, address string) (net.Conn, error) {
	ip, p, err := cur.lookup(address)
	if err != nil {
		return nil, err
	}
	return iface(dial((&net.TCPAddr{IP: ip, Port: p}).String()))
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func iface(c *TCPConn, err error) (net.Conn, error) {
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Dialer connects like net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	DualStack     bool
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

// UDPConn is a listener on which nothing arrives unless the harness says so.
type UDPConn struct {
	mu     sync.Mutex
	Laddr  net.UDPAddr
	closed bool
	dl     time.Time
	wake   chan struct{}
	rx     [][]byte
	taken  int // datagrams read
}

// simSources are the addresses that datagrams come from: the host of the server from the port that it may have named and from another
// one, and a host of its own for media.
var simSources = []net.UDPAddr{{IP: net.IPv4(192, 0, 2, 9), Port: 6970}, {IP: net.IPv4(198, 51, 100, 23), Port: 30000}, {IP: net.IPv4(192, 0, 2, 9), Port: 40001}}

func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	n := cur
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.NoUDP {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	c := &UDPConn{wake: make(chan struct{})}
	if laddr != nil {
		c.Laddr = *laddr
	}
	if c.Laddr.Port < 0 || c.Laddr.Port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: &net.AddrError{Err: "invalid port", Addr: c.Laddr.String()}}
	}
	ip := c.Laddr.IP
	if !(len(ip) == 0 || ip.IsUnspecified() || ip.IsLoopback() || ip.Equal(SimLocal)) {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRNOTAVAIL)}
	}
	if c.Laddr.Port == 0 {
		n.ports++
		c.Laddr.Port = 32768 + n.ports
	}
	for _, o := range n.UDP {
		if o.Laddr.Port == c.Laddr.Port && !o.SimClosed() {
			return nil, &net.OpError{Op: "listen", Net: "udp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	n.UDP = append(n.UDP, c)
	return c, nil
}

// ListenPacket listens on an address given as text.
func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := net.ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// SimLocal is the address of the client.
var SimLocal = net.IPv4(192, 0, 2, 1)

// SimDatagram makes a datagram arrive at a port of the client; false when nothing listens there.
func (n *SimNet) SimDatagram(port int, b []byte) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, c := range n.UDP {
		if ip := c.Laddr.IP; c.Laddr.Port == port && !c.SimClosed() && (len(ip) == 0 || ip.IsUnspecified() || ip.Equal(SimLocal)) {
			c.SimFeed(b)
			return true
		}
	}
	return false
}

// SimClosed tells if the listener has been closed.
func (c *UDPConn) SimClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *UDPConn) Read(p []byte) (int, error) {
	n, _, err := c.ReadFromUDP(p)
	return n, err
}

func (c *UDPConn) ReadFrom(p []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(p)
	return n, a, err
}

func (c *UDPConn) ReadFromUDP(p []byte) (int, *net.UDPAddr, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		now := time.Now()
		if !c.dl.IsZero() && !now.Before(c.dl) {
			c.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
		if len(c.rx) > 0 {
			n := copy(p, c.rx[0])
			c.rx = c.rx[1:]
			from := simSources[(c.taken+c.Laddr.Port)%len(simSources)]
			c.taken++
			c.mu.Unlock()
			return n, &net.UDPAddr{IP: from.IP, Port: from.Port}, nil
		}
		wake := c.wake
		var t *time.Timer
		var tc <-chan time.Time
		if !c.dl.IsZero() {
			t = time.NewTimer(c.dl.Sub(now))
			tc = t.C
		}
		c.mu.Unlock()
		select {
		case <-wake:
		case <-tc:
		}
		if t != nil {
			t.Stop()
		}
	}
}

func (c *UDPConn) Write(p []byte) (int, error)                      { return len(p), nil }
func (c *UDPConn) WriteTo(p []byte, a net.Addr) (int, error)        { return len(p), nil }
func (c *UDPConn) WriteToUDP(p []byte, a *net.UDPAddr) (int, error) { return len(p), nil }
func (c *UDPConn) SetDeadline(t time.Time) error                    { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error               { return nil }
func (c *UDPConn) SetReadBuffer(int) error                          { return nil }
func (c *UDPConn) SetWriteBuffer(int) error                         { return nil }
func (c *UDPConn) LocalAddr() net.Addr                              { a := c.Laddr; return &a }
func (c *UDPConn) RemoteAddr() net.Addr                             { return nil }

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.dl = t
	close(c.wake)
	c.wake = make(chan struct{})
	return nil
}

func (c *UDPConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	c.closed = true
	close(c.wake)
	c.wake = make(chan struct{})
	return nil
}

// SimFeed makes a datagram arrive.
func (c *UDPConn) SimFeed(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rx = append(c.rx, append([]byte{}, b...))
	close(c.wake)
	c.wake = make(chan struct{})
}
