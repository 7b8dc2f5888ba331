//go:build go1.21

// Package vnet models the listening half of package net in memory. Every
// chunk a peer sends is returned by one read, unless the buffer is too small
// for it.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/vivint/rothko/zz_verif/vs"
)

type state struct {
	owner     *vs.Exec
	listeners []*TCPListener
	conns     []*TCPConn
	listenErr []error
	acceptErr []error
}

var st state

//go:noinline
func cur() *state {
	if st.owner != vs.Cur() {
		st = state{owner: vs.Cur()}
	}
	return &st
}

// FailListen makes the next call of Listen fail.
func FailListen(err error) { s := cur(); s.listenErr = append(s.listenErr, err) }

// FailAccept makes the next call of Accept fail, also one that is waiting.
func FailAccept(err error) { s := cur(); s.acceptErr = append(s.acceptErr, err) }

// Listen is net.Listen.
//
//go:noinline
func Listen(network, address string) (net.Listener, error) {
	if !vs.Active() {
		return nil, net.ErrClosed
	}
	vs.Point("listen")
	s := cur()
	if len(s.listenErr) > 0 {
		err := s.listenErr[0]
		s.listenErr = s.listenErr[1:]
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	for _, l := range s.listeners {
		if l.addr == address && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &TCPListener{addr: address}
	s.listeners = append(s.listeners, l)
	return l, nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// TCPListener is net.TCPListener.
type TCPListener struct {
	addr   string
	queue  []*TCPConn
	closed bool
	limit  deadline
	sync   uint64
}

// Accept is net.Listener.Accept.
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP is net.TCPListener.AcceptTCP.
//
//go:noinline
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if !vs.Active() {
		return nil, net.ErrClosed
	}
	vs.Point("accept")
	s := cur()
	vs.Wait("accept", func() bool { return l.closed || l.limit.past || len(l.queue) > 0 || len(s.acceptErr) > 0 })
	vs.RaceAcquire(unsafe.Pointer(&l.sync))
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if l.limit.past {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if len(s.acceptErr) > 0 {
		err := s.acceptErr[0]
		s.acceptErr = s.acceptErr[1:]
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: err}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	c.accepted = true
	return c, nil
}

// Close is net.Listener.Close. Connections that were not accepted are reset.
//
//go:noinline
func (l *TCPListener) Close() error {
	if !vs.Active() {
		return nil
	}
	vs.Point("close listener")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&l.sync))
	l.closed = true
	l.limit.clear()
	for _, c := range l.queue {
		c.closed = true
	}
	l.queue = nil
	return nil
}

// Addr is net.Listener.Addr.
func (l *TCPListener) Addr() net.Addr { return addr(l.addr) }

// SetDeadline is net.TCPListener.SetDeadline.
//
//go:noinline
func (l *TCPListener) SetDeadline(t time.Time) error { return l.limit.set(t, l.closed) }

// deadline is a moment after which operations fail.
type deadline struct {
	t    *vs.Timer
	past bool
}

func (d *deadline) set(t time.Time, closed bool) error {
	if !vs.Active() {
		return nil
	}
	vs.Point("deadline")
	if closed {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	d.clear()
	if t.IsZero() {
		return nil
	}
	if left := t.UnixNano() - vs.Clock(); left > 0 {
		d.t = vs.NewTimer(left, 0, func(int64) { d.past = true })
	} else {
		d.past = true
	}
	return nil
}

func (d *deadline) clear() {
	if d.t != nil {
		d.t.Disarm()
	}
	d.t, d.past = nil, false
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen is net.ListenConfig.Listen.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return Listen(network, address)
}

// TCPConn is net.TCPConn.
type TCPConn struct {
	lis      *TCPListener
	in       [][]byte
	err      error // after in: io.EOF or a failure
	out      []byte
	accepted bool
	closed   bool
	ended    bool // by CloseRead
	limit    deadline
	calls    int
	sync     uint64
	read     int
}

// Read is net.Conn.Read.
//
//go:noinline
func (c *TCPConn) Read(p []byte) (int, error) {
	if !vs.Active() {
		return 0, net.ErrClosed
	}
	vs.Point("read")
	vs.Wait("read", func() bool {
		return c.closed || c.ended || c.limit.past || len(c.in) > 0 || c.err != nil || len(p) == 0
	})
	vs.RaceAcquire(unsafe.Pointer(&c.sync))
	switch {
	case c.closed:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case c.limit.past:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	case len(p) == 0:
		return 0, nil
	case c.ended:
		return 0, io.EOF
	case len(c.in) > 0:
		n := copy(p, c.in[0])
		if n < len(c.in[0]) {
			c.in[0] = c.in[0][n:]
		} else {
			c.in = c.in[1:]
		}
		c.read += n
		return n, nil
	case c.err == io.EOF:
		return 0, io.EOF
	default:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: c.err}
	}
}

// Write is net.Conn.Write.
//
//go:noinline
func (c *TCPConn) Write(p []byte) (int, error) {
	if !vs.Active() {
		return 0, net.ErrClosed
	}
	vs.Point("write")
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

// Close is net.Conn.Close.
//
//go:noinline
func (c *TCPConn) Close() error {
	if !vs.Active() {
		return nil
	}
	vs.Point("close conn")
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	c.closed = true
	c.limit.clear()
	return nil
}

// CloseRead is net.TCPConn.CloseRead.
//
//go:noinline
func (c *TCPConn) CloseRead() error {
	if !vs.Active() {
		return nil
	}
	vs.Point("close read")
	vs.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	c.ended = true
	return nil
}

// SetReadDeadline is net.TCPConn.SetReadDeadline.
//
//go:noinline
func (c *TCPConn) SetReadDeadline(t time.Time) error { return c.limit.set(t, c.closed) }

// SetDeadline is net.TCPConn.SetDeadline.
//
//go:noinline
func (c *TCPConn) SetDeadline(t time.Time) error          { return c.limit.set(t, c.closed) }
func (c *TCPConn) CloseWrite() error                      { return nil }
func (c *TCPConn) LocalAddr() net.Addr                    { return addr(c.lis.addr) }
func (c *TCPConn) RemoteAddr() net.Addr                   { return addr("peer") }
func (c *TCPConn) SetWriteDeadline(time.Time) error       { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

// ErrTemporary is a failure to accept that goes away.
var ErrTemporary error = os.NewSyscallError("accept4", syscall.EMFILE)

// ---------------------------------------------------------------- peers

// Peer is the other end of a connection, for harnesses.
type Peer struct{ c *TCPConn }

// Listening tells if the address can be connected to.
//
//go:noinline
func Listening(address string) bool { return find(address) != nil }

//go:noinline
func find(address string) *TCPListener {
	for _, l := range cur().listeners {
		if l.addr == address && !l.closed {
			return l
		}
	}
	return nil
}

// Dial connects. It fails if nobody is listening.
//
//go:noinline
func Dial(address string) (*Peer, error) {
	vs.Point("dial")
	l := find(address)
	if l == nil {
		return nil, errors.New("connection refused")
	}
	s := cur()
	c := &TCPConn{lis: l}
	s.conns = append(s.conns, c)
	l.queue = append(l.queue, c)
	vs.RaceReleaseMerge(unsafe.Pointer(&l.sync))
	return &Peer{c}, nil
}

// Send makes data available for one read.
//
//go:noinline
func (p *Peer) Send(data []byte) {
	vs.Point("send")
	if p.c.closed || p.c.err != nil || len(data) == 0 {
		return
	}
	p.c.in = append(p.c.in, append([]byte(nil), data...))
	vs.RaceReleaseMerge(unsafe.Pointer(&p.c.sync))
}

// Close ends the data.
func (p *Peer) Close() { p.Fail(io.EOF) }

// Fail lets reads fail after the data.
//
//go:noinline
func (p *Peer) Fail(err error) {
	vs.Point("hangup")
	if p.c.err == nil {
		p.c.err = err
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&p.c.sync))
}

// Accepted tells if the connection was accepted.
func (p *Peer) Accepted() bool { return p.c.accepted }

// Closed tells if the other side closed the connection.
func (p *Peer) Closed() bool { return p.c.closed }

// Read is how many bytes were read by the other side.
func (p *Peer) Read() int { return p.c.read }

// Open counts listeners and accepted connections that are not closed.
//
//go:noinline
func Open() (listeners, conns int) {
	for _, l := range cur().listeners {
		if !l.closed {
			listeners++
		}
	}
	for _, c := range cur().conns {
		if c.accepted && !c.closed {
			conns++
		}
	}
	return
}
