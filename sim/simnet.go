//go:build go1.21

package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"weak"
)

// simNet is the simulated network: reliable ordered byte streams, like TCP,
// with latency, arbitrary segmentation, and connections that can be cut at any
// byte, be silent for a while, be refused or be answered late.
//
// The harness is not preempted between its own statements, so this needs no
// locks; goroutines wait on channels.
type simNet struct {
	guests    []weak.Pointer[guest]
	e         *Env
	listeners map[string]*simListener
	links     []*simLink
	dials     map[string]int
	served    int             // listeners the proxy opened
	listenErr error           // refuses them
	refuse    map[string]bool // host down: dials are refused
	dark      map[string]bool // partitioned: nothing is delivered, dials hang
	darkWake  []chan struct{}
	wire      func(l *simLink, toServer bool, b []byte) // observer of all bytes
	cutPlan   func(l *simLink)                          // decides a link's faults when it is made
	minLat    time.Duration
	fast      bool
}

func newSimNet(e *Env) *simNet {
	n := &simNet{e: e, listeners: map[string]*simListener{}, dials: map[string]int{}, refuse: map[string]bool{}, dark: map[string]bool{}}
	net.SimDial = n.dial
	net.SimListen = func(network, addr string) (net.Listener, error) { return n.listen(addr) }
	return n
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	n      *simNet
	addr   string
	queue  []*simConn
	wake   chan struct{}
	closed bool
}

type guest struct{ *simConn }

// kept counts the connections of clients that are still in memory.
func (n *simNet) kept() int {
	k := 0
	for _, g := range n.guests {
		if g.Value() != nil {
			k++
		}
	}
	return k
}

func (n *simNet) listen(addr string) (net.Listener, error) {
	if l := n.listeners[addr]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	if addr != remoteAddr {
		if n.listenErr != nil {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Err: n.listenErr}
		}
		n.served++
	}
	l := &simListener{n: n, addr: addr}
	n.listeners[addr] = l
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, net.ErrClosed
		}
		if len(l.queue) > 0 {
			if l.addr != remoteAddr && l.n.e.chance("accept-err", kNet) {
				// out of file descriptors, or a client that left at once; the
				// connections waiting stay
				l.n.e.fault("accept-error")
				en := []syscall.Errno{syscall.ECONNABORTED, syscall.EMFILE, syscall.ENFILE}[l.n.e.pick(3, kNet)]
				return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: simAddr(l.addr), Err: os.NewSyscallError("accept4", en)}
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			if l.addr != remoteAddr {
				// what only the proxy holds, so that it shows when it lets go
				g := &guest{c}
				l.n.guests = append(l.n.guests, weak.Make(g))
				return g, nil
			}
			return c, nil
		}
		w := make(chan struct{})
		l.wake = w
		<-w
	}
}

func (l *simListener) kick() {
	if w := l.wake; w != nil {
		l.wake = nil // closing is a preemption point
		close(w)
	}
}

func (l *simListener) Close() error {
	l.closed = true
	for _, c := range l.queue {
		c.l.reset()
	}
	l.queue = nil
	l.kick()
	return nil
}
func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

// simLink is one connection: two directions.
type simLink struct {
	n       *simNet
	id      int
	addr    string // dialled address
	a, b    *simConn
	toB     half // client to server
	toA     half
	dead    bool
	cutDir  int // 0 none, 1 client to server, 2 server to client
	cutAt   int
	cutMode string
	stuck   bool // silent: nothing is delivered
	opened  uint64
}

type seg struct {
	b  []byte
	at int64
}

type half struct {
	segs   []seg
	total  int // bytes written so far
	eof    bool
	eofAt  int64
	rst    bool
	wclose bool // the writing end is closed
	rclose bool // the reading end is closed
	wait   []chan struct{}
	lastAt int64
}

func (h *half) kick() {
	ws := h.wait
	h.wait = nil // closing is a preemption point
	for _, w := range ws {
		close(w)
	}
}

type simConn struct {
	l              *simLink
	server         bool
	rd, wr         *half
	closed         bool
	rdl, wdl       time.Time
	local, remote  simAddr
	bytesIn, bytes int
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}

func (n *simNet) now() int64 { return time.Now().UnixNano() }

func (n *simNet) lat() time.Duration {
	if n.fast {
		return 0
	}
	switch n.e.pick(8, kNet) {
	case 1:
		return 50 * time.Microsecond
	case 2:
		return time.Millisecond
	case 3:
		return 5 * time.Millisecond
	case 4:
		return time.Duration(1+n.e.pick(60, kNet)) * time.Millisecond
	}
	return 200 * time.Microsecond
}

func (n *simNet) newLink(addr, from string) *simLink {
	l := &simLink{n: n, id: len(n.links) + 1, addr: addr}
	l.a = &simConn{l: l, rd: &l.toA, wr: &l.toB, local: simAddr(from), remote: simAddr(addr)}
	l.b = &simConn{l: l, server: true, rd: &l.toB, wr: &l.toA, local: simAddr(addr), remote: simAddr(from)}
	n.links = append(n.links, l)
	if n.cutPlan != nil {
		n.cutPlan(l)
	}
	return l
}

func (n *simNet) dial(ctx context.Context, network, addr string, timeout time.Duration) (net.Conn, error) {
	return n.dialFrom(ctx, addr, "10.0.0.1:40000", timeout)
}

func (n *simNet) dialFrom(ctx context.Context, addr, from string, timeout time.Duration) (net.Conn, error) {
	n.dials[addr]++
	rtt := 2 * n.lat()
	if timeout > 0 && timeout < rtt {
		time.Sleep(timeout)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: os.ErrDeadlineExceeded}
	}
	time.Sleep(rtt)
	opErr := func(e error) error { return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: e} }
	if n.dark[addr] {
		n.e.fault("dial-into-partition")
		limit := 127 * time.Second // what Linux takes to give up
		if timeout > 0 && timeout < limit {
			limit = timeout
		}
		end := time.Now().Add(limit)
		for n.dark[addr] {
			if !time.Now().Before(end) {
				return nil, opErr(syscall.ETIMEDOUT)
			}
			time.Sleep(time.Second)
			if ctx.Err() != nil {
				return nil, opErr(ctx.Err())
			}
		}
	}
	l := n.listeners[addr]
	if n.refuse[addr] || l == nil || l.closed {
		n.e.fault("dial-refused")
		return nil, opErr(syscall.ECONNREFUSED)
	}
	if addr == remoteAddr && n.e.chance("dial-fail", kNet) {
		n.e.fault("dial-failure")
		return nil, opErr([]error{syscall.ECONNREFUSED, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.EMFILE}[n.e.pick(4, kNet)])
	}
	k := n.newLink(addr, from)
	l.queue = append(l.queue, k.b)
	l.kick()
	return k.a, nil
}

// reset kills the link: both ends get an error at once, bytes under way are lost.
func (l *simLink) reset() {
	if l.dead {
		return
	}
	l.dead = true
	for _, h := range []*half{&l.toA, &l.toB} {
		h.rst = true
		h.segs = nil
		h.kick()
	}
}

// hush makes the link silent for d and then resets it.
func (l *simLink) hush(d time.Duration) {
	l.stuck = true
	go func() {
		time.Sleep(d)
		l.reset()
	}()
}

func (c *simConn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: c.remote, Err: e}
}

func (c *simConn) Write(b []byte) (int, error) {
	h, l, n := c.wr, c.l, c.l.n
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	if h.rst || l.dead {
		return 0, errReset
	}
	if h.wclose || h.rclose {
		if h.rclose && !h.rst { // the peer is gone: the answer to this is a reset
			l.reset()
		}
		return 0, errPipe
	}
	if len(b) == 0 {
		return 0, nil
	}
	if n.wire != nil {
		n.wire(l, !c.server, b)
	}
	dir := 1
	if c.server {
		dir = 2
	}
	if l.cutDir == dir && h.total+len(b) >= l.cutAt {
		keep := l.cutAt - h.total
		n.e.fault("cut-" + l.cutMode)
		l.cutDir = 0
		switch l.cutMode {
		case "rst":
			l.reset()
			return 0, errReset
		case "lost": // the kernel took it, the peer never sees it
			l.reset()
			return len(b), nil
		case "fin": // orderly end of this direction after keep bytes
			c.push(b[:keep])
			h.total += keep
			h.eof, h.wclose = true, true
			h.kick()
			return 0, errPipe
		case "torn": // the peer gets the first bytes, then a reset a moment later
			c.push(b[:keep])
			h.total += keep
			go func() {
				time.Sleep(time.Second)
				l.reset()
			}()
			h.wclose = true
			return 0, errPipe
		case "silent":
			c.push(b[:keep])
			h.total += keep
			l.hush(time.Duration(1+n.e.pick(40, kNet)) * time.Second)
			return len(b), nil
		}
	}
	h.total += len(b)
	c.push(b)
	return len(b), nil
}

func (c *simConn) push(b []byte) {
	h, n := c.wr, c.l.n
	at := n.now() + int64(n.lat())
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	for len(b) > 0 {
		k := len(b)
		if k > 1 && n.e.chance("split", kNet) {
			k = 1 + n.e.pick(k-1, kNet)
		}
		h.segs = append(h.segs, seg{append([]byte{}, b[:k]...), at})
		b = b[k:]
	}
	h.kick()
}

func (c *simConn) Read(b []byte) (int, error) {
	h, n := c.rd, c.l.n
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if h.rst {
			return 0, errReset
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		var wait time.Duration = -1
		silent := c.l.stuck || n.dark[c.l.addr]
		if silent && n.dark[c.l.addr] {
			wait = 500 * time.Millisecond
		} else if !silent && len(h.segs) > 0 {
			s := &h.segs[0]
			d := s.at - n.now()
			if d <= 0 {
				k := copy(b, s.b)
				s.b = s.b[k:]
				if len(s.b) == 0 {
					h.segs = h.segs[1:]
				}
				return k, nil
			}
			wait = time.Duration(d)
		} else if !silent && h.eof {
			return 0, io.EOF
		}
		w := make(chan struct{})
		h.wait = append(h.wait, w)
		if !c.rdl.IsZero() {
			if d := time.Until(c.rdl); wait < 0 || d < wait {
				wait = d
			}
		}
		if wait < 0 {
			<-w
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-w:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *simConn) Close() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.wr.eof, c.wr.wclose = true, true
	c.rd.rclose = true
	if len(c.rd.segs) > 0 { // unread data: the peer sees a reset
		c.l.reset()
	}
	c.rd.kick()
	c.wr.kick()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }
func (c *simConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.rd.kick()
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.rd.kick()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// open counts the links to addr that the dialling side still holds open.
func (n *simNet) open(addr string) int {
	k := 0
	for _, l := range n.links {
		if l.addr == addr && !l.a.closed && !l.dead {
			k++
		}
	}
	return k
}

// held counts the links to addr the dialling side has not closed, dead or not.
func (n *simNet) held(addr string) int {
	k := 0
	for _, l := range n.links {
		if l.addr == addr && !l.a.closed {
			k++
		}
	}
	return k
}

// crash ends everything at addr: connections are reset, dials refused.
func (n *simNet) crash(addr string) {
	n.refuse[addr] = true
	for _, l := range n.links {
		if l.addr == addr {
			l.reset()
		}
	}
}

var errSim = errors.New("simulated")
