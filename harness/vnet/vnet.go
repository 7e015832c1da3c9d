// Package vnet is an in-memory TCP-like network for one machine, hooked in below package net.
//
// It runs on whatever clock package time has: the virtual one of a synctest bubble, or the real one.
package vnet

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Outcome says what happens to one dial.
type Outcome struct {
	Delay  time.Duration // before anything happens
	Refuse bool
	Hang   bool // never answered (until the context ends)
}

// Policy is the behaviour of one direction of a connection.
type Policy struct {
	Latency time.Duration
	Frag    int           // at most so many bytes are read at once (0: no limit)
	Window  int           // writes block while so many bytes are unread (0: no limit)
	Batch   time.Duration // what is written arrives at multiples of it only (0: at any time)
	// Filter sees every written chunk and returns the bytes to be delivered instead.
	Filter func(p *Pipe, b []byte) []byte
}

// Dial is a record of a dial that was made.
type Dial struct {
	N       int // running number
	Addr    string
	At      time.Duration
	Outcome Outcome
	Conn    *Conn // dialler's end, when established
	Peer    *Conn // acceptor's end
	End     time.Duration
	Done    bool
	OK      bool
}

// Net is one network.
type Net struct {
	mu        sync.Mutex
	start     time.Time
	listeners map[int][]*Listener
	nextPort  int
	nextEph   int
	Local     []net.IP // addresses of this machine besides the loopback ones
	dials     []*Dial
	conns     []*Conn
	down      bool
	openL     int
	Record    bool // all wires are recorded

	// OnDial decides on dials; nil means success at once.
	OnDial func(d *Dial) Outcome
	// OnConn sets the policies of a new connection (toPeer: dialler to acceptor).
	OnConn func(d *Dial) (toPeer, toDialer Policy)
}

// New returns a new network.
func New() *Net {
	return &Net{start: time.Now(), listeners: map[int][]*Listener{}, nextPort: 20000, nextEph: 40000}
}

var cur atomic.Pointer[Net]

// Use makes n the network of this process.
func Use(n *Net) { cur.Store(n) }

// Cur returns the network in use.
func Cur() *Net { return cur.Load() }

// Now is the time since the network was created.
func (n *Net) Now() time.Duration { return time.Since(n.start) }

func opErr(op string, addr net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr, Err: err}
}

func (n *Net) isLocal(ip net.IP) bool {
	if ip == nil || ip.IsUnspecified() || ip.IsLoopback() {
		return true
	}
	for _, l := range n.Local {
		if l.Equal(ip) {
			return true
		}
	}
	return false
}

// Listen implements net.Listen.
func (n *Net) Listen(network, address string) (net.Listener, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("listen", nil, err)
	}
	pn, err := strconv.Atoi(port)
	if err != nil || pn < 0 || pn > 65535 {
		return nil, opErr("listen", nil, &net.AddrError{Err: "invalid port", Addr: address})
	}
	var ip net.IP
	if host != "" {
		ip = net.ParseIP(host)
		if ip == nil {
			return nil, opErr("listen", nil, &net.DNSError{Err: "no such host", Name: host})
		}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	a := &net.TCPAddr{IP: ip, Port: pn}
	if n.down {
		return nil, opErr("listen", a, syscall.ENETDOWN)
	}
	if !n.isLocal(ip) {
		return nil, opErr("listen", a, os.NewSyscallError("bind", syscall.EADDRNOTAVAIL))
	}
	if pn == 0 {
		for len(n.listeners[n.nextPort]) > 0 {
			n.nextPort++
		}
		pn = n.nextPort
		n.nextPort++
		a.Port = pn
	}
	for _, l := range n.listeners[pn] {
		if clash(l.ip, ip) {
			return nil, opErr("listen", a, os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	// Like Linux: a wildcard socket is reported as [::], IPv4 addresses in 4 bytes.
	rep := ip
	if ip == nil || ip.IsUnspecified() {
		rep = net.IPv6unspecified
	} else if v4 := ip.To4(); v4 != nil {
		rep = v4
	}
	l := &Listener{n: n, ip: ip, addr: &net.TCPAddr{IP: append(net.IP{}, rep...), Port: pn}, done: make(chan struct{}), wake: make(chan struct{}, 1)}
	n.listeners[pn] = append(n.listeners[pn], l)
	n.openL++
	return l, nil
}

// target4 is where a dial to ip goes: to the IPv4 loopback address for unspecified ones, as with package net on Linux
// (which also tries the IPv6 one for [::]).
func target4(ip net.IP) net.IP {
	if wild(ip) {
		return net.IPv4(127, 0, 0, 1)
	}
	return ip
}

func wild(ip net.IP) bool { return ip == nil || ip.IsUnspecified() }

func clash(a, b net.IP) bool {
	if wild(a) || wild(b) {
		return true
	}
	return a.Equal(b)
}

// Bound tells whether something listens on port.
func (n *Net) Bound(port int) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.listeners[port]) > 0
}

// Open is the number of listeners that have not been closed.
func (n *Net) Open() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.openL
}

// Dials returns all dials so far.
func (n *Net) Dials() []*Dial {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Dial(nil), n.dials...)
}

// Conns returns all connections ever established (dialler's ends).
func (n *Net) Conns() []*Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Conn(nil), n.conns...)
}

// Down takes the whole network down.
func (n *Net) Down() {
	n.mu.Lock()
	n.down = true
	conns := append([]*Conn(nil), n.conns...)
	var ls []*Listener
	for _, x := range n.listeners {
		ls = append(ls, x...)
	}
	n.mu.Unlock()
	for _, c := range conns {
		c.Reset()
	}
	for _, l := range ls {
		l.Close()
	}
}

// DialContext implements net.Dialer.DialContext.
func (n *Net) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return n.dial(ctx, address, nil)
}

// DialFrom dials as the harness itself: neither recorded nor subject to OnDial.
func (n *Net) DialFrom(ctx context.Context, address string, toPeer, toDialer Policy) (*Conn, error) {
	c, err := n.dial(ctx, address, &[2]Policy{toPeer, toDialer})
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

func (n *Net) dial(ctx context.Context, address string, own *[2]Policy) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", nil, mapErr(err))
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("dial", nil, err)
	}
	pn, err := strconv.Atoi(port)
	if err != nil || pn < 0 || pn > 65535 {
		return nil, opErr("dial", nil, &net.AddrError{Err: "invalid port", Addr: address})
	}
	var ip net.IP
	if host != "" {
		ip = net.ParseIP(host)
		if ip == nil {
			return nil, opErr("dial", nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
		}
	}
	target := &net.TCPAddr{IP: ip, Port: pn}
	d := &Dial{Addr: address, At: n.Now()}
	var out Outcome
	n.mu.Lock()
	d.N = -1
	if own == nil {
		d.N = len(n.dials)
		n.dials = append(n.dials, d)
	}
	onDial := n.OnDial
	n.mu.Unlock()
	if own == nil && onDial != nil {
		out = onDial(d)
	}
	n.mu.Lock()
	d.Outcome = out
	n.mu.Unlock()
	end := func(ok bool) {
		n.mu.Lock()
		d.Done, d.OK, d.End = true, ok, n.Now()
		n.mu.Unlock()
	}
	if out.Hang {
		<-ctx.Done()
		end(false)
		return nil, opErr("dial", target, mapErr(ctx.Err()))
	}
	if out.Delay > 0 {
		t := time.NewTimer(out.Delay)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			end(false)
			return nil, opErr("dial", target, mapErr(ctx.Err()))
		}
	}
	if out.Refuse {
		end(false)
		return nil, opErr("dial", target, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	var l *Listener
	n.mu.Lock()
	if !n.down && n.isLocal(ip) {
		for _, x := range n.listeners[pn] {
			if wild(x.ip) || x.ip.Equal(target4(ip)) || ip.Equal(net.IPv6unspecified) && x.ip.Equal(net.IPv6loopback) {
				l = x
			}
		}
	}
	if l == nil {
		n.mu.Unlock()
		end(false)
		return nil, opErr("dial", target, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextEph++
	rip := ip
	if wild(rip) {
		rip = net.IPv4(127, 0, 0, 1).To4()
		if l.ip != nil && l.ip.To4() == nil && l.ip.IsLoopback() {
			rip = net.IPv6loopback
		}
	}
	la := &net.TCPAddr{IP: rip, Port: n.nextEph}
	ra := &net.TCPAddr{IP: rip, Port: pn}
	n.mu.Unlock()

	var p0, p1 Policy
	if own != nil {
		p0, p1 = own[0], own[1]
	} else if n.OnConn != nil {
		p0, p1 = n.OnConn(d)
	}
	up, dn := newPipe(p0), newPipe(p1)
	up.RecAll, dn.RecAll = n.Record, n.Record
	a := &Conn{net: n, r: dn, w: up, la: la, ra: ra, Dialer: true}
	b := &Conn{net: n, r: up, w: dn, la: ra, ra: la}
	a.peer, b.peer = b, a
	up.conn, dn.conn = a, b
	a.dial, b.dial = d, d
	n.mu.Lock()
	d.Conn, d.Peer = a, b
	ok := !n.down && l.push(b)
	if ok {
		n.conns = append(n.conns, a)
	}
	n.mu.Unlock()
	if !ok {
		a.Reset()
		end(false)
		return nil, opErr("dial", target, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	end(true)
	return a, nil
}

func mapErr(err error) error {
	switch err {
	case context.Canceled:
		return errCanceled
	case context.DeadlineExceeded:
		return errTimeout
	}
	return err
}

type canceledError struct{}

func (canceledError) Error() string        { return "operation was canceled" }
func (canceledError) Is(target error) bool { return target == context.Canceled }

type timeoutError struct{}

func (timeoutError) Error() string        { return "i/o timeout" }
func (timeoutError) Timeout() bool        { return true }
func (timeoutError) Temporary() bool      { return true }
func (timeoutError) Is(target error) bool { return target == context.DeadlineExceeded }

var (
	errCanceled error = canceledError{}
	errTimeout  error = timeoutError{}
)

// Listener implements net.Listener.
type Listener struct {
	n    *Net
	ip   net.IP
	addr *net.TCPAddr
	mu   sync.Mutex
	q    []*Conn
	wake chan struct{}
	done chan struct{}
	once sync.Once
	shut bool
}

func (l *Listener) push(c *Conn) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.shut {
		return false
	}
	l.q = append(l.q, c)
	select {
	case l.wake <- struct{}{}:
	default:
	}
	return true
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.shut {
			l.mu.Unlock()
			return nil, opErr("accept", l.addr, net.ErrClosed)
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.mu.Unlock()
			return c, nil
		}
		l.mu.Unlock()
		select {
		case <-l.wake:
		case <-l.done:
		}
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	err := opErr("close", l.addr, net.ErrClosed)
	l.once.Do(func() {
		err = nil
		l.n.mu.Lock()
		ls := l.n.listeners[l.addr.Port]
		for i, x := range ls {
			if x == l {
				l.n.listeners[l.addr.Port] = append(append([]*Listener(nil), ls[:i]...), ls[i+1:]...)
			}
		}
		l.n.openL--
		l.n.mu.Unlock()
		l.mu.Lock()
		l.shut = true
		for _, c := range l.q {
			c.Reset()
		}
		l.q = nil
		l.mu.Unlock()
		close(l.done)
	})
	return err
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return l.addr }

type chunk struct {
	at time.Time
	b  []byte
}

// Pipe is one direction of a connection.
type Pipe struct {
	pol  Policy
	conn *Conn // writing end

	mu      sync.Mutex
	q       []chunk
	unread  int
	last    time.Time
	closed  bool // writer closed: EOF after the rest
	closeAt time.Time
	err     error // reset
	gone    bool  // reader closed
	goneW   int
	cut     bool // the end of the stream is artificial
	hole    bool // nothing is delivered any more
	change  chan struct{}
	Total   int64 // bytes written by the application
	Sent    int64 // bytes put on the wire
	Record  []byte
	Rec     bool
	RecAll  bool
	all     []byte
}

// All returns everything that was put on the wire, if the network records.
func (p *Pipe) All() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), p.all...)
}

func newPipe(p Policy) *Pipe { return &Pipe{pol: p, change: make(chan struct{})} }

func (p *Pipe) bump() {
	close(p.change)
	p.change = make(chan struct{})
}

// put adds bytes to the wire. p.mu is held.
func (p *Pipe) put(b []byte) {
	if p.hole || p.gone || p.err != nil || p.closed || len(b) == 0 {
		return
	}
	at := time.Now().Add(p.pol.Latency)
	if b := p.pol.Batch; b > 0 {
		at = at.Add(b - 1).Truncate(b)
	}
	if at.Before(p.last) {
		at = p.last
	}
	p.last = at
	p.q = append(p.q, chunk{at, append([]byte(nil), b...)})
	p.unread += len(b)
	p.Sent += int64(len(b))
	if p.RecAll {
		p.all = append(p.all, b...)
	}
	p.bump()
}

// Inject puts bytes on the wire as if the writer had sent them (not seen by the filter).
func (p *Pipe) Inject(b []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.put(b)
}

// InjectLocked is Inject for use within a filter.
func (p *Pipe) InjectLocked(b []byte) { p.put(b) }

// Hole has the pipe swallow everything from now on.
func (p *Pipe) Hole() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.hole = true
}

// HoleLocked is Hole for use within a filter.
func (p *Pipe) HoleLocked() { p.hole = true }

// EOFLocked has the reader see the end of the stream; the writer is not told. For use within a filter.
func (p *Pipe) EOFLocked() {
	if !p.closed {
		p.closed, p.cut = true, true
		p.closeAt = time.Now().Add(p.pol.Latency)
		p.bump()
	}
}

// EOF is EOFLocked for use elsewhere.
func (p *Pipe) EOF() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.EOFLocked()
}

func (p *Pipe) reset(err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.err = err
		p.q = nil
		p.bump()
	}
}

// Writer returns the end that writes to the pipe.
func (p *Pipe) Writer() *Conn { return p.conn }

// Conn implements net.Conn.
type Conn struct {
	net    *Net
	r, w   *Pipe
	la, ra *net.TCPAddr
	peer   *Conn
	dial   *Dial
	Dialer bool

	mu       sync.Mutex
	closed   bool
	rd, wd   deadline
	closedAt time.Duration
}

// Out returns the pipe this end writes to, In the one it reads from.
func (c *Conn) Out() *Pipe { return c.w }
func (c *Conn) In() *Pipe  { return c.r }

// Peer returns the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// DialRec returns the dial that made the connection.
func (c *Conn) DialRec() *Dial { return c.dial }

// Closed tells whether this end was closed by its owner.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// ClosedAt is the time it was closed at.
func (c *Conn) ClosedAt() (time.Duration, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closedAt, c.closed
}

type deadline struct {
	mu     sync.Mutex
	timer  *time.Timer
	cancel chan struct{}
}

func (d *deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.cancel == nil {
		d.cancel = make(chan struct{})
	}
	return d.cancel
}

func isDone(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.cancel == nil {
		d.cancel = make(chan struct{})
	}
	if d.timer != nil && !d.timer.Stop() {
		<-d.cancel // wait for the timer callback to finish and close cancel
	}
	d.timer = nil
	closed := isDone(d.cancel)
	if t.IsZero() {
		if closed {
			d.cancel = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			d.cancel = make(chan struct{})
		}
		cancel := d.cancel
		d.timer = time.AfterFunc(dur, func() { close(cancel) })
		return
	}
	if !closed {
		close(d.cancel)
	}
}

func (c *Conn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	for {
		if c.isClosed() {
			return 0, opErr("read", c.ra, net.ErrClosed)
		}
		dl := c.rd.wait()
		if isDone(dl) {
			return 0, opErr("read", c.ra, os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		p := c.r
		p.mu.Lock()
		if c.isClosed() { // a Close from here on changes the pipe after p.change was taken
			p.mu.Unlock()
			return 0, opErr("read", c.ra, net.ErrClosed)
		}
		if p.err != nil {
			err := p.err
			p.mu.Unlock()
			return 0, opErr("read", c.ra, os.NewSyscallError("read", err))
		}
		var next time.Time
		now := time.Now()
		if len(p.q) > 0 {
			if !p.q[0].at.After(now) {
				n := 0
				max := len(b)
				if p.pol.Frag > 0 && max > p.pol.Frag {
					max = p.pol.Frag
				}
				for n < max && len(p.q) > 0 && !p.q[0].at.After(now) {
					k := copy(b[n:max], p.q[0].b)
					n += k
					p.q[0].b = p.q[0].b[k:]
					if len(p.q[0].b) == 0 {
						p.q = p.q[1:]
					}
				}
				p.unread -= n
				if p.pol.Window > 0 {
					p.bump()
				}
				p.mu.Unlock()
				return n, nil
			}
			next = p.q[0].at
		} else if p.closed {
			if !p.closeAt.After(now) {
				p.mu.Unlock()
				return 0, io.EOF
			}
			next = p.closeAt
		}
		ch := p.change
		p.mu.Unlock()
		var tc <-chan time.Time
		var t *time.Timer
		if !next.IsZero() {
			t = time.NewTimer(next.Sub(now))
			tc = t.C
		}
		select {
		case <-ch:
		case <-tc:
		case <-dl:
		}
		if t != nil {
			t.Stop()
		}
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	for {
		if c.isClosed() {
			return 0, opErr("write", c.ra, net.ErrClosed)
		}
		dl := c.wd.wait()
		if isDone(dl) {
			return 0, opErr("write", c.ra, os.ErrDeadlineExceeded)
		}
		p := c.w
		p.mu.Lock()
		if c.isClosed() {
			p.mu.Unlock()
			return 0, opErr("write", c.ra, net.ErrClosed)
		}
		if p.err != nil {
			err := p.err
			p.mu.Unlock()
			return 0, opErr("write", c.ra, os.NewSyscallError("write", err))
		}
		if p.gone {
			p.goneW++
			first := p.goneW == 1
			p.mu.Unlock()
			if first { // as with TCP, the first write only provokes the reset
				return len(b), nil
			}
			return 0, opErr("write", c.ra, os.NewSyscallError("write", syscall.EPIPE))
		}
		if p.pol.Window > 0 && p.unread >= p.pol.Window {
			ch := p.change
			p.mu.Unlock()
			select {
			case <-ch:
			case <-dl:
			}
			continue
		}
		p.Total += int64(len(b))
		if p.Rec {
			p.Record = append(p.Record, b...)
		}
		if p.pol.Filter != nil {
			p.put(p.filter(b))
		} else {
			p.put(b)
		}
		p.mu.Unlock()
		return len(b), nil
	}
}

// filter runs the filter. Should that panic, it is not the code under test that is at fault.
func (p *Pipe) filter(b []byte) []byte {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness: a filter panicked: %v\n%s\n", r, debug.Stack())
			os.Exit(3)
		}
	}()
	return p.pol.Filter(p, b)
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return opErr("close", c.ra, net.ErrClosed)
	}
	c.closed = true
	c.closedAt = c.net.Now()
	c.mu.Unlock()
	c.w.mu.Lock()
	if !c.w.closed {
		c.w.closed = true
		c.w.closeAt = time.Now().Add(c.w.pol.Latency)
		if c.w.closeAt.Before(c.w.last) {
			c.w.closeAt = c.w.last
		}
	}
	c.w.bump()
	c.w.mu.Unlock()
	c.r.mu.Lock()
	c.r.gone = true
	c.r.q = nil
	c.r.bump()
	c.r.mu.Unlock()
	return nil
}

// Reset breaks the connection for both ends.
func (c *Conn) Reset() {
	c.r.reset(syscall.ECONNRESET)
	c.w.reset(syscall.ECONNRESET)
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return c.la }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", c.ra, net.ErrClosed)
	}
	c.rd.set(t)
	c.wd.set(t)
	return nil
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", c.ra, net.ErrClosed)
	}
	c.rd.set(t)
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", c.ra, net.ErrClosed)
	}
	c.wd.set(t)
	return nil
}

// String describes the connection.
func (c *Conn) String() string { return fmt.Sprintf("%s->%s", c.la, c.ra) }

// Install hooks the network in use into package net.
func Install() {
	net.VerifDial = func(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error, bool) {
		n := cur.Load()
		if n == nil {
			return nil, nil, false
		}
		if d.Timeout > 0 || !d.Deadline.IsZero() {
			var cancel context.CancelFunc
			if d.Timeout > 0 {
				ctx, cancel = context.WithTimeout(ctx, d.Timeout)
				defer cancel()
			}
			if !d.Deadline.IsZero() {
				var cancel2 context.CancelFunc
				ctx, cancel2 = context.WithDeadline(ctx, d.Deadline)
				defer cancel2()
			}
		}
		c, err := n.DialContext(ctx, network, address)
		return c, err, true
	}
	net.VerifListen = func(ctx context.Context, network, address string) (net.Listener, error, bool) {
		n := cur.Load()
		if n == nil {
			return nil, nil, false
		}
		l, err := n.Listen(network, address)
		return l, err, true
	}
}

// Broken tells whether the connection was reset, or one of its ends saw an artificial end of stream.
func (c *Conn) Broken() bool {
	for _, p := range []*Pipe{c.r, c.w} {
		p.mu.Lock()
		b := p.err != nil || p.cut
		p.mu.Unlock()
		if b {
			return true
		}
	}
	return false
}
