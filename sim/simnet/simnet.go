// Package simnet is the simulated network: in-process, TCP-like byte streams on
// the simulated clock with seeded delay, fragmentation, backpressure, stalls,
// partitions, resets, half-closes, message tampering and accept failures.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Rand is a counter based generator, one per network.
type Rand struct{ s uint64 }

// NewRand returns a seeded generator.
func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

// U64 returns the next value.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Fork returns an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.U64()) }

// Config of the links.
type Config struct {
	LatencyMin, LatencyMax time.Duration
	Window                 int // bytes in flight + undelivered before Write blocks
	Seg                    int // largest segment, 0 = whole write
	Frag                   int // largest Read result, 0 = unlimited
}

// Net is one simulated network.
type Net struct {
	mu        sync.Mutex
	rnd       *Rand
	cfg       Config
	listeners map[string]*Listener
	links     []*Link
	faults    map[string]int
	dialHook  func(addr string) error
	linkHook  func(l *Link)
	bytes     int64
}

// New returns a network.
func New(seed uint64, cfg Config) *Net {
	if cfg.Window == 0 {
		cfg.Window = 256 * 1024
	}
	return &Net{rnd: NewRand(seed), cfg: cfg, listeners: map[string]*Listener{}, faults: map[string]int{}}
}

// Install makes package net use this network.
func (n *Net) Install() {
	net.SimListen = func(ctx context.Context, network, address string) (net.Listener, error) { return n.Listen(address) }
	net.SimDial = func(ctx context.Context, network, address string, timeout time.Duration) (net.Conn, error) {
		c, _, err := n.DialCtx(ctx, address, timeout)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
}

// Count records an injected fault.
func (n *Net) Count(kind string) {
	n.mu.Lock()
	n.faults[kind]++
	n.mu.Unlock()
}

// Faults returns the injected fault counts.
func (n *Net) Faults() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	m := map[string]int{}
	for k, v := range n.faults {
		m[k] = v
	}
	return m
}

// Bytes delivered so far.
func (n *Net) Bytes() int64 { n.mu.Lock(); defer n.mu.Unlock(); return n.bytes }

// OnDial installs a hook that can refuse connections.
func (n *Net) OnDial(f func(addr string) error) { n.mu.Lock(); n.dialHook = f; n.mu.Unlock() }

// OnLink installs a hook that sees every new link before any byte moves.
func (n *Net) OnLink(f func(l *Link)) { n.mu.Lock(); n.linkHook = f; n.mu.Unlock() }

// Links returns all links made so far.
func (n *Net) Links() []*Link {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Link(nil), n.links...)
}

func portOf(address string) string {
	i := strings.LastIndex(address, ":")
	return address[i+1:]
}

// Listener of the simulated network.
type Listener struct {
	n      *Net
	port   string
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
	mu     sync.Mutex
	errs   []error
	kick   chan struct{}
}

// Listen on a port.
func (n *Net) Listen(address string) (net.Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	p := portOf(address)
	if _, ok := n.listeners[p]; ok {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{n: n, port: p, ch: make(chan net.Conn, 128), closed: make(chan struct{}), kick: make(chan struct{}, 64)}
	n.listeners[p] = l
	return l, nil
}

// Listening reports whether the port has a listener.
func (n *Net) Listening(port string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.listeners[port] != nil
}

// InjectAcceptError makes a pending or the next Accept fail with a temporary error.
func (n *Net) InjectAcceptError(port string) {
	n.mu.Lock()
	l := n.listeners[port]
	n.mu.Unlock()
	if l == nil {
		return
	}
	n.Count("accept_error")
	l.mu.Lock()
	l.errs = append(l.errs, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EMFILE)})
	l.mu.Unlock()
	select {
	case l.kick <- struct{}{}:
	default:
	}
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			l.mu.Unlock()
			return nil, e
		}
		l.mu.Unlock()
		select {
		case c := <-l.ch:
			c.(*Conn).link.accepted.Store(true)
			return c, nil
		case <-l.kick:
		case <-l.closed:
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	err := error(&net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed})
	l.once.Do(func() {
		err = nil
		close(l.closed)
		l.n.mu.Lock()
		delete(l.n.listeners, l.port)
		l.n.mu.Unlock()
	})
	return err
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return addr("simhost:" + l.port) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Directions of a link.
const (
	C2S = 0
	S2C = 1
)

// Link is one connection, with both directions.
type Link struct {
	n      *Net
	ID     int
	Port   string
	Client *Conn
	Server *Conn
	dir    [2]*pipe
	Opened time.Time

	accepted atomic.Bool
}

// Dial opens a connection to a port.
func (n *Net) Dial(address string, timeout time.Duration) (*Conn, *Link, error) {
	return n.DialCtx(context.Background(), address, timeout)
}

// DialCtx opens a connection to a port, unless the context ends first.
func (n *Net) DialCtx(ctx context.Context, address string, timeout time.Duration) (*Conn, *Link, error) {
	n.mu.Lock()
	hook := n.dialHook
	lat := n.latency()
	n.mu.Unlock()
	wait := func(d time.Duration) error {
		if d <= 0 {
			return nil
		}
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			return &net.OpError{Op: "dial", Net: "tcp", Err: ctx.Err()}
		}
	}
	if err := wait(lat); err != nil {
		return nil, nil, err
	}
	if hook != nil {
		if err := hook(address); err != nil {
			if errors.Is(err, os.ErrDeadlineExceeded) {
				if timeout <= 0 {
					timeout = 120 * time.Second
				}
				if err := wait(timeout); err != nil {
					return nil, nil, err
				}
			}
			return nil, nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
		}
	}
	n.mu.Lock()
	ln := n.listeners[portOf(address)]
	if ln == nil {
		n.mu.Unlock()
		return nil, nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	id := len(n.links)
	l := &Link{n: n, ID: id, Port: portOf(address), Opened: time.Now()}
	for d := 0; d < 2; d++ {
		l.dir[d] = &pipe{link: l, d: d, notify: make(chan struct{}), window: n.cfg.Window}
	}
	l.Client = &Conn{link: l, r: l.dir[S2C], w: l.dir[C2S], local: addr(fmt.Sprintf("client:%d", 40000+id)), remote: addr(address)}
	l.Server = &Conn{link: l, r: l.dir[C2S], w: l.dir[S2C], local: addr(address), remote: addr(fmt.Sprintf("client:%d", 40000+id))}
	n.links = append(n.links, l)
	lh := n.linkHook
	n.mu.Unlock()
	if lh != nil {
		lh(l)
	}
	select {
	case ln.ch <- l.Server:
	case <-ln.closed:
		return nil, nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	return l.Client, l, nil
}

func (n *Net) latency() time.Duration {
	d := n.cfg.LatencyMin
	if n.cfg.LatencyMax > n.cfg.LatencyMin {
		d += time.Duration(n.rnd.U64() % uint64(n.cfg.LatencyMax-n.cfg.LatencyMin))
	}
	return d
}

// pipe is one direction.
type pipe struct {
	link    *Link
	d       int
	mu      sync.Mutex
	notify  chan struct{}
	window  int
	queued  int // bytes written but not yet delivered to buf
	buf     []byte
	fly     []flight
	held    [][]byte // segments held by a stall
	stalled bool
	drop    bool // blackhole: bytes vanish
	eof     bool // writer closed, all delivered
	finPend bool
	rst     bool // reset
	wclosed bool // local close of the writing end
	rclosed bool // local close of the reading end
	lastAt  time.Time
	sent    int64
	cutAt   int64 // reset once this many bytes were delivered (0 = never)
	tamper  func(msg []byte) [][]byte
	tbuf    []byte
	paused  time.Time
}

func (p *pipe) wake() { close(p.notify); p.notify = make(chan struct{}) }

type flight struct {
	at  time.Time
	seg []byte
	fin bool
}

// arrive delivers, in order, everything that is due.
func (p *pipe) arrive() {
	p.mu.Lock()
	now := time.Now()
	cut := false
	for len(p.fly) > 0 && !p.fly[0].at.After(now) && !cut {
		f := p.fly[0]
		p.fly = p.fly[1:]
		switch {
		case p.rst:
		case f.fin:
			if p.stalled || len(p.held) > 0 {
				p.finPend = true
			} else {
				p.eof = true
				p.wake()
			}
		case p.stalled || len(p.held) > 0:
			p.held = append(p.held, f.seg)
		default:
			cut = p.deliverLocked(f.seg)
		}
	}
	p.mu.Unlock()
	if cut {
		p.link.Cut()
	}
}

// send puts a segment in flight; called with p.mu held.
func (p *pipe) send(lat time.Duration, seg []byte, fin bool) {
	at := time.Now().Add(lat)
	if at.Before(p.lastAt) {
		at = p.lastAt
	}
	at = at.Add(time.Nanosecond)
	p.lastAt = at
	p.fly = append(p.fly, flight{at, seg, fin})
	time.AfterFunc(time.Until(at), p.arrive)
}

func (p *pipe) deliverLocked(seg []byte) (cut bool) {
	p.queued -= len(seg)
	if p.cutAt > 0 && p.sent+int64(len(seg)) >= p.cutAt {
		keep := p.cutAt - p.sent
		if keep < 0 {
			keep = 0
		}
		seg = seg[:keep]
		cut = true
	}
	p.sent += int64(len(seg))
	if !p.drop {
		if p.tamper != nil {
			p.tbuf = append(p.tbuf, seg...)
			for len(p.tbuf) >= 8 {
				sz := int(uint32(p.tbuf[4]) | uint32(p.tbuf[5])<<8 | uint32(p.tbuf[6])<<16 | uint32(p.tbuf[7])<<24)
				if sz < 8 || len(p.tbuf) < sz {
					break
				}
				msg := append([]byte(nil), p.tbuf[:sz]...)
				p.tbuf = p.tbuf[sz:]
				for _, m := range p.tamper(msg) {
					p.buf = append(p.buf, m...)
				}
			}
		} else {
			p.buf = append(p.buf, seg...)
		}
	}
	p.wake()
	return cut
}

// Conn is one end of a link.
type Conn struct {
	link          *Link
	r, w          *pipe
	local, remote net.Addr
	dmu, wmu      sync.Mutex
	rdl, wdl      time.Time
	dch           chan struct{}
}

// Link returns the link of the connection.
func (c *Conn) Link() *Link { return c.link }

func (c *Conn) deadline(write bool) (time.Time, chan struct{}) {
	c.dmu.Lock()
	defer c.dmu.Unlock()
	if c.dch == nil {
		c.dch = make(chan struct{})
	}
	if write {
		return c.wdl, c.dch
	}
	return c.rdl, c.dch
}

func wait(n chan struct{}, dl time.Time, dch chan struct{}) bool {
	if dl.IsZero() {
		select {
		case <-n:
		case <-dch:
		}
		return true
	}
	d := time.Until(dl)
	if d <= 0 {
		return false
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-n:
	case <-dch:
	case <-t.C:
	}
	return true
}

var errTimeout = os.ErrDeadlineExceeded

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	p := c.r
	for {
		dl, dch := c.deadline(false)
		p.mu.Lock()
		if p.rclosed {
			p.mu.Unlock()
			return 0, opErr("read", net.ErrClosed)
		}
		if !dl.IsZero() && !time.Now().Before(dl) {
			p.mu.Unlock()
			return 0, opErr("read", errTimeout)
		}
		if p.rst {
			p.mu.Unlock()
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(b) == 0 {
			p.mu.Unlock()
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := len(b)
			if n > len(p.buf) {
				n = len(p.buf)
			}
			if f := c.link.n.cfg.Frag; f > 0 && n > 1 {
				c.link.n.mu.Lock()
				k := 1 + c.link.n.rnd.N(f)
				c.link.n.mu.Unlock()
				if n > k {
					n = k
				}
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			c.link.n.mu.Lock()
			c.link.n.bytes += int64(n)
			c.link.n.mu.Unlock()
			p.wake()
			p.mu.Unlock()
			return n, nil
		}
		if p.eof {
			p.mu.Unlock()
			return 0, io.EOF
		}
		nt := p.notify
		p.mu.Unlock()
		wait(nt, dl, dch)
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	p := c.w
	n := c.link.n
	total := 0
	c.wmu.Lock() // like the descriptor's write lock
	defer c.wmu.Unlock()
	for {
		dl, dch := c.deadline(true)
		p.mu.Lock()
		if p.wclosed {
			p.mu.Unlock()
			return total, opErr("write", net.ErrClosed)
		}
		if !dl.IsZero() && !time.Now().Before(dl) {
			p.mu.Unlock()
			return total, opErr("write", errTimeout)
		}
		if p.rst {
			p.mu.Unlock()
			return total, opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if p.rclosed { // peer closed its receiving end: it resets us
			p.rst = true
			p.mu.Unlock()
			return total, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			p.mu.Unlock()
			return total, nil
		}
		space := p.window - p.queued - len(p.buf)
		if space > 0 {
			k := len(b)
			if k > space {
				k = space
			}
			n.mu.Lock()
			if n.cfg.Seg > 0 && k > 1 {
				if m := 1 + n.rnd.N(n.cfg.Seg); k > m {
					k = m
				}
			}
			lat := n.latency()
			n.mu.Unlock()
			seg := append([]byte(nil), b[:k]...)
			b = b[k:]
			total += k
			p.queued += k
			p.send(lat, seg, false)
			p.mu.Unlock()
			continue
		}
		nt := p.notify
		p.mu.Unlock()
		wait(nt, dl, dch)
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.w.mu.Lock()
	if c.w.wclosed {
		c.w.mu.Unlock()
		return opErr("close", net.ErrClosed)
	}
	c.w.wclosed = true
	c.w.send(0, nil, true)
	c.w.wake()
	c.w.mu.Unlock()
	c.r.mu.Lock()
	c.r.rclosed = true
	c.r.wake()
	c.r.mu.Unlock()
	return nil
}

// CloseWrite half-closes.
func (c *Conn) CloseWrite() {
	c.w.mu.Lock()
	if c.w.wclosed {
		c.w.mu.Unlock()
		return
	}
	c.w.wclosed = true
	c.w.send(0, nil, true)
	c.w.mu.Unlock()
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return c.local }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) setDl(r, w *time.Time) {
	c.dmu.Lock()
	if r != nil {
		c.rdl = *r
	}
	if w != nil {
		c.wdl = *w
	}
	if c.dch != nil {
		close(c.dch)
	}
	c.dch = make(chan struct{})
	c.dmu.Unlock()
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error { c.setDl(&t, &t); return nil }

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error { c.setDl(&t, nil); return nil }

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error { c.setDl(nil, &t); return nil }

// ---- faults on a link

// Cut resets the connection in both directions.
func (l *Link) Cut() {
	l.n.Count("link_reset")
	for _, p := range l.dir {
		p.mu.Lock()
		p.rst = true
		p.buf = nil
		p.held = nil
		p.wake()
		p.mu.Unlock()
	}
}

// CutAfter resets the link once n more bytes were delivered in a direction.
func (l *Link) CutAfter(d int, n int64) {
	l.n.Count("link_reset_at_byte")
	p := l.dir[d]
	p.mu.Lock()
	if n < 1 {
		n = 1
	}
	p.cutAt = p.sent + n
	p.mu.Unlock()
}

// Stall holds back delivery in a direction until Unstall.
func (l *Link) Stall(d int) {
	l.n.Count("link_stall")
	p := l.dir[d]
	p.mu.Lock()
	p.stalled = true
	p.mu.Unlock()
}

// Unstall resumes delivery.
func (l *Link) Unstall(d int) {
	p := l.dir[d]
	p.mu.Lock()
	p.stalled = false
	held := p.held
	p.held = nil
	cut := false
	for _, s := range held {
		if p.deliverLocked(s) {
			cut = true
			break
		}
	}
	if p.finPend {
		p.eof = true
		p.finPend = false
	}
	p.wake()
	p.mu.Unlock()
	if cut {
		l.Cut()
	}
}

// Partition stalls both directions.
func (l *Link) Partition() { l.Stall(C2S); l.Stall(S2C) }

// Heal resumes both directions.
func (l *Link) Heal() { l.Unstall(C2S); l.Unstall(S2C) }

// SetWindow sets the flow-control window of a direction.
func (l *Link) SetWindow(d, n int) {
	l.n.Count("window_change")
	p := l.dir[d]
	p.mu.Lock()
	p.window = n
	p.wake()
	p.mu.Unlock()
}

// Tamper installs a function that sees each complete protocol message of a
// direction and returns what is delivered in its place.
func (l *Link) Tamper(d int, f func(msg []byte) [][]byte) {
	p := l.dir[d]
	p.mu.Lock()
	p.tamper = f
	p.mu.Unlock()
}

// Inject appends raw bytes to a direction, as if they arrived now.
func (l *Link) Inject(d int, b []byte) {
	l.n.Count("bytes_injected")
	p := l.dir[d]
	p.mu.Lock()
	if !p.rst && !p.eof {
		p.buf = append(p.buf, b...)
		p.wake()
	}
	p.mu.Unlock()
}

// Closed reports whether either end closed or the link was reset.
func (l *Link) Closed() bool {
	for _, p := range l.dir {
		p.mu.Lock()
		x := p.rst || p.wclosed
		p.mu.Unlock()
		if x {
			return true
		}
	}
	return false
}

// Accepted reports whether the server has taken the connection.
func (l *Link) Accepted() bool { return l.accepted.Load() }

// ServerClosed reports whether the server end closed the connection (or the link was reset).
func (l *Link) ServerClosed() bool {
	p := l.dir[S2C]
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.wclosed || p.rst
}

// ClientClosed reports whether the client end closed the connection (or the link was reset).
func (l *Link) ClientClosed() bool {
	p := l.dir[C2S]
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.wclosed || p.rst
}

// Pending returns bytes not yet read by the receiver of a direction.
func (l *Link) Pending(d int) int {
	p := l.dir[d]
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.buf) + p.queued
}
