package verifsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// The simulated network: TCP connections between addresses of the simulated
// world.  Every delay, segmentation and failure is drawn from the network's
// generator.

type Link struct {
	LatMin, LatMax time.Duration // per segment
	Frag           int           // 0 whole writes, 1 random segments, 2 tiny segments, 3 single bytes for the first 400 bytes then tiny
	Window         int           // bytes in flight + unread before Write blocks
	Pause          int           // per mille of segments followed by a long pause
	PauseMax       time.Duration
	Coalesce       int // percent: a Read may return several segments at once
}

type Net struct {
	mu        holdMutex
	rng       *Rng
	listeners map[string]*simListener
	conns     []*simConn
	nextPort  int
	Links     map[string]*Link // by listener address
	Default   Link
	blackhole map[string]time.Time // by listener address: nothing is delivered before
	refuse    map[string]time.Time
	sim       *Sim
	hosts     map[int32]string // tag -> host address
	OnListen  func(addr string)
}

func NewNet(s *Sim) *Net {
	return &Net{
		rng: NewRng(s.Seed, "net"), listeners: map[string]*simListener{}, nextPort: 20000,
		Links: map[string]*Link{}, blackhole: map[string]time.Time{}, refuse: map[string]time.Time{},
		Default: Link{LatMin: 100 * time.Microsecond, LatMax: 2 * time.Millisecond, Window: 1 << 16, Coalesce: 50},
		sim:     s, hosts: map[int32]string{},
	}
}

func (n *Net) link(addr string) *Link {
	if l := n.Links[addr]; l != nil {
		return l
	}
	return &n.Default
}

type simListener struct {
	n      *Net
	addr   *net.TCPAddr
	key    string
	tag    int32
	ch     chan *simConn
	closed chan struct{}
	once   sync.Once
	pend   int
}

func parseAddr(s string) (*net.TCPAddr, error) {
	h, p, err := net.SplitHostPort(s)
	if err != nil {
		return nil, err
	}
	if h == "localhost" || h == "" {
		h = "127.0.0.1"
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	ip := net.ParseIP(h)
	if ip == nil {
		return nil, fmt.Errorf("lookup %s: no such host", h)
	}
	return &net.TCPAddr{IP: ip, Port: port}, nil
}

func (n *Net) Listen(network, address string) (net.Listener, error) {
	a, err := parseAddr(address)
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if l := n.listeners[a.String()]; l != nil {
		return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	l := &simListener{n: n, addr: a, key: a.String(), tag: runtime.SimTag(), ch: make(chan *simConn, 128), closed: make(chan struct{})}
	n.listeners[l.key] = l
	n.sim.Probe("net.listen")
	if n.OnListen != nil {
		n.OnListen(l.key)
	}
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *simListener) Close() error {
	l.once.Do(func() {
		close(l.closed)
		l.n.mu.Lock()
		if l.n.listeners[l.key] == l {
			delete(l.n.listeners, l.key)
		}
		l.n.mu.Unlock()
		for {
			select {
			case c := <-l.ch:
				c.reset(syscall.ECONNRESET)
			default:
				return
			}
		}
	})
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(err error) bool {
	return err == os.ErrDeadlineExceeded || err == context.DeadlineExceeded
}

const synTimeout = 127 * time.Second

func (n *Net) Dial(ctx context.Context, network, address string) (net.Conn, error) {
	a, err := parseAddr(address)
	if err != nil {
		return nil, err
	}
	key := a.String()
	deadline := time.Now().Add(synTimeout)
	var wait time.Duration
	for {
		n.mu.Lock()
		lk := n.link(key)
		wait = lk.LatMin + time.Duration(n.rng.N(int(lk.LatMax-lk.LatMin)+1))
		until := n.blackhole[key]
		n.mu.Unlock()
		if d := time.Until(until); d > 0 {
			wait = d // SYN retransmitted until the network heals
		}
		if time.Now().Add(wait).After(deadline) {
			wait = time.Until(deadline)
		}
		t := time.NewTimer(wait)
		select {
		case <-ctx.Done():
			t.Stop()
			if errors.Is(ctx.Err(), context.DeadlineExceeded) {
				return nil, timeoutErr{}
			}
			return nil, ctx.Err()
		case <-t.C:
		}
		if !time.Now().Before(deadline) {
			return nil, os.NewSyscallError("connect", syscall.ETIMEDOUT)
		}
		n.mu.Lock()
		if time.Until(n.blackhole[key]) > 0 {
			n.mu.Unlock()
			continue
		}
		l := n.listeners[key]
		if l == nil || time.Until(n.refuse[key]) > 0 || len(l.ch) == cap(l.ch) {
			n.mu.Unlock()
			n.sim.Probe("net.refused")
			return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
		}
		n.nextPort++
		host := n.hosts[runtime.SimTag()]
		if host == "" {
			host = "10.0.1.1"
		}
		la := &net.TCPAddr{IP: net.ParseIP(host), Port: n.nextPort}
		c, s := n.pair(la, l.addr, runtime.SimTag(), l.tag, key, lk)
		l.ch <- s
		n.mu.Unlock()
		n.sim.Probe("net.connect")
		return c, nil
	}
}

// one direction of a connection
type pipe struct {
	segs    []seg
	bytes   int // in flight and unread
	last    time.Time
	fin     bool
	finAt   time.Time
	rst     bool // the end comes as a reset
	total   int64
	stalled time.Time // nothing is delivered before
}

type seg struct {
	b  []byte
	at time.Time
}

type simConn struct {
	n          *Net
	mu         *holdMutex // shared by both ends
	wmu        sync.Mutex // serialises writers, like the fd write lock
	rmu        sync.Mutex
	peer       *simConn
	in, out    *pipe
	local, rem net.Addr
	tag        int32
	key        string
	lk         *Link
	closed     bool
	err        error // connection error (reset)
	rdl, wdl   time.Time
	note       chan struct{} // closed and replaced when something changes
	id         int
	rng        *Rng
	client     bool
	readHold   time.Time // this end stops reading (kernel buffer fills)
	squeeze    int       // room the other end leaves for what this end writes
}

func (n *Net) pair(la, ra net.Addr, ctag, stag int32, key string, lk *Link) (*simConn, *simConn) {
	mu := new(holdMutex)
	a, b := &pipe{}, &pipe{}
	id := len(n.conns)
	c := &simConn{n: n, mu: mu, in: a, out: b, local: la, rem: ra, tag: ctag, key: key, lk: lk, note: make(chan struct{}), id: id, rng: &Rng{s: n.rng.U64()}, client: true}
	s := &simConn{n: n, mu: mu, in: b, out: a, local: ra, rem: la, tag: stag, key: key, lk: lk, note: make(chan struct{}), id: id + 1, rng: &Rng{s: n.rng.U64()}}
	c.peer, s.peer = s, c
	n.conns = append(n.conns, c, s)
	return c, s
}

func (c *simConn) wake() {
	close(c.note)
	c.note = make(chan struct{})
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.rem }

func (c *simConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.rem, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	runtime.SimYield()
	c.rmu.Lock()
	defer c.rmu.Unlock()
	for {
		c.mu.Lock()
		now := time.Now()
		if c.closed {
			c.mu.Unlock()
			return 0, c.opErr("read", net.ErrClosed)
		}
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			c.mu.Unlock()
			return 0, c.opErr("read", timeoutErr{})
		}
		var next time.Time
		if len(c.in.segs) > 0 {
			if at := c.in.segs[0].at; !at.After(now) || len(b) == 0 {
				n := 0
				for len(c.in.segs) > 0 && n < len(b) && !c.in.segs[0].at.After(now) {
					s := &c.in.segs[0]
					k := copy(b[n:], s.b)
					n += k
					if k < len(s.b) {
						s.b = s.b[k:]
						break
					}
					c.in.segs = c.in.segs[1:]
					if c.rng.N(100) >= c.lk.Coalesce {
						break
					}
				}
				c.in.bytes -= n
				c.peer.wake()
				c.mu.Unlock()
				return n, nil
			}
			next = c.in.segs[0].at
		} else if c.err != nil {
			err := c.err
			c.mu.Unlock()
			return 0, c.opErr("read", os.NewSyscallError("read", err))
		} else if c.in.fin {
			if !c.in.finAt.After(now) {
				if c.in.rst && c.err == nil {
					c.err = syscall.ECONNRESET
					c.mu.Unlock()
					return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
				}
				c.mu.Unlock()
				return 0, io.EOF
			}
			next = c.in.finAt
		}
		if c.err != nil { // a reset overtakes data in flight
			err := c.err
			c.mu.Unlock()
			return 0, c.opErr("read", os.NewSyscallError("read", err))
		}
		if !c.rdl.IsZero() && (next.IsZero() || c.rdl.Before(next)) {
			next = c.rdl
		}
		note := c.note
		c.mu.Unlock()
		waitNote(note, next)
	}
}

func waitNote(note chan struct{}, next time.Time) {
	if next.IsZero() {
		<-note
		return
	}
	t := time.NewTimer(time.Until(next))
	select {
	case <-note:
	case <-t.C:
	}
	t.Stop()
}

func (c *simConn) Write(b []byte) (int, error) {
	runtime.SimYield()
	c.wmu.Lock()
	defer c.wmu.Unlock()
	done := 0
	for {
		c.mu.Lock()
		now := time.Now()
		if c.closed {
			c.mu.Unlock()
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.err != nil {
			err := c.err
			c.mu.Unlock()
			return done, c.opErr("write", os.NewSyscallError("write", err))
		}
		if c.out.fin { // shut down for writing
			c.mu.Unlock()
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.peer.closed { // RST in answer to data on a closed socket
			c.err = syscall.EPIPE
			c.mu.Unlock()
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if !c.wdl.IsZero() && !now.Before(c.wdl) {
			c.mu.Unlock()
			return done, c.opErr("write", timeoutErr{})
		}
		if done == len(b) {
			c.mu.Unlock()
			return done, nil
		}
		win := c.lk.Window
		if c.squeeze > 0 {
			win = minInt(win, c.squeeze)
		}
		if room := win - c.out.bytes; room > 0 {
			k := minInt(room, len(b)-done)
			c.send(b[done:done+k], now)
			done += k
			c.peer.wake()
			c.mu.Unlock()
			if done == len(b) {
				return done, nil // what happens from now on fails a later write
			}
			continue
		}
		note, dl := c.note, c.wdl
		c.mu.Unlock()
		c.n.sim.Probe("net.backpressure")
		waitNote(note, dl)
	}
}

// send queues b as segments; c.mu is held.
func (c *simConn) send(b []byte, now time.Time) {
	p := c.out
	p.bytes += len(b)
	lk := c.lk
	for len(b) > 0 {
		k := len(b)
		switch lk.Frag {
		case 1:
			if c.rng.P(60) {
				k = 1 + c.rng.N(len(b))
			}
		case 2:
			k = minInt(len(b), 1+c.rng.N(7))
			if p.total > 3000 {
				k = minInt(len(b), 1+c.rng.N(400))
			}
		case 3:
			k = 1
			if p.total > 400 {
				k = minInt(len(b), 1+c.rng.N(64))
			}
			if p.total > 6000 {
				k = minInt(len(b), 1+c.rng.N(900))
			}
		}
		at := now.Add(lk.LatMin + time.Duration(c.rng.N(int(lk.LatMax-lk.LatMin)+1)))
		if lk.Pause > 0 && c.rng.PM(lk.Pause) {
			at = at.Add(time.Duration(c.rng.U64() % uint64(lk.PauseMax+1)))
			c.n.sim.Fault("net.pause")
		}
		if at.Before(p.last) {
			at = p.last
		}
		if at.Before(p.stalled) {
			at = p.stalled
		}
		if bh := c.n.blackhole[c.key]; at.Before(bh) {
			at = bh
		}
		p.last = at
		p.segs = append(p.segs, seg{append([]byte(nil), b[:k]...), at})
		p.total += int64(k)
		b = b[k:]
		if lk.Frag != 0 {
			c.n.sim.Count("net.segments", 1)
		}
	}
}

func (c *simConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.rst = len(c.in.segs) > 0 // unread data: RST, as Linux does
	c.fin()
	c.wake()
	c.peer.wake()
	return nil
}

func (c *simConn) fin() {
	if !c.out.fin {
		c.out.fin = true
		c.out.finAt = time.Now().Add(c.lk.LatMin)
		if c.out.finAt.Before(c.out.last) {
			c.out.finAt = c.out.last
		}
		if bh := c.n.blackhole[c.key]; c.out.finAt.Before(bh) {
			c.out.finAt = bh
		}
	}
}

// CloseWrite is used by net/http, which half-closes before it closes.
func (c *simConn) CloseWrite() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.fin()
	c.wake()
	c.peer.wake()
	return nil
}

// reset breaks the connection for both ends.
func (c *simConn) reset(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, e := range []*simConn{c, c.peer} {
		if e.err == nil {
			e.err = err
		}
		e.wake()
	}
}

func (c *simConn) broken() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed || c.err != nil
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.wake()
	c.mu.Unlock()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.wake()
	c.mu.Unlock()
	return nil
}

// --- faults -----------------------------------------------------------------

// Blackhole delays everything to and from addr until the given time.
func (n *Net) Blackhole(addr string, d time.Duration) {
	n.mu.Lock()
	until := time.Now().Add(d)
	n.blackhole[addr] = until
	conns := append([]*simConn(nil), n.conns...)
	n.mu.Unlock()
	for _, c := range conns {
		if c.key == addr {
			c.mu.Lock()
			for i := range c.in.segs {
				if c.in.segs[i].at.After(time.Now()) && c.in.segs[i].at.Before(until) {
					c.in.segs[i].at = until
				}
			}
			if c.in.fin && c.in.finAt.Before(until) && c.in.finAt.After(time.Now()) {
				c.in.finAt = until
			}
			if c.in.last.Before(until) {
				c.in.last = until
			}
			c.mu.Unlock()
		}
	}
	n.sim.Fault("net.blackhole")
}

// Heal ends every black hole and refusal; delayed data arrive at once.
func (n *Net) Heal() {
	n.mu.Lock()
	n.blackhole = map[string]time.Time{}
	n.refuse = map[string]time.Time{}
	conns := append([]*simConn(nil), n.conns...)
	n.mu.Unlock()
	now := time.Now()
	for _, c := range conns {
		c.mu.Lock()
		for i := range c.in.segs {
			if c.in.segs[i].at.After(now) {
				c.in.segs[i].at = now
			}
		}
		c.in.last = now
		c.in.stalled = time.Time{}
		if c.in.fin && c.in.finAt.After(now) {
			c.in.finAt = now
		}
		c.wake()
		c.mu.Unlock()
	}
}

// Refuse makes addr refuse connections for a while.
func (n *Net) Refuse(addr string, d time.Duration) {
	n.mu.Lock()
	n.refuse[addr] = time.Now().Add(d)
	n.mu.Unlock()
	n.sim.Fault("net.refuse")
}

// ResetAll breaks every open connection of the listener at addr.
func (n *Net) ResetAll(addr string, fault bool) int {
	n.mu.Lock()
	conns := append([]*simConn(nil), n.conns...)
	n.mu.Unlock()
	k := 0
	for _, c := range conns {
		if c.key == addr && c.client && !c.broken() {
			c.reset(syscall.ECONNRESET)
			k++
		}
	}
	if k > 0 && fault {
		n.sim.Fault("net.reset")
	}
	return k
}

// KillTag closes what a killed process leaves behind, as the kernel does.
func (n *Net) KillTag(tag int32) {
	n.mu.Lock()
	conns := append([]*simConn(nil), n.conns...)
	var ls []*simListener
	for _, l := range n.listeners {
		if l.tag == tag {
			ls = append(ls, l)
		}
	}
	n.mu.Unlock()
	for _, l := range ls {
		l.Close()
	}
	for _, c := range conns {
		if c.tag == tag && !c.broken() {
			c.reset(syscall.ECONNRESET)
			c.mu.Lock()
			c.closed = true
			c.mu.Unlock()
		}
	}
}

// OpenConns counts connections owned by a tag to the listener address addr
// ("" for all) that its side has not closed.
func (n *Net) OpenConns(tag int32, addr string) int {
	n.mu.Lock()
	conns := append([]*simConn(nil), n.conns...)
	n.mu.Unlock()
	k := 0
	for _, c := range conns {
		if c.tag == tag && (addr == "" || c.key == addr) && !c.broken() {
			k++
		}
	}
	return k
}

// holdMutex is never held by a goroutine that is preempted, stalled or killed.
type holdMutex struct{ m sync.Mutex }

func (m *holdMutex) Lock() {
	runtime.SimHold(1)
	m.m.Lock()
}

func (m *holdMutex) Unlock() {
	m.m.Unlock()
	runtime.SimHold(-1)
}
