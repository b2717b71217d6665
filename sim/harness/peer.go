package verifsim

import (
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
)

// A simulated Elements peer: an independent implementation of the peer's side
// of the protocol that serves the chain, records everything it receives and
// misbehaves as told.

type PeerCfg struct {
	Services   uint64
	Batch      int           // headers per message
	DelayMin   time.Duration // before an answer
	DelayMax   time.Duration
	VersionLag time.Duration // before its version message
	VersionAt  int           // 0 version then verack, 1 verack then version
	Announce   int           // 0 headers, 1 inv, 2 both, 3 block pushed unasked
	DropPct    int           // percent of requests ignored while DropUntil lies ahead
	DupPct     int           // percent of answers sent twice while DropUntil lies ahead
	DropUntil  time.Duration
	NoSync     bool // never answers getheaders and getcfilters
	NoFilters  bool // never answers getcfilters
	NoPong     bool
	PongLag    time.Duration
	NoRead     bool // stops reading
	Overlap    int  // extra already known headers in front of an answer
	Chatty     bool // sends other messages a real peer sends
	TipLag     int  // announces and serves this many blocks less than the chain has
	AnnounceH  int  // lies about its height in version by this much
}

type Peer struct {
	s           *Sim
	w           *World
	addr        string
	cfg         PeerCfg
	conns       []*pconn
	rng         *Rng
	l           net.Listener
	tipH        uint32
	chain       *Chain
	holed       bool // unreachable until faults stop
	deadForGood bool
	useless     bool            // connected, but of no use for ever
	fork        map[uint32]*Blk // headers it serves instead of the chain's
}

type pingRec struct {
	at    time.Duration
	pongs int
}

type cfReq struct {
	at  time.Duration
	req getCFilters
	got []*wmsg
	exp []cfExp
	ok  bool // must be answered completely
	at0 int  // index into the connection's cfilter list when sent
}

type cfExp struct {
	hash   [32]byte
	filter []byte
}

type pconn struct {
	p            *Peer
	c            net.Conn
	id           int
	opened       time.Duration
	closed       bool
	closedAt     time.Duration
	rdErr        error
	outq         []outMsg
	outNote      chan struct{}
	gotVersion   bool
	verackN      int
	getHeaders   int
	sendHdrsN    int
	versionSent  bool
	verackSent   bool
	pings        map[uint64]*pingRec
	invs         [][]invVec // outstanding inv messages, in order
	txs          map[string]int
	cfs          []*wmsg // cfilter messages received
	cfReqs       []*cfReq
	pingsGot     []time.Duration
	pongsSent    int
	rxN          int
	lastRx       time.Duration
	garbage      bool // desynchronised on purpose: nothing more is expected
	evil         bool
	evilN        int
	survived     []string
	hole         bool          // was black-holed or reset by a fault
	taint        bool          // disturbed by a fault: nothing is promised about the connection itself
	verAt        time.Duration // when its version message was written
	annH         uint32        // the height it announced
	readyAt      time.Duration
	versionsSent int
	nextVer      bool
	oddInv       bool
	cfBusy       bool
	invAt        time.Duration
}

type outMsg struct {
	b     []byte
	at    time.Duration
	close bool
	ver   bool
}

func NewPeer(s *Sim, w *World, addr string, cfg PeerCfg) *Peer {
	p := &Peer{s: s, w: w, addr: addr, cfg: cfg, rng: NewRng(s.Seed, "peer/"+addr), chain: w.chain}
	return p
}

func (p *Peer) Listen() {
	l, err := p.s.Net.Listen("tcp", p.addr)
	if err != nil {
		return
	}
	p.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			pc := &pconn{p: p, c: c, id: len(p.conns), opened: p.s.Now(), pings: map[uint64]*pingRec{}, txs: map[string]int{}, outNote: make(chan struct{}, 1), taint: p.deadForGood}
			p.conns = append(p.conns, pc)
			p.s.Ev("peer %s: connection %d", p.addr, pc.id)
			go pc.reader()
			go pc.writer()
		}
	}()
}

// Down stops the peer the way a crash of its process does.
func (p *Peer) Down() {
	if p.l != nil {
		p.l.Close()
		p.l = nil
	}
	for _, c := range p.conns {
		c.shut()
	}
}

func (p *Peer) live() *pconn {
	for i := len(p.conns) - 1; i >= 0; i-- {
		if c := p.conns[i]; !c.closed && c.ready() {
			return c
		}
	}
	return nil
}

func (p *Peer) open() *pconn {
	for i := len(p.conns) - 1; i >= 0; i-- {
		if c := p.conns[i]; !c.closed {
			return c
		}
	}
	return nil
}

func (c *pconn) ready() bool { return c.verackN > 0 && c.sendHdrsN > 0 }

func (c *pconn) shut() {
	if !c.closed {
		c.closed = true
		c.closedAt = c.p.s.Now()
		c.c.Close()
		c.kick()
	}
}

func (c *pconn) kick() {
	select {
	case c.outNote <- struct{}{}:
	default:
	}
}

// Send queues raw bytes after a delay; messages keep their order.
func (c *pconn) sendRaw(b []byte, delay time.Duration) {
	at := c.p.s.Now() + delay
	if n := len(c.outq); n > 0 && c.outq[n-1].at > at {
		at = c.outq[n-1].at
	}
	c.outq = append(c.outq, outMsg{b: b, at: at, ver: c.nextVer})
	c.nextVer = false
	c.kick()
}

func (c *pconn) closeAfter(delay time.Duration) {
	c.outq = append(c.outq, outMsg{at: c.p.s.Now() + delay, close: true})
	c.kick()
}

func (c *pconn) send(cmd string, payload []byte, delay time.Duration) {
	c.sendRaw(frame(c.p.w.magic, cmd, payload), delay)
}

func (c *pconn) writer() {
	s := c.p.s
	for {
		if c.closed {
			return
		}
		if len(c.outq) == 0 {
			<-c.outNote
			continue
		}
		m := c.outq[0]
		if d := m.at - s.Now(); d > 0 {
			t := time.NewTimer(d)
			select {
			case <-t.C:
			case <-c.outNote:
				t.Stop()
			}
			continue
		}
		c.outq = c.outq[1:]
		if m.close {
			c.shut()
			return
		}
		if m.ver {
			c.verAt = s.Now()
		}
		if _, err := c.c.Write(m.b); err != nil {
			if !c.closed {
				c.closed = true
				c.closedAt = s.Now()
				c.c.Close()
			}
			return
		}
	}
}

func (c *pconn) reader() {
	s := c.p.s
	for {
		for c.p.cfg.NoRead && !c.closed {
			time.Sleep(time.Second)
		}
		m, err := readFrame(c.c, c.p.w.magic)
		if err != nil {
			c.rdErr = err
			if errors.Is(err, errFraming) {
				s.Fail("C12", "framing", "peer %s received bytes that are not a message: %v (after %d messages)", c.p.addr, err, c.rxN)
			}
			if err != io.EOF {
				s.Ev("peer %s/%d: read: %v", c.p.addr, c.id, err)
			}
			if !c.closed {
				c.closed = true
				c.closedAt = s.Now()
				s.Ev("peer %s/%d: closed by the node", c.p.addr, c.id)
				c.p.w.closedByNode(c, err)
				c.c.Close()
				c.kick()
			}
			return
		}
		c.rxN++
		c.lastRx = s.Now()
		s.Ev("peer %s/%d: rx %s %s", c.p.addr, c.id, m.cmd, short(m.payload))
		c.handle(m)
	}
}

func (c *pconn) delay() time.Duration {
	k := &c.p.cfg
	return k.DelayMin + time.Duration(c.p.rng.N(int(k.DelayMax-k.DelayMin)+1))
}

// dropped decides whether a request is lost.
func (c *pconn) dropped() bool {
	k := &c.p.cfg
	if k.NoSync {
		return true
	}
	if c.p.s.Now() < k.DropUntil && c.p.rng.P(k.DropPct) {
		c.p.s.Fault("peer.ignored-request")
		return true
	}
	return false
}

func (c *pconn) dups() int {
	k := &c.p.cfg
	if c.p.s.Now() < k.DropUntil && c.p.rng.P(k.DupPct) {
		c.p.s.Fault("peer.duplicate-answer")
		return 2
	}
	return 1
}

// top is the height of the best block the peer shows.
func (p *Peer) top() uint32 {
	h := int(p.chain.Height()) - p.cfg.TipLag
	if h < 0 {
		h = 0
	}
	return uint32(h)
}

func (p *Peer) blk(h uint32) *Blk {
	if b := p.fork[h]; b != nil {
		return b
	}
	return p.chain.Blocks[h]
}

func (p *Peer) find(hash [32]byte) *Blk {
	for _, b := range p.fork {
		if b.Hash == chainhash.Hash(hash) {
			return b
		}
	}
	return p.chain.byHash[chainhash.Hash(hash)]
}

func (c *pconn) sendVersion() {
	if c.versionSent {
		return
	}
	c.versionSent = true
	p := c.p
	h := int32(p.top()) + int32(p.cfg.AnnounceH)
	if h < 0 {
		h = 0
	}
	p.tipH = uint32(h)
	c.annH = uint32(h)
	c.versionsSent++
	c.nextVer = true
	c.send("version", versionPayload(p.cfg.Services, h, p.rng.U64(), "/Elements Core:22.1.0/", p.rng.P(50)), p.cfg.VersionLag)
	p.s.Ev("peer %s/%d: version height %d", p.addr, c.id, h)
}

func (c *pconn) handle(m *wmsg) {
	s, p := c.p.s, c.p
	badp := func() {
		s.Fail("C12", "payload", "peer %s received a malformed %s message: %s", p.addr, m.cmd, short(m.payload))
	}
	if !c.gotVersion && m.cmd != "version" {
		s.Fail("C12", "first-message", "the first message to peer %s is %q, not version", p.addr, m.cmd)
	}
	switch m.cmd {
	case "version":
		v, ok := parseVersion(m.payload)
		if !ok || v.version < 70001 {
			badp()
		}
		if c.gotVersion {
			s.Fail("C12", "version-twice", "peer %s received two version messages on a connection", p.addr)
		}
		c.gotVersion = true
		if p.cfg.VersionAt == 1 {
			c.send("verack", nil, p.cfg.VersionLag/2)
			c.sendVersion()
		} else {
			c.sendVersion()
			c.send("verack", nil, 0)
		}
		c.verackSent = true
		if p.cfg.Chatty {
			c.send("sendcmpct", []byte{0, 2, 0, 0, 0, 0, 0, 0, 0}, 0)
			c.send("sendaddrv2", nil, 0)
			c.send("wtxidrelay", nil, 0)
			c.send("feefilter", []byte{100, 0, 0, 0, 0, 0, 0, 0}, 0)
			c.send("addr", []byte{0}, 0)
			gh := append([]byte{0x80, 0x11, 1, 0}, putVarInt(nil, 1)...)
			gh = append(gh, p.chain.Blocks[0].Hash[:]...)
			gh = append(gh, make([]byte, 32)...)
			c.send("getheaders", gh, 0)
		}
	case "verack":
		c.verackN++
		if len(m.payload) != 0 {
			badp()
		}
		if c.verackN > c.versionsSent {
			s.Fail("C12", "verack-twice", "peer %s received verack %d times for one version", p.addr, c.verackN)
		}
	case "sendheaders":
		c.sendHdrsN++
		if len(m.payload) != 0 {
			badp()
		}
		if c.readyAt == 0 {
			c.readyAt = s.Now()
		}
		if c.sendHdrsN > c.versionsSent {
			s.Fail("C12", "sendheaders-twice", "peer %s received sendheaders %d times", p.addr, c.sendHdrsN)
		}
	case "getheaders":
		g, ok := parseGetHeaders(m.payload)
		if !ok {
			badp()
			return
		}
		p.w.checkLocator(p, g)
		if p.w.st != nil && p.w.st.anyHdr {
			// peers on another fork are asked again after every answer: the
			// flood has an end here, as nothing more comes of it
			if c.getHeaders++; c.getHeaders > 150 {
				s.Probe("peer.flood-cut")
				return
			}
		}
		if c.dropped() {
			s.Ev("peer %s/%d: drops getheaders", p.addr, c.id)
			return
		}
		for k := c.dups(); k > 0; k-- {
			c.sendHeadersAfter(g)
		}
	case "getcfilters":
		g, ok := parseGetCFilters(m.payload)
		if !ok {
			badp()
			return
		}
		s.Probe("peer.getcfilters")
		stop := p.find(g.stop)
		if stop == nil && g.typ == 0 {
			return // a real peer disconnects or stays silent
		}
		if stop == nil || g.typ != 0 || stop.Height < g.start || stop.Height-g.start >= 1000 {
			s.Fail("C12", "getcfilters", "peer %s received a getcfilters request that BIP157 forbids: type %d start %d stop %x", p.addr, g.typ, g.start, g.stop)
			return
		}
		if p.cfg.NoFilters || c.dropped() {
			s.Ev("peer %s/%d: drops getcfilters %d", p.addr, c.id, g.start)
			return
		}
		for k := c.dups(); k > 0; k-- {
			for h := g.start; h <= stop.Height; h++ {
				b := p.blk(h)
				if h == 0 {
					continue
				}
				c.send("cfilter", cfilterPayload(0, b.Hash, b.Filter), c.delay())
			}
		}
	case "getdata":
		v, ok := parseInv(m.payload)
		if !ok {
			badp()
			return
		}
		if c.oddInv {
			return
		}
		if len(c.invs) == 0 {
			s.Fail("C12", "getdata-unasked", "peer %s received a getdata of %d items that answers no inv", p.addr, len(v))
			return
		}
		want := c.invs[0]
		c.invs = c.invs[1:]
		if len(want) != len(v) {
			s.Fail("C12", "getdata", "an inv of %d items was answered by a getdata of %d", len(want), len(v))
			return
		}
		for i := range v {
			if v[i] != want[i] {
				s.Fail("C12", "getdata", "item %d of the getdata differs from the inv", i)
				return
			}
		}
		s.Probe("peer.getdata")
		for _, x := range v {
			if x.typ == 2 {
				if b := p.find(x.hash); b != nil {
					c.send("block", b.Raw, c.delay())
				}
			} else if x.typ == 1 {
				if raw := p.w.txRaw[x.hash]; raw != nil {
					c.sendTx(raw, c.delay())
				}
			}
		}
	case "ping":
		if len(m.payload) != 8 {
			badp()
			return
		}
		c.pingsGot = append(c.pingsGot, s.Now())
		if p.cfg.NoPong {
			s.Fault("peer.no-pong")
			return
		}
		c.pongsSent++
		c.send("pong", append([]byte(nil), m.payload...), p.cfg.PongLag)
	case "pong":
		r := &rd{b: m.payload}
		nonce := r.u64()
		if !r.done() {
			badp()
			return
		}
		pr := c.pings[nonce]
		if pr == nil {
			if c.oddInv { // a ping payload of random bytes was among what it sent
				return
			}
			s.Fail("C12", "pong-nonce", "peer %s received a pong with nonce %x that it never sent", p.addr, nonce)
			return
		}
		pr.pongs++
		if pr.pongs > 1 {
			s.Fail("C12", "pong-twice", "peer %s received %d pongs for one ping", p.addr, pr.pongs)
		}
	case "tx":
		c.txs[string(m.payload)]++
	case "cfilter":
		c.cfs = append(c.cfs, m)
	default:
		s.Probe("peer.rx." + m.cmd)
	}
}

func (c *pconn) sendHeadersAfter(g *getHeaders) {
	p := c.p
	start := uint32(1)
	for _, h := range g.locator {
		if b := p.find(h); b != nil {
			start = b.Height + 1
			break
		}
	}
	batch := p.cfg.Batch
	if o := uint32(p.cfg.Overlap); o > 0 && start > o {
		start -= o
		batch = minInt(2000, batch+int(o)) // an answer always makes progress
		p.s.Probe("peer.overlapping-headers")
	}
	var bs []*Blk
	for h := start; h <= p.top() && len(bs) < batch; h++ {
		bs = append(bs, p.blk(h))
	}
	if len(bs) == p.cfg.Batch {
		p.s.Probe("peer.full-batch")
	}
	c.send("headers", headersPayload(bs), c.delay())
}

// Announce tells connected nodes about the newest n blocks.
func (p *Peer) Announce(n int) {
	for _, c := range p.conns {
		if c.closed || !c.ready() {
			continue
		}
		top := p.top()
		var bs []*Blk
		for h := int(top) - n + 1; h <= int(top); h++ {
			if h > 0 {
				bs = append(bs, p.blk(uint32(h)))
			}
		}
		if len(bs) == 0 {
			continue
		}
		if p.cfg.Announce == 0 || p.cfg.Announce == 2 {
			c.send("headers", headersPayload(bs), c.delay())
		}
		if p.cfg.Announce == 1 || p.cfg.Announce == 2 {
			var v []invVec
			for _, b := range bs {
				v = append(v, invVec{2, b.Hash})
			}
			c.inv(v)
		}
		if p.cfg.Announce == 3 {
			for _, b := range bs {
				c.send("block", b.Raw, c.delay())
			}
		}
	}
}

func (c *pconn) inv(v []invVec) {
	c.invs = append(c.invs, v)
	c.invAt = c.p.s.Now()
	c.send("inv", invPayload(v), c.delay())
}

func (c *pconn) ping(delay time.Duration) uint64 {
	n := c.p.rng.U64()
	c.pings[n] = &pingRec{at: c.p.s.Now()}
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(n >> (8 * uint(i)))
	}
	c.send("ping", b, delay)
	return n
}

func (c *pconn) String() string { return fmt.Sprintf("%s/%d", c.p.addr, c.id) }
