package verifsim

import (
	"bytes"
	"encoding/hex"
	"net"
	"runtime"
	"strings"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
)

// The node scenario: one light node with its stores, several peers, faults.

type World struct {
	s            *Sim
	p            *Plan
	chain        *Chain
	magic        [4]byte
	txRaw        map[[32]byte][]byte
	peers        []*Peer
	st           *Store
	inc          *Inc
	incs         []*Inc
	rng          *Rng
	heap0        uint64
	sent         [][]byte
	firstMissing int
	locator      func(*Peer, *getHeaders)
	relay        relayState
}

// Inc is one life of the node process.
type Inc struct {
	tag      int32
	n        node.NodeService
	addr     string
	startAt  time.Duration
	retAt    time.Duration
	returned bool
	err      error
	stopped  bool
	killed   bool
	baseTip  uint32
	first    *pconn // connection made by Start
	p0       *Peer
	n0       int
	added    int // other connections made while Start was under way
}

func init() {
	scenarios["node"] = &scenario{gen: genNode, run: runNode}
}

func (w *World) peerByAddr(a string) *Peer {
	for _, p := range w.peers {
		if p.addr == a {
			return p
		}
	}
	return nil
}

func (w *World) checkLocator(p *Peer, g *getHeaders) {
	s := w.s
	if w.locator != nil {
		w.locator(p, g)
		return
	}
	if len(g.locator) == 0 {
		s.Fail("C12", "locator-empty", "a getheaders without locator")
		return
	}
	last := uint32(1 << 31)
	for i, h := range g.locator {
		hh := chainhash.Hash(h)
		height, ok := w.st.byHash[hh]
		if hh == w.chain.Blocks[0].Hash {
			height, ok = 0, true
		}
		if !ok {
			s.Fail("C12", "locator-unknown", "getheaders: locator entry %d (%v) is not a stored header nor the genesis block of the network", i, hh)
			return
		}
		if height > last {
			s.Fail("C12", "locator-order", "getheaders: locator heights are not descending at entry %d", i)
			return
		}
		last = height
	}
	if g.stop != [32]byte{} && p.find(g.stop) == nil {
		s.Fail("C12", "getheaders-stop", "getheaders with an unknown stop hash")
	}
}

// nodeEndClosed reports whether the node closed its end of a connection.
func (c *pconn) nodeEndClosed() bool {
	sc, ok := c.c.(*simConn)
	if !ok {
		return c.closed
	}
	sc.mu.Lock()
	defer sc.mu.Unlock()
	return sc.peer.closed || sc.peer.err != nil
}

func (w *World) start(addr string) {
	s := w.s
	if w.inc != nil && w.inc.killed {
		w.st.Reopen() // also with what a killed goroutine still wrote
	}
	inc := &Inc{tag: int32(len(w.incs) + 1), addr: addr, baseTip: w.st.TipH()}
	w.inc = inc
	w.incs = append(w.incs, inc)
	p0 := w.peerByAddr(addr)
	n0 := len(p0.conns)
	inc.p0, inc.n0 = p0, n0
	inc.startAt = s.Now()
	s.Ev("start incarnation %d with %s (store at %d)", inc.tag, addr, w.st.TipH())
	s.Go(inc.tag, func() {
		n, err := node.New(node.NodeConfig{Network: w.chain.NetName, UserAgent: "neutrino-elements:sim", FiltersDB: w.st.Filters(), BlockHeadersDB: w.st.Headers()})
		if err != nil {
			s.Fail("C03", "new", "node.New: %v", err)
			return
		}
		inc.n = n
		err = n.Start(addr)
		inc.err = err
		inc.retAt = s.Now()
		s.Ev("start of incarnation %d returned %v", inc.tag, err)
		if err == nil && !inc.stopped && !inc.killed {
			ann, ok := uint32(0), false
			for _, c := range inc.conns() {
				if c.verAt != 0 && c.verAt <= s.Now() && (!ok || c.annH < ann) {
					ann, ok = c.annH, true
				}
			}
			switch {
			case !ok:
				s.Fail("C03", "before-handshake", "Start returned success although the peer had not sent its version message")
			case w.st.TipH() < ann:
				s.Fail("C03", "before-synced", "Start returned success with the store at %d although the peer announced %d", w.st.TipH(), ann)
			}
			s.Probe("start.ok")
		}
		inc.returned = true
	})
	s.Wait(2*time.Second, func() bool { return inc.n != nil })
	s.Wait(300*time.Millisecond, func() bool { return inc.first0() })
}

// conns lists the connections of this incarnation to the peer Start was given.
func (inc *Inc) conns() (l []*pconn) {
	for _, c := range inc.p0.conns[inc.n0:] {
		if sc, ok := c.c.(*simConn); ok && sc.peer.tag == inc.tag {
			l = append(l, c)
		}
	}
	return
}

// first0 tells whether the connection of Start is up.
func (inc *Inc) first0() bool {
	if l := inc.conns(); len(l) > inc.added {
		inc.first = l[0]
		return true
	}
	return false
}

// connect adds an outbound peer, as an operator would through the API.
func (w *World) connect(p *Peer) bool {
	inc := w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed {
		return false
	}
	if inc.returned && inc.err != nil { // it never started
		return false
	}
	s := w.s
	if !inc.returned && inc.first == nil && p == inc.p0 && !inc.first0() {
		inc.added++
	}
	ok := false
	fin := s.Call(inc.tag, 200*time.Second, func() {
		pp, err := peer.NewElementsPeer(p.addr)
		if err != nil {
			return
		}
		if inc.stopped {
			pp.Connection().Close()
			return
		}
		if err := inc.n.AddOutboundPeer(pp); err != nil {
			s.Ev("AddOutboundPeer(%s): %v", p.addr, err)
			pp.Connection().Close()
			return
		}
		ok = true
	})
	if !fin && !inc.stopped && !inc.killed {
		s.Fail("C02", "addpeer-hang", "AddOutboundPeer(%s) does not return", p.addr)
	}
	s.Ev("connect %s: %v", p.addr, ok)
	return ok
}

func (w *World) stop() {
	s, inc := w.s, w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed {
		return
	}
	started := inc.startAt
	early := !inc.returned
	inc.stopped = true
	s.Ev("stop incarnation %d (start returned: %v)", inc.tag, inc.returned)
	if inc.returned && inc.err != nil {
		s.Probe("stop.never-started")
	} else if early {
		s.Probe("stop.while-syncing")
	} else {
		s.Probe("stop.synced")
	}
	_ = started
	t0 := s.Now()
	if !s.Call(inc.tag, 60*time.Second, func() { inc.n.Stop() }) {
		s.Fail("C16", "stop-hang", "node.Stop does not return within 60 s")
		return
	}
	s.Count("stop.ms", int(s.Now()-t0)/1e6)
	grace := 30 * time.Second
	if !s.Wait(grace, func() bool { return inc.returned }) {
		s.Fail("C16", "start-after-stop", "Start still blocks %v after Stop returned", grace)
	}
	if !s.Wait(grace, func() bool { return s.Net.OpenConns(inc.tag, "") == 0 }) {
		s.Fail("C16", "conn-after-stop", "%d peer connections are still open %v after Stop", s.Net.OpenConns(inc.tag, ""), grace)
	}
	if !s.Wait(grace, func() bool { return runtime.SimCount(inc.tag) == 0 }) {
		s.Fail("C16", "running-after-stop", "%d goroutines of the node still run %v after Stop: %s", runtime.SimCount(inc.tag), grace, stacksOf(inc.tag))
	}
	w.st.closedTag[inc.tag] = true
}

func stacksOf(tag int32) string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if i := strings.Index(g, "created by github.com/vulpemventures/neutrino-elements/pkg"); i >= 0 {
			l := strings.SplitN(g[i:], "\n", 2)[0]
			out = append(out, strings.TrimPrefix(l, "created by github.com/vulpemventures/neutrino-elements/"))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "; ")
}

func (w *World) crash() {
	s, inc := w.s, w.inc
	if inc == nil || inc.stopped || inc.killed {
		return
	}
	inc.killed = true
	s.Fault("crash")
	s.Ev("crash of incarnation %d at tip %d", inc.tag, w.st.TipH())
	runtime.SimKill(inc.tag)
	s.Net.KillTag(inc.tag)
	w.st.Reopen()
}

// taint marks the connections of a peer as disturbed by a fault.
func (p *Peer) taint() {
	for _, c := range p.conns {
		c.taint = true
	}
}

func (w *World) peerLoop(i int) *Peer {
	if len(w.peers) == 0 {
		return nil
	}
	return w.peers[((i%len(w.peers))+len(w.peers))%len(w.peers)]
}

func (w *World) op(o Op) {
	s := w.s
	p := w.peerLoop(o.A)
	switch o.Kind {
	case "mine":
		w.chain.MineN(o.A)
		for i, q := range w.peers {
			if o.B&(1<<uint(i)) != 0 && !q.deadForGood {
				q.Announce(o.A)
			}
		}
	case "ann":
		p.Announce(maxInt(o.B, 1))
	case "down":
		if p.deadForGood {
			return
		}
		s.Fault("peer.down")
		p.taint()
		p.Down()
	case "up":
		if p.l == nil {
			p.Listen()
		}
	case "conn":
		go w.connect(p)
	case "reset":
		p.taint()
		s.Net.ResetAll(p.addr, true)
	case "hole":
		p.taint()
		s.Net.Blackhole(p.addr, time.Duration(o.B)*time.Millisecond)
		if o.B > 400_000 {
			p.holed = true
			w.mustDrop(p, "black-holed")
		}
	case "drop":
		p.cfg.DropPct, p.cfg.DupPct = o.C%101, (o.C/101)%101
		p.cfg.DropUntil = s.Now() + time.Duration(o.B)*time.Millisecond
	case "nopong":
		p.taint()
		p.cfg.NoPong = true
		p.deadForGood = true
		w.mustDrop(p, "unresponsive")
	case "noread":
		p.taint()
		p.cfg.NoRead = true
		p.cfg.NoPong = true
		p.deadForGood = true
		if o.C > 0 { // with so little room left in its buffers
			for _, c := range p.conns {
				sc := c.c.(*simConn).peer
				sc.mu.Lock()
				sc.squeeze = o.C
				sc.mu.Unlock()
			}
		}
		s.Fault("peer.stops-reading")
		w.mustDrop(p, "stalled")
	case "nosync":
		p.cfg.NoSync = o.B != 0
		s.Fault("peer.no-sync")
	case "dbfail":
		w.st.FailPM = o.A
		w.st.FailUntil = s.Now() + time.Duration(o.B)*time.Millisecond
	case "dbhang":
		w.st.HangUntil = s.Now() + time.Duration(o.B)*time.Millisecond
	case "ping":
		if c := p.live(); c != nil {
			for k := 0; k < maxInt(o.B, 1); k++ {
				c.ping(c.delay())
			}
		}
	case "inv":
		if c := p.live(); c != nil {
			r := NewRng(s.Seed, "inv"+itoa(o.At))
			var v []invVec
			for k := 0; k < maxInt(o.B, 1); k++ {
				iv := invVec{typ: uint32(r.Pick(1, 1, 2, 5, 0x40000001))}
				copy(iv.hash[:], r.Bytes(32))
				v = append(v, iv)
			}
			if o.C == 1 && w.chain.Height() > 0 {
				v[0] = invVec{2, w.chain.Tip().Hash}
			}
			c.inv(v)
			s.Probe("op.inv")
		}
	case "txinv":
		if c := p.live(); c != nil {
			tx, _ := w.chain.NewTx(false, 1+o.B%3)
			raw, _ := tx.Serialize()
			h := tx.TxHash()
			w.txRaw[h] = raw
			c.inv([]invVec{{1, h}})
		}
	case "relay":
		x := w.relayTx(o.B)
		for i, q := range w.peers {
			if o.C < 3 && i != o.A%len(w.peers) {
				continue
			}
			if c := q.live(); c != nil {
				if o.C != 1 {
					c.inv([]invVec{{1, x.tx.TxHash()}})
				}
				if o.C == 1 || o.C == 2 {
					c.sendTx(x.raw, c.delay())
				}
				s.Probe("op.relay")
			}
		}
	case "relaysub":
		go w.relaySub(time.Duration(o.C) * time.Millisecond)
	case "relaymine":
		n := 0
		for i, x := range w.relay.list {
			if o.B&(1<<uint(i%20)) != 0 {
				w.chain.unconf = append(w.chain.unconf, x.tx)
				x.mined = true
				n++
			}
		}
		w.chain.Mine()
		for i, q := range w.peers {
			if o.A&(1<<uint(i)) != 0 && !q.deadForGood {
				q.Announce(1)
			}
		}
	case "send":
		go w.sendTx(o)
	case "badtx":
		go w.badTx(o)
	case "getcf":
		go w.getCF(p, o)
	case "evil":
		go w.evil(p, o)
	case "fork":
		w.fork(p, o)
	case "stop":
		w.stop()
	case "crash":
		w.crash()
	case "start":
		if w.inc == nil || w.inc.stopped || w.inc.killed {
			if p.l == nil {
				p.Listen()
			}
			w.start(p.addr)
		}
	default:
		s.err = "unknown operation " + o.Kind
	}
}

func itoa(i int) string {
	b := []byte{}
	if i == 0 {
		return "0"
	}
	for ; i > 0; i /= 10 {
		b = append([]byte{byte('0' + i%10)}, b...)
	}
	return string(b)
}

// mustDrop checks that the node drops the open connections of a dead peer in time.
func (w *World) mustDrop(p *Peer, how string) {
	inc := w.inc
	if inc == nil || inc.killed || inc.stopped {
		return
	}
	for _, c := range p.conns {
		c := c
		if c.closed || c.nodeEndClosed() || !c.ready() || c.garbage {
			continue
		}
		go func() {
			time.Sleep(215 * time.Second)
			if inc.killed || inc.stopped || c.nodeEndClosed() {
				if !inc.killed && !inc.stopped {
					w.s.Probe("dropped." + how)
				}
				return
			}
			w.s.Fail("C13", "not-dropped", "peer %s is %s for 215 s and still connected", p.addr, how)
		}()
	}
}

// closedByNode is called when a peer sees the node close a connection.
func (w *World) closedByNode(c *pconn, err error) {
	inc := w.inc
	if inc == nil || inc.stopped || inc.killed || c.taint || c.evil || c.garbage || c.p.deadForGood {
		return
	}
	sc := c.c.(*simConn)
	if sc.peer.tag != inc.tag {
		return
	}
	if !c.ready() {
		return
	}
	w.s.Fail("C13", "healthy-dropped", "the node closed the connection to peer %s, which answered every ping in time (%v after it was opened)", c.p.addr, w.s.Now()-c.opened)
}

func (w *World) sendTx(o Op) {
	s, inc := w.s, w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed || (inc.returned && inc.err != nil) {
		return
	}
	tx, _ := w.chain.NewTx(false, 1+o.B%40)
	raw, err := tx.Serialize()
	if err != nil {
		return
	}
	if o.C == 1 { // a transaction the node has got from a peer
		if c := w.goodConn(); c != nil {
			w.txRaw[tx.TxHash()] = raw
			c.inv([]invVec{{1, tx.TxHash()}})
			time.Sleep(5 * time.Second)
			s.Probe("sendtx.known")
		}
	}
	w.sendRawTx(inc, raw, 1)
	if o.C == 2 && !inc.stopped && !inc.killed { // once more, for those who came later
		s.Probe("sendtx.again")
		w.sendRawTx(inc, raw, 2)
	}
}

// sendRawTx sends a transaction for the nth time.
func (w *World) sendRawTx(inc *Inc, raw []byte, nth int) {
	s := w.s
	if inc.stopped || inc.killed {
		return
	}
	var healthy []*pconn
	before := map[*pconn]int{}
	for _, p := range w.peers {
		for _, c := range p.conns {
			before[c] = c.txs[string(raw)]
			if !c.closed && c.ready() && !c.taint && !c.garbage && !c.evil && !p.deadForGood && c.readyAt > 0 && s.Now()-c.readyAt > 20*time.Second && c.c.(*simConn).peer.tag == inc.tag {
				healthy = append(healthy, c)
			}
		}
	}
	s.Ev("send tx of %d bytes, %d healthy peers", len(raw), len(healthy))
	if !s.Call(inc.tag, 180*time.Second, func() {
		err := inc.n.SendTransaction(hex.EncodeToString(raw))
		s.Ev("SendTransaction: %v", err)
		if err != nil {
			s.Probe("sendtx.error")
		}
	}) && !inc.stopped && !inc.killed {
		s.Fail("C19", "hang", "SendTransaction does not return within 180 s")
	}
	if len(healthy) > 0 {
		s.Probe("sendtx.healthy")
	}
	time.Sleep(30 * time.Second)
	if inc.stopped || inc.killed {
		return
	}
	for _, p := range w.peers {
		for _, c := range p.conns {
			n := c.txs[string(raw)]
			if n > nth {
				s.Fail("C19", "twice", "peer %s received a sent transaction %d times", p.addr, n)
			}
			n -= before[c]
			if n == 0 {
				for _, h := range healthy {
					if h == c && !c.taint && !c.closed {
						s.Fail("C19", "lost", "peer %s, connected and healthy, did not receive the sent transaction", p.addr)
					}
				}
			}
		}
	}
	w.sent = append(w.sent, raw)
}

func (w *World) badTx(o Op) {
	s, inc := w.s, w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed || (inc.returned && inc.err != nil) {
		return
	}
	tx, _ := w.chain.NewTx(false, 2)
	raw, _ := tx.Serialize()
	in := ""
	switch o.B % 4 {
	case 0:
		in = "zz" + hex.EncodeToString(raw)
	case 1:
		in = hex.EncodeToString(raw[:8])
	case 2:
		in = hex.EncodeToString(raw)[:21]
	case 3:
		in = ""
	}
	if !s.Call(inc.tag, 60*time.Second, func() {
		if err := inc.n.SendTransaction(in); err == nil {
			s.Fail("C19", "bad-accepted", "SendTransaction(%q) reports no error", in)
		}
	}) && !inc.stopped && !inc.killed {
		s.Fail("C19", "hang-bad", "SendTransaction of an invalid transaction does not return")
	}
}

func (w *World) getCF(p *Peer, o Op) {
	s, st := w.s, w.st
	c := p.live()
	if c == nil || c.cfBusy || c.taint || c.garbage || c.evil || c.p.deadForGood || st.TipH() == 0 {
		return
	}
	inc := w.inc
	c.cfBusy = true
	defer func() { c.cfBusy = false }()
	r := NewRng(s.Seed, "getcf"+itoa(o.At))
	tip := int(st.TipH())
	typ, start, stopH := byte(0), 1, tip
	var stop [32]byte
	valid := true
	switch o.B % 10 {
	case 0, 1, 2: // a range somewhere
		stopH = 1 + r.N(tip)
		start = maxInt(1, stopH-r.N(30))
	case 3: // one block
		stopH = 1 + r.N(tip)
		start = stopH
	case 4: // the newest blocks
		start = maxInt(1, tip-r.N(8))
	case 5: // the largest range
		start = maxInt(1, tip-999)
	case 6: // too large
		if tip < 1001 {
			return
		}
		start = tip - 1000 - r.N(3)
		if start < 0 {
			start = 0
		}
		valid = false
	case 7: // start above stop
		stopH = 1 + r.N(tip)
		start = stopH + 1 + r.N(5)
		valid = false
	case 8: // unknown stop
		valid = false
	case 9: // other type
		typ = byte(1 + r.N(255))
		valid = false
	}
	stop = st.heights[stopH].hash
	if o.B%10 == 8 {
		copy(stop[:], r.Bytes(32))
	}
	var exp [][32]byte
	full := valid
	if valid {
		for h := start; h <= stopH; h++ {
			exp = append(exp, st.heights[h].hash)
			if !st.HasFilter(st.heights[h].hash) {
				full = false
			}
		}
	}
	n0 := len(c.cfs)
	t0 := s.Now()
	s.Ev("getcfilters %d..%d type %d valid %v full %v to the node through %s", start, stopH, typ, valid, full, p.addr)
	c.send("getcfilters", getCFiltersPayload(typ, uint32(start), stop), 0)
	time.Sleep(40*time.Second + w.p.D("ponglag"))
	if st.HangUntil > 0 {
		time.Sleep(40 * time.Second)
	}
	if c.taint || c.closed || inc != w.inc || inc.stopped || inc.killed || c.garbage {
		return
	}
	got := c.cfs[n0:]
	if !valid {
		s.Probe("serve.invalid")
		if len(got) > 0 {
			s.Fail("C20", "answered-invalid", "a getcfilters request that must not be answered (start %d, stop height %d, type %d, kind %d) got %d filters", start, stopH, typ, o.B%10, len(got))
		}
		return
	}
	if st.lastFail >= t0 || s.Now() < st.FailUntil {
		full = false
	}
	k := 0
	for _, m := range got {
		r := &rd{b: m.payload}
		ft, hash := r.u8(), r.hash()
		f := r.take(int(r.varint()))
		if !r.done() || ft != 0 {
			s.Fail("C20", "malformed", "a malformed cfilter message")
			return
		}
		for k < len(exp) && exp[k] != hash {
			if full {
				s.Fail("C20", "missing", "getcfilters %d..%d: the filter of height %d is not sent in its place (%d messages received)", start, stopH, start+k, len(got))
				return
			}
			k++
		}
		if k == len(exp) {
			s.Fail("C20", "unexpected", "getcfilters %d..%d: an unexpected or disordered cfilter for %x", start, stopH, hash)
			return
		}
		if !bytes.Equal(f, st.filters[chainhash.Hash(hash)]) {
			s.Fail("C20", "content", "getcfilters %d..%d: the filter sent for height %d is not the stored one", start, stopH, start+k)
			return
		}
		k++
	}
	if full {
		s.Probe("serve.full")
		if len(exp) > 900 {
			s.Probe("serve.large")
		}
		if k < len(exp) {
			s.Fail("C20", "missing", "getcfilters %d..%d: only %d of %d filters are sent", start, stopH, len(got), len(exp))
		}
	} else {
		s.Probe("serve.partial")
	}
}

// fork makes a peer serve other blocks from a height on.
func (w *World) fork(p *Peer, o Op) {
	top := int(w.chain.Height())
	if top < 2 {
		return
	}
	h := maxInt(1, top-o.B%8)
	p.fork = map[uint32]*Blk{}
	prev := w.chain.Blocks[h-1].Hash
	for k := h; k <= top; k++ {
		b := w.chain.Fork(prev, uint32(k))
		p.fork[uint32(k)] = b
		prev = b.Hash
	}
	w.s.Fault("peer.fork")
}

// --- plan --------------------------------------------------------------------

func genNode(r *Rng, p *Plan) {
	c := p.Cfg
	prof := p.Profile
	add := func(at int, k string, a, b, cc int) { p.Ops = append(p.Ops, Op{at, k, a, b, cc}) }
	c["net"] = r.Pick(0, 0, 1, 2)
	c["peers"] = r.Pick(1, 1, 2, 2, 3)
	c["blocks"] = r.Pick(1, 2, 5, 20, 20, 60, 60, 150)
	c["batch"] = r.Pick(3, 7, 20, 50, 2000)
	c["lat"] = r.Pick(1, 5, 50, 300)
	c["delay"] = r.Pick(0, 20, 300)
	c["verlag"] = r.Pick(0, 0, 100, 2000, 9000)
	c["verat"] = r.N(2)
	c["announce"] = r.Pick(0, 0, 1, 2, 3)
	c["chatty"] = r.N(2)
	c["overlap"] = r.Pick(0, 0, 1, 2, 5)
	c["dblat"] = r.Pick(0, 0, 1, 5)
	c["pre"] = 0
	if r.P(35) {
		c["pre"] = r.N(c["blocks"] + 1)
	}
	if r.P(10) {
		c["pre"] = c["blocks"]
	}
	if r.P(8) {
		c["blocks"] = r.Pick(400, 900, 2100)
		c["batch"] = r.Pick(200, 500, 2000)
		if c["dblat"] > 1 {
			c["dblat"] = 1
		}
	}
	c["prefilters"] = r.Pick(100, 100, 80, 0)
	c["taglag"] = r.Pick(0, 0, 0, 1, 3)
	c["frag"] = 0
	c["pause"] = 0
	c["pausemax"] = 1000
	c["coalesce"] = r.Pick(0, 50, 100)
	c["end"] = r.Pick(3_000, 20_000, 60_000)
	np := c["peers"]
	end := c["end"]
	t := func() int { return r.In(0, end-1) }
	early := func() int { return r.In(0, minInt(end-1, 4000)) }
	for i := 1; i < np; i++ {
		if r.P(80) {
			add(r.Pick(early(), t()), "conn", i, 0, 0)
		}
	}
	mine := func(n int) {
		for i := 0; i < n; i++ {
			add(r.Pick(early(), t()), "mine", r.Pick(1, 1, 1, 2, 5), r.N(8)|1<<uint(r.N(np)), 0)
		}
	}
	dbfail := func() {
		add(r.Pick(early(), t()), "dbfail", r.Pick(20, 100, 400, 1000), r.Pick(50, 500, 5000, 20000), 0)
	}
	netfault := func() {
		at := r.Pick(early(), t())
		k := r.N(np)
		switch r.N(5) {
		case 0:
			add(at, "down", k, 0, 0)
			add(at+r.In(10, 5000), "up", k, 0, 0)
			add(at+r.In(5001, 15000), "conn", k, 0, 0)
		case 1:
			add(at, "reset", k, 0, 0)
			if r.P(70) {
				add(at+r.In(1, 5000), "conn", k, 0, 0)
			}
		case 2:
			add(at, "hole", k, r.Pick(500, 5000, 40000), 0)
		case 3:
			add(at, "drop", k, r.Pick(1000, 10000, 40000), r.Pick(20, 60, 100)+101*r.Pick(0, 0, 50))
		case 4:
			add(at, "drop", k, r.Pick(1000, 10000, 40000), 101*r.Pick(20, 60, 100))
		}
	}
	crash := func() {
		at := r.Pick(early(), early(), t())
		add(at, "crash", 0, 0, 0)
		add(at+r.In(1, 3000), "start", r.N(np), 0, 0)
	}
	misc := func(n int) {
		for i := 0; i < n; i++ {
			switch r.N(5) {
			case 0:
				add(t(), "ping", r.N(np), r.In(1, 4), 0)
			case 1:
				add(t(), "inv", r.N(np), r.Pick(1, 2, 10, 100, 252, 253, 256, 300, 1000), r.N(2))
			case 2:
				add(t(), "txinv", r.N(np), r.N(3), 0)
			case 3:
				add(t(), "ann", r.N(np), r.In(1, 6), 0)
			case 4:
				add(t(), "getcf", r.N(np), r.N(10), 0)
			}
		}
	}
	switch prof {
	case "sync":
		mine(r.N(8))
		if r.P(50) {
			misc(r.N(6))
		}
		for i := r.N(4); i > 0; i-- {
			switch r.N(3) {
			case 0:
				dbfail()
			case 1:
				netfault()
			case 2:
				add(t(), "dbhang", 0, r.Pick(100, 3000, 15000), 0)
			}
		}
	case "crash":
		mine(r.N(6))
		for i := 1 + r.N(3); i > 0; i-- {
			crash()
		}
		if r.P(50) {
			dbfail()
		}
		if r.P(40) {
			netfault()
		}
	case "frag":
		c["frag"] = r.In(1, 3)
		c["pause"] = r.Pick(0, 5, 20)
		c["pausemax"] = r.Pick(50, 500, 2000)
		c["blocks"] = r.Pick(2, 5, 20, 60)
		if c["pre"] > c["blocks"] {
			c["pre"] = 0
		}
		c["end"] = r.Pick(20_000, 60_000)
		end = c["end"]
		for i := range p.Ops {
			p.Ops[i].At %= end
		}
		mine(2 + r.N(5))
		misc(2 + r.N(8))
	case "evilinner":
		p.Ops = nil
		c["blocks"], c["batch"], c["peers"], c["pre"], c["end"] = 5, 50, 1, 0, 20_000
		for k, v := range map[string]int{"mode": 0, "yield": 0, "map": 0, "arm": 0, "stall": 0, "pt": 0, "dblat": 0, "delay": 0, "verlag": 0} {
			c[k] = v
		}
		add(10_000, "evil", 0, evilInner, int(r.U64()%1e6))
	case "evil":
		c["evilpeer"] = np // one more peer
		c["peers"] = np + 1
		if r.P(30) {
			c["evilpeer"] = 0
		}
		c["end"] = r.Pick(20_000, 60_000)
		end = c["end"]
		if c["evilpeer"] > 0 {
			add(r.In(0, 3000), "conn", np, 0, 0)
		}
		mine(r.N(4))
		for i := 1 + r.N(5); i > 0; i-- {
			add(r.In(100, end-1), "evil", c["evilpeer"], r.N(nEvil), int(r.U64()%1e6))
		}
		if r.P(6) { // does it outlive what it did?
			c["end"] = 330_000
			p.Ops = nil
			if c["evilpeer"] > 0 {
				add(r.In(0, 3000), "conn", np, 0, 0)
			}
			add(r.In(15_000, 60_000), "evil", c["evilpeer"], 31, int(r.U64()%1e6))
		}
		if r.P(40) {
			misc(r.N(5))
		}
		if r.P(30) {
			c["frag"] = r.In(1, 2)
		}
	case "ping":
		c["blocks"] = r.Pick(2, 5, 20)
		c["pre"] = r.N(c["blocks"] + 1)
		c["peers"] = r.In(1, 5)
		np = c["peers"]
		p.Ops = nil
		c["end"] = r.Pick(400_000, 700_000, 1_500_000)
		end = c["end"]
		for i := 1; i < np; i++ {
			add(r.In(0, 120_000), "conn", i, 0, 0)
		}
		c["ponglag"] = r.Pick(0, 100, 3000, 30_000, 50_000, 55_000)
		mine(r.N(6))
		misc(r.N(6))
		for i := 1; i < np; i++ {
			if r.P(60) {
				add(r.In(1000, end-1), []string{"nopong", "noread", "hole"}[r.N(3)], i, 100_000_000, 0)
			} else if r.P(30) {
				add(r.In(1000, end-1), []string{"down", "reset"}[r.N(2)], i, 0, 0)
			}
		}
		if np == 1 && r.P(50) {
			add(r.In(1000, end-1), []string{"nopong", "noread", "hole", "reset", "down"}[r.N(5)], 0, 100_000_000, 0)
		}
		for i := r.N(4); i > 0; i-- {
			add(r.In(1000, end-1), "send", 0, r.N(40), 0)
		}
	case "stop":
		mine(r.N(4))
		if r.P(40) {
			netfault()
		}
		if r.P(40) {
			dbfail()
		}
		if r.P(30) {
			add(t(), []string{"noread", "nopong", "hole"}[r.N(3)], r.N(np), 100_000_000, 0)
		}
		if r.P(40) {
			misc(r.N(5))
		}
		if r.P(40) { // with subscribers to the node's pool
			c["relay"] = 1
			for i := 1 + r.N(3); i > 0; i-- {
				add(early(), "relaysub", 0, 0, r.Pick(0, 0, 500))
				add(t(), "relay", r.N(np), r.N(5), r.Pick(0, 1, 2, 3))
			}
		}
		if r.P(20) {
			c["annh"] = 5 // the initial sync never ends
		}
		at := r.Pick(r.In(1, 400), early(), early(), t())
		if r.P(20) {
			c["end"] = 200_000
			at = r.In(100_000, 190_000)
		}
		add(at, "stop", 0, 0, 0)
		if r.P(60) {
			add(at+r.In(1, 3000), "start", r.N(np), 0, 0)
			if r.P(30) {
				add(at+r.In(3000, 6000), "stop", 0, 0, 0)
			}
		}
	case "tx":
		c["peers"] = r.In(1, 5)
		np = c["peers"]
		c["end"] = r.Pick(100_000, 400_000)
		end = c["end"]
		p.Ops = nil
		for i := 1; i < np; i++ {
			add(r.In(0, 10_000), "conn", i, 0, 0)
		}
		for i := 2 + r.N(6); i > 0; i-- {
			at := r.In(25_000, end-1)
			add(at, "send", 0, r.N(40), r.Pick(0, 0, 0, 1, 2))
			for k := r.N(3); k > 0; k-- { // others at the same moment
				at2 := maxInt(at+r.In(-20, 20), 0)
				switch r.N(7) {
				case 0:
					add(at2, "inv", r.N(np), r.Pick(1, 10, 252), 0)
				case 1:
					add(at2, "ping", r.N(np), 3, 0)
				case 2:
					add(at2, "mine", 1, 31, 0)
				case 3:
					add(at2, "getcf", r.N(np), r.N(6), 0)
				case 4:
					add(at2, "send", 0, r.N(40), 0)
				case 5:
					if np > 1 {
						add(at2, []string{"down", "reset", "noread", "hole"}[r.N(4)], 1+r.N(np-1), r.Pick(1000, 30000, 100_000_000), 0)
					}
				case 6:
					add(at2, "badtx", 0, r.N(4), 0)
				}
			}
		}
	case "relay":
		c["peers"] = r.In(1, 4)
		np = c["peers"]
		c["blocks"] = r.Pick(1, 5, 20)
		c["end"] = r.Pick(20_000, 60_000)
		c["relay"] = 1
		end = c["end"]
		if r.P(30) {
			c["frag"] = r.In(1, 3)
			c["pause"] = r.Pick(0, 20)
		}
		p.Ops = nil
		for i := 1; i < np; i++ {
			add(r.In(0, 3_000), "conn", i, 0, 0)
		}
		nt := r.Pick(1, 3, 8, 20)
		for i := 0; i < nt; i++ {
			at := r.Pick(r.In(1000, end-1), r.In(1000, 6000))
			for k := r.In(1, 4); k > 0; k-- {
				add(at, "relay", r.N(np), i, r.Pick(0, 0, 1, 2, 3))
				at += r.Pick(0, 0, 0, 1, 30, 3000)
			}
		}
		for i := 1 + r.N(3); i > 0; i-- {
			add(r.Pick(r.In(500, 3000), r.In(500, 3000), t()), "relaysub", 0, 0, r.Pick(0, 0, 0, 500))
		}
		for i := r.N(4); i > 0; i-- {
			add(r.Pick(early(), t()), "relaymine", r.N(16), int(r.U64()%(1<<20)), 0)
		}
		if r.P(30) {
			netfault()
		}
		if r.P(15) {
			dbfail()
		}
		if r.P(10) {
			crash()
			add(r.In(0, end-1), "relaysub", 0, 0, 0)
		}
		misc(r.N(3))
	case "serve":
		c["end"] = r.Pick(60_000, 200_000, 400_000)
		end = c["end"]
		mine(r.N(5))
		if r.P(25) {
			c["blocks"] = r.Pick(1001, 1010, 1200)
			c["batch"] = 2000
			c["pre"] = r.Pick(c["blocks"], 995, 1000, 0)
			c["dblat"] = r.N(2)
		}
		for i := 2 + r.N(6); i > 0; i-- {
			add(r.Pick(r.In(0, end-1), r.In(0, 10000)), "getcf", r.N(np), r.N(10), 0)
		}
		if r.P(40) {
			dbfail()
		}
		if r.P(20) {
			netfault()
		}
		misc(r.N(4))
	case "fork":
		// a node that stored a header of a fork asks again as fast as it is answered
		c["delay"] = maxInt(c["delay"], r.Pick(100, 400))
		c["lat"] = maxInt(c["lat"], 5)
		mine(2 + r.N(5))
		for i := 1 + r.N(2); i > 0; i-- {
			add(r.Pick(early(), t(), 0), "fork", r.N(np), r.N(8), 0)
		}
		if r.P(40) {
			netfault()
		}
		if r.P(30) {
			dbfail()
		}
		if r.P(30) {
			crash()
		}
	}
	q := NewRng(p.Seed, "squeeze")
	for i := range p.Ops {
		if p.Ops[i].Kind == "noread" {
			p.Ops[i].C = q.Pick(0, 0, 1, 1, 40, 300, 3000)
		}
	}
	if q := NewRng(p.Seed, "mute"); (prof == "sync" || prof == "crash") && c["blocks"] <= 150 && q.P(25) {
		c["mute"] = q.In(1, np)
		c["mutekind"] = q.In(1, nMute)
		c["muteh"] = q.Pick(0, 0, 3, 50)
		if q.P(50) {
			c["mute"] = 1
		}
		if np == 1 {
			c["peers"] = 2
			add(q.In(0, minInt(end-1, 4000)), "conn", 1, 0, 0)
		}
		if q.P(40) { // and nothing else goes wrong
			c["end"] = 20_000
			p.Ops = nil
			for i := 1; i < c["peers"]; i++ {
				add(q.In(0, 4000), "conn", i, 0, 0)
			}
		}
	}
	if q := NewRng(p.Seed, "longfail"); (prof == "sync" || prof == "crash") && q.P(6) {
		c["end"] = 60_000 + q.N(20_000)
		add(q.Pick(0, 500, 4000), "dbfail", q.Pick(400, 1000), q.In(30_000, 58_000), 0)
		if q.P(60) {
			add(q.In(0, 3000), "crash", 0, 0, 0)
			add(q.In(3001, 6000), "start", q.N(np), 0, 0)
		}
	}
}

// Peers that are connected, answer pings, and are of no use for ever.
const (
	muteAll     = 1 + iota // answers neither getheaders nor getcfilters
	muteFilters            // does not answer getcfilters
	muteShort              // has no blocks
	nMute       = iota
)

// --- run -----------------------------------------------------------------------

func (w *World) addPeers(p *Plan) {
	for i := 0; i < p.C("peers"); i++ {
		pr := NewRng(w.s.Seed, "peercfg"+itoa(i))
		cfg := PeerCfg{Services: 1 | 8 | 64 | 1024, Batch: p.C("batch"), DelayMax: p.D("delay"), VersionLag: p.D("verlag"), VersionAt: p.C("verat"),
			Announce: p.C("announce"), Chatty: p.C("chatty") == 1, Overlap: p.C("overlap"), PongLag: p.D("ponglag"), AnnounceH: p.C("annh")}
		if i > 0 {
			cfg.TipLag = pr.Pick(0, p.C("taglag"))
			cfg.Announce = pr.Pick(cfg.Announce, pr.N(4))
		}
		useless := p.C("mute") == i+1
		if useless {
			cfg.AnnounceH = p.C("muteh")
			switch p.C("mutekind") {
			case muteAll:
				cfg.NoSync = true
			case muteFilters:
				cfg.NoFilters = true
			case muteShort:
				cfg.NoFilters = true
				cfg.TipLag = 1 << 20
			}
		}
		a := net.JoinHostPort("10.0.0."+itoa(i+1), "18886")
		lk := &Link{LatMin: 100 * time.Microsecond, LatMax: p.D("lat") + 200*time.Microsecond, Frag: p.C("frag"), Window: 1 << 16, Pause: p.C("pause"), PauseMax: p.D("pausemax"), Coalesce: p.C("coalesce")}
		w.s.Net.Links[a] = lk
		q := NewPeer(w.s, w, a, cfg)
		q.useless = useless
		q.Listen()
		w.peers = append(w.peers, q)
	}
}

func runNode(s *Sim, p *Plan) {
	w := &World{s: s, p: p, txRaw: map[[32]byte][]byte{}, rng: NewRng(s.Seed, "world")}
	w.chain = NewChain(s.Seed, netNames[p.C("net")])
	w.magic = w.chain.Magic
	w.chain.MineN(p.C("blocks"))
	w.st = NewStore(s, w.chain)
	w.st.LatMax = p.D("dblat")
	if p.Profile == "fork" {
		w.st.anyHdr = true
		s.only = map[string]bool{"C01": true}
	}
	if n := p.C("pre"); n > 0 {
		fr := NewRng(s.Seed, "prefilters")
		w.st.Preload(minInt(n, p.C("blocks")), func(int) bool { return fr.P(p.C("prefilters")) })
	}
	w.addPeers(p)
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	w.heap0 = ms.HeapSys
	w.start(w.peers[0].addr)
	for _, o := range p.Ops {
		if o.At >= p.C("end") {
			break
		}
		s.At(time.Duration(o.At) * time.Millisecond)
		s.Ev("op %s %d %d %d", o.Kind, o.A, o.B, o.C)
		w.op(o)
	}
	s.At(p.D("end"))
	if p.Profile == "fork" {
		w.st.Verify()
		w.stop()
		return
	}
	w.settle()
}

// goodConn is a connection that an honest, responsive peer has with the node.
func (w *World) goodConn() *pconn {
	for _, p := range w.peers {
		if p.deadForGood || p.useless {
			continue
		}
		for _, c := range p.conns {
			if !c.closed && c.ready() && !c.garbage && !c.evil && !c.nodeEndClosed() && c.c.(*simConn).peer.tag == w.inc.tag {
				return c
			}
		}
	}
	return nil
}

const (
	syncBound   = 420 * time.Second
	filterBound = 420 * time.Second
)

func (w *World) settle() {
	s := w.s
	s.Ev("heal")
	w.st.FailUntil, w.st.HangUntil = 0, 0
	w.st.FailAt = map[int]bool{}
	for _, p := range w.peers {
		if !p.deadForGood {
			p.cfg.DropUntil = 0
			if !p.useless {
				p.cfg.NoSync = false
				p.cfg.AnnounceH = 0
				p.cfg.TipLag = 0
			}
			if p.l == nil {
				p.Listen()
			}
		}
		for _, c := range p.conns {
			if c.garbage || c.evil || p.deadForGood || p.holed {
				c.taint = true
				c.shut()
			}
		}
	}
	s.Net.Heal()
	time.Sleep(2 * time.Second)
	if w.inc == nil || w.inc.stopped || w.inc.killed || (w.inc.returned && w.inc.err != nil) {
		if w.inc != nil && !w.inc.killed {
			w.stop()
		}
		var q *Peer
		for _, p := range w.peers {
			if !p.deadForGood && !p.useless {
				q = p
			}
		}
		if q == nil {
			q = w.spare()
		}
		w.start(q.addr)
		s.Probe("settle.restart")
	}
	if inc := w.inc; inc.first == nil && !inc.returned { // it may still be connecting
		s.Wait(140*time.Second, func() bool { return inc.returned || inc.first0() })
		if inc.returned && inc.err != nil {
			w.stop()
			w.start(w.spare().addr)
			s.Probe("settle.restart")
		}
	}
	healed := s.Now()
	s.Wait(15*time.Second, func() bool { return w.goodConn() != nil })
	if w.goodConn() == nil {
		s.Probe("settle.reconnect")
		q := w.spare()
		if !w.connect(q) {
			s.Fail("C02", "connect", "the node cannot be connected to a healthy peer after faults stopped")
		}
	}
	if !s.Wait(30*time.Second, func() bool { return w.goodConn() != nil }) {
		s.Fail("C02", "handshake", "the handshake with a healthy peer does not complete after faults stopped")
		w.finalStop()
		return
	}
	// a few more blocks while it catches up
	for i := w.p.Cfg["late"]; i > 0; i-- {
		w.chain.Mine()
		for _, p := range w.peers {
			p.Announce(1)
		}
		time.Sleep(3 * time.Second)
	}
	top := func() uint32 { return w.chain.Height() }
	if !s.Wait(syncBound-(s.Now()-healed), func() bool { return w.st.TipH() >= top() }) {
		s.Fail("C02", "stuck", "%v after faults stopped the node stores %d of %d headers although a responsive peer is connected", s.Now()-healed, w.st.TipH(), top())
	} else {
		s.Count("sync.ms", int((s.Now()-healed)/time.Millisecond))
	}
	if inc := w.inc; !inc.returned && inc.first != nil && !inc.first.closed && !inc.first.taint && !(inc.first.p.useless && w.p.C("muteh") > 0) && w.p.C("annh") == 0 && w.st.TipH() >= top() {
		if !s.Wait(60*time.Second, func() bool { return inc.returned }) {
			s.Fail("C03", "never-returns", "Start has not returned 60 s after the store holds every header of the connected peer")
		}
	}
	missing := func() int {
		n, first := 0, -1
		for h := 1; h < len(w.st.heights); h++ {
			if !w.st.HasFilter(w.st.heights[h].hash) {
				n++
				if first < 0 {
					first = h
				}
			}
		}
		w.firstMissing = first
		return n
	}
	t1 := s.Now()
	if !s.Wait(filterBound, func() bool { return missing() == 0 }) {
		s.Fail("C04", "missing", "%d filters are missing %v after faults stopped, the first at height %d", missing(), s.Now()-healed, w.firstMissing)
	} else {
		s.Count("filters.ms", int((s.Now()-t1)/time.Millisecond))
	}
	for h := 1; h < len(w.st.heights) && h < len(w.chain.Blocks); h++ {
		if w.st.heights[h].hash != w.chain.Blocks[h].Hash {
			s.Fail("C02", "other-chain", "the header at height %d is not the one of the peers' chain", h)
			break
		}
	}
	// every request of a peer is answered
	var ids []uint64
	c := w.goodConn()
	if c != nil {
		ids = append(ids, c.ping(0))
	}
	lag := w.p.D("ponglag")
	time.Sleep(20*time.Second + lag)
	for _, p := range w.peers {
		for _, c := range p.conns {
			if c.closed || c.taint || c.garbage || c.evil || p.deadForGood || !c.ready() || c.c.(*simConn).peer.tag != w.inc.tag || c.nodeEndClosed() {
				continue
			}
			for _, pr := range c.pings {
				if pr.pongs == 0 && s.Now()-pr.at > 15*time.Second+lag {
					s.Fail("C12", "pong-missing", "a ping of peer %s got no pong within %v", p.addr, s.Now()-pr.at)
				}
			}
			if len(c.invs) > 0 && s.Now()-c.invAt > 15*time.Second+lag {
				s.Fail("C12", "getdata-missing", "an inv of %d items of peer %s got no getdata", len(c.invs[0]), p.addr)
			}
			if c.verackN != c.versionsSent || c.sendHdrsN != 1 {
				s.Fail("C12", "handshake", "peer %s received %d verack and %d sendheaders for its version", p.addr, c.verackN, c.sendHdrsN)
			}
		}
	}
	if w.p.Profile == "relay" {
		w.relayCheck()
	}
	s.State("tip %d", w.st.TipH())
	w.finalStop()
}

// spare is a fresh healthy peer.
func (w *World) spare() *Peer {
	a := net.JoinHostPort("10.0.9."+itoa(len(w.peers)+1), "18886")
	q := NewPeer(w.s, w, a, PeerCfg{Services: 1 | 8 | 64 | 1024, Batch: w.p.C("batch"), DelayMax: 5 * time.Millisecond})
	q.Listen()
	w.peers = append(w.peers, q)
	return q
}

func (w *World) finalStop() {
	s := w.s
	w.st.Verify()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := (ms.HeapSys - w.heap0) >> 20; ms.HeapSys > w.heap0 && d > 1500 {
		s.Fail("C11", "memory-total", "the heap grew by %d MB", d)
	}
	w.stop()
	time.Sleep(30 * time.Second)
}
