package verifsim

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/descriptor"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

// The scanner scenario: the real scanner and the real block service against
// stores that a simulated node fills and a simulated block explorer.

func init() {
	scenarios["scan"] = &scenario{gen: genScan, run: runScan}
}

// --- block explorer -------------------------------------------------------------

type Explorer struct {
	s        *Sim
	chain    *Chain
	addr     string
	rng      *Rng
	SlowMax  time.Duration
	FailPM   int
	FailTill time.Duration
	Kinds    int // bit set of failure kinds
	notYet   map[chainhash.Hash]time.Duration
	Reqs     int
	lastReq  time.Duration
	OnReq    func()
	gone     uint32 // height of a block it never has
}

const (
	exFail500 = iota
	exFail404
	exTrunc
	exSlow
	exHang
	exReset
	exTruncEOF
	exWrong
	nExFail
)

func NewExplorer(s *Sim, c *Chain, addr string) *Explorer {
	e := &Explorer{s: s, chain: c, addr: addr, rng: NewRng(s.Seed, "explorer"), notYet: map[chainhash.Hash]time.Duration{}, Kinds: 1<<nExFail - 1}
	l, err := net.Listen("tcp", addr)
	if err != nil {
		panic(err)
	}
	go (&http.Server{Handler: e}).Serve(l)
	return e
}

func (e *Explorer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s := e.s
	e.Reqs++
	e.lastReq = s.Now()
	if e.OnReq != nil {
		e.OnReq()
	}
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(parts) != 3 || parts[0] != "block" || parts[2] != "raw" || r.Method != "GET" {
		s.Fail("C06", "explorer-request", "the block source is asked %s %s", r.Method, r.URL.Path)
		http.Error(w, "bad request", 400)
		return
	}
	h, err := chainhash.NewHashFromStr(parts[1])
	var b *Blk
	if err == nil {
		b = e.chain.ByHash(*h)
	}
	if b == nil || b.Raw == nil {
		s.Probe("explorer.unknown")
		http.Error(w, "Block not found", 404)
		return
	}
	if e.SlowMax > 0 {
		time.Sleep(time.Duration(e.rng.N(int(e.SlowMax))))
	}
	if e.gone > 0 && b.Height == e.gone {
		s.Fault("explorer.never")
		http.Error(w, "Block not found", 404)
		return
	}
	if till := e.notYet[*h]; s.Now() < till {
		s.Fault("explorer.not-yet")
		http.Error(w, "Block not found", 404)
		return
	}
	if s.Now() < e.FailTill && e.rng.PM(e.FailPM) {
		k := e.rng.N(nExFail)
		for i := 0; e.Kinds&(1<<uint(k)) == 0 && i < nExFail; i++ {
			k = (k + 1) % nExFail
		}
		switch k {
		case exFail500:
			s.Fault("explorer.5xx")
			http.Error(w, "oops", e.rng.Pick(500, 502, 503, 429))
			return
		case exFail404:
			s.Fault("explorer.404")
			http.Error(w, "Block not found", 404)
			return
		case exSlow:
			s.Fault("explorer.slow")
			time.Sleep(time.Duration(1+e.rng.N(13)) * time.Second)
		case exHang:
			s.Fault("explorer.hang")
			time.Sleep(40 * time.Second)
			return
		case exWrong: // a mixed up cache
			k := int(b.Height) + e.rng.Pick(-2, -1, 1, 2)
			if k > 0 && k < len(e.chain.Blocks) && e.chain.Blocks[k].Raw != nil {
				s.Fault("explorer.wrong-block")
				b = e.chain.Blocks[k]
			}
		case exTrunc, exTruncEOF, exReset:
			hj, ok := w.(http.Hijacker)
			if !ok {
				return
			}
			c, _, err := hj.Hijack()
			if err != nil {
				return
			}
			s.Fault("explorer.truncated")
			n := e.rng.N(len(b.Raw))
			switch k {
			case exTrunc:
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b.Raw))
				c.Write(b.Raw[:n])
			case exTruncEOF:
				fmt.Fprintf(c, "HTTP/1.0 200 OK\r\n\r\n")
				c.Write(b.Raw[:n])
			}
			c.Close()
			return
		}
	}
	w.Header().Set("Content-Type", "application/octet-stream")
	w.Header().Set("Content-Length", strconv.Itoa(len(b.Raw)))
	w.Write(b.Raw)
}

// --- what is watched -------------------------------------------------------------

const (
	descXpub  = "elwpkh(xpub661MyMwAqRbcFFzgbS7PZzrLLXNYmno5FN7aYMceX7HcRgot6DUnPWn8z8C2EAcqiQ9QBmsWkVmhvMjsrwsMexwiqcW1mdyMZDspQqv6SUQ/1/*)"
	descOrig  = "elwpkh([ffffffff/13']xpub69H7F5d8KSRgmmdJg2KhpAK8SR3DjMwAdkxj3ZuxV27CprR9LgpeyGmXUbC6wb7ERfvrnKZjXoUmmDznezpbZb7ap6r1D3tgFxHmwMkQTPH/1/2/*)"
	descKey   = "elwpkh(03a34b99f22c790c4e36b2b3c2c35a36db06226e41c692fc82b8b56ac1c540c5bd)"
	descFixed = "elwpkh(xpub661MyMwAqRbcFFzgbS7PZzrLLXNYmno5FN7aYMceX7HcRgot6DUnPWn8z8C2EAcqiQ9QBmsWkVmhvMjsrwsMexwiqcW1mdyMZDspQqv6SUQ)"
)

var descs = []string{descKey, descXpub, descFixed, descOrig}

const rangeScripts = 100

// descScripts returns the scripts a wallet with the descriptor uses.
func descScripts(d string, n int) [][]byte {
	w, err := descriptor.Parse(d)
	if err != nil {
		panic(err)
	}
	var opt *descriptor.ScriptOpts
	if w.IsRange() {
		opt = descriptor.WithRange(n)
	}
	sc, err := w.Script(opt)
	if err != nil {
		panic(err)
	}
	out := [][]byte{}
	for _, x := range sc {
		out = append(out, x.Script)
	}
	return out
}

// Targets are the scripts of the watched world.
type Targets struct {
	Plain [][]byte
	Desc  [][][]byte // scripts of descs[i]
}

func NewTargets(seed uint64, nPlain, nDesc int) *Targets {
	r := NewRng(seed, "targets")
	t := &Targets{}
	for i := 0; i < nPlain; i++ {
		t.Plain = append(t.Plain, append([]byte{0, 20}, r.Bytes(20)...))
	}
	for i := 0; i < nDesc; i++ {
		t.Desc = append(t.Desc, descScripts(descs[i], rangeScripts+1))
	}
	return t
}

// Paid lists the scripts that transactions of the chain pay.
func (t *Targets) Paid(r *Rng) [][]byte {
	out := append([][]byte{}, t.Plain...)
	for _, l := range t.Desc {
		if len(l) == 1 {
			out = append(out, l[0], l[0])
			continue
		}
		out = append(out, l[0], l[1], l[r.N(100)], l[49], l[50], l[98], l[99], l[100])
	}
	return out
}

func addrOf(script []byte, blinded bool) string {
	p, err := payment.FromScript(script, &network.Regtest, nil)
	if err != nil {
		panic(err)
	}
	a, err := p.WitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return a
}

// --- watches and their model -----------------------------------------------------

type watchKind int

const (
	wScript watchKind = iota
	wSpend
)

// watch is one watched item and what has been reported for it.
type watch struct {
	id      uuid.UUID
	kind    watchKind
	script  []byte
	hash    chainhash.Hash // of the spent transaction
	idx     uint32
	start   uint32
	persist bool
	at      time.Duration

	got map[string]int // height/txid -> times
	seq []int          // positions of the reports in chain order
}

func (x *watch) String() string {
	k := "script"
	if x.kind == wSpend {
		k = "outpoint"
	}
	o := "one-shot"
	if x.persist {
		o = "persistent"
	}
	return fmt.Sprintf("%s watch of %s from height %d on", o, k, x.start)
}

func (x *watch) matches(tx *transaction.Transaction) bool {
	if x.kind == wScript {
		for _, o := range tx.Outputs {
			if bytes.Equal(o.Script, x.script) {
				return true
			}
		}
		return false
	}
	for _, in := range tx.Inputs {
		if bytes.Equal(in.Hash, x.hash[:]) && in.Index == x.idx {
			return true
		}
	}
	return false
}

type hit struct {
	h  uint32
	n  int // position in the block
	id string
}

// expect computes what the watch has to report, in order.
func (x *watch) expect(c *Chain) []hit {
	var out []hit
	for h := int(x.start); h < len(c.Blocks); h++ {
		b := c.Blocks[h]
		any := false
		for i, tx := range b.Txs {
			if x.matches(tx) {
				out = append(out, hit{b.Height, i, b.TxIDs[i]})
				any = true
			}
		}
		if any && !x.persist {
			break
		}
	}
	return out
}

type scanWorld struct {
	s       *Sim
	p       *Plan
	chain   *Chain
	st      *Store
	ex      *Explorer
	tg      *Targets
	rng     *Rng
	svc     scanner.Service
	bsvc    blockservice.BlockService
	watches []*watch
	byID    map[uuid.UUID][]*watch
	feed    []feedItem
	hdrAt   time.Duration
	busy    time.Duration // the consumer takes nothing before

	running  bool
	starting bool
	stopping int // calls of Stop under way
	stopAt   time.Duration
	gen      int

	gone       uint32 // height of a filter or block that is never available
	goneFilter bool
}

type feedItem struct {
	at     time.Duration
	h      uint32
	filter bool
}

const scanTag = 1

func genScan(r *Rng, p *Plan) {
	c := p.Cfg
	c["blocks"] = r.Pick(0, 1, 5, 20, 40)
	c["plain"] = r.In(1, 4)
	c["descs"] = r.Pick(0, 0, 1, 1, 1, 2, 2, 3)
	c["hit"] = r.Pick(10, 30, 60, 90)
	c["maxtx"] = r.Pick(1, 3, 6)
	c["dblat"] = r.Pick(0, 0, 1, 20)
	c["exlat"] = r.Pick(0, 5, 200, 1500)
	c["lat"] = r.Pick(0, 2, 30)
	c["hdrlag"] = r.Pick(0, 0, 100, 3000)
	c["fltlag"] = r.Pick(0, 0, 100, 5000, 20000)
	c["fltlate"] = r.Pick(0, 0, 50, 300) // per mille of filters that come very late
	c["idxlag"] = r.Pick(0, 0, 3000)     // the explorer knows a block only later
	c["end"] = r.Pick(20_000, 60_000, 200_000)
	end := c["end"]
	add := func(at int, k string, a, b, cc int) { p.Ops = append(p.Ops, Op{at, k, a, b, cc}) }
	t := func() int { return r.Pick(r.In(0, end-1), r.In(0, 5000)) }
	watchAt := func(at int) {
		add(at, "watch", r.Pick(0, 0, 0, 1, 1, 2, 2), r.N(1000), r.N(1<<20))
	}
	for i := 1 + r.N(6); i > 0; i-- {
		watchAt(t())
	}
	if r.P(30) { // several at the same moment
		at := t()
		for i := 2 + r.N(3); i > 0; i-- {
			watchAt(at + r.N(3))
		}
	}
	for i := r.N(10); i > 0; i-- {
		add(t(), "mine", r.Pick(1, 1, 1, 2, 5), 0, 0)
	}
	near := func() int { // shortly before something happens
		if len(p.Ops) == 0 || r.P(30) {
			return t()
		}
		return maxInt(0, p.Ops[r.N(len(p.Ops))].At-r.Pick(0, 5, 300))
	}
	for i := 0; i < 3; i++ {
		if r.P(30) {
			c["failat"+itoa(i)] = r.In(1, 60)
		}
	}
	if r.P(60) {
		for i := 1 + r.N(3); i > 0; i-- {
			t := near
			switch r.Pick(0, 0, 0, 1, 2, 3, 4) {
			case 0:
				add(t(), "exfail", r.Pick(100, 400, 1000), r.Pick(500, 5000, 30000), r.In(1, 1<<nExFail-1))
			case 1:
				add(t(), "exrefuse", 0, r.Pick(500, 5000, 30000), 0)
			case 2:
				add(t(), "exhole", 0, r.Pick(500, 5000, 30000), 0)
			case 3:
				add(t(), "dbfail", r.Pick(50, 200, 500, 1000), r.Pick(500, 5000, 20000), 0)
			case 4:
				add(t(), "dbhang", 0, r.Pick(100, 3000, 15000), 0)
			}
		}
	}
	if r.P(40) {
		for i := 1 + r.N(2); i > 0; i-- {
			add(near(), "busy", 0, r.Pick(100, 3000, 20000), 0)
		}
	}
	stops := 0
	if p.Profile == "stop" {
		stops = 1 + r.N(4)
	} else if r.P(25) {
		stops = 1 + r.N(2)
	}
	for ; stops > 0; stops-- {
		at := r.Pick(t(), near()+r.N(400), r.In(0, 300))
		add(at, "stop", r.N(3), 0, 0)
		add(at+r.Pick(0, 1, 50, 2000, 20000), "start", 0, 0, 0)
		if r.P(30) {
			add(at, "busy", 0, r.Pick(100, 3000, 20000), 0)
		}
		if r.P(30) {
			watchAt(at + r.N(3))
		}
	}
	add(r.Pick(0, 0, 0, 10, 3000), "start", 0, 0, 0)
	if q := NewRng(p.Seed, "gone"); q.P(15) { // a filter or a block that is never to be had
		c["gone"] = q.In(1, c["blocks"]+2)
		c["gonekind"] = q.In(1, 2)
		for i := q.In(1, 3); i > 0; i-- { // more watches, some of them above it
			add(q.In(0, end-1), "watch", q.Pick(0, 0, 1), q.N(1000), q.N(1<<20))
		}
	}
}

func runScan(s *Sim, p *Plan) {
	w := &scanWorld{s: s, p: p, byID: map[uuid.UUID][]*watch{}, rng: NewRng(s.Seed, "scanworld")}
	w.chain = NewChain(s.Seed, "regtest")
	w.tg = NewTargets(s.Seed, p.C("plain"), p.C("descs"))
	w.chain.Scripts = w.tg.Paid(w.rng)
	w.chain.HitPct = p.C("hit")
	w.chain.MaxTxs = p.C("maxtx")
	w.chain.MaxUtxo = 25
	w.chain.MineN(p.C("blocks"))
	w.st = NewStore(s, w.chain)
	w.st.LatMax = p.D("dblat")
	for i := 0; i < 3; i++ {
		if k := p.C("failat" + itoa(i)); k > 0 {
			w.st.FailAt[k] = true
		}
	}
	pr := NewRng(s.Seed, "prefilters")
	n := p.C("blocks")
	pre := pr.Pick(n, n, pr.N(n+1))
	w.gone, w.goneFilter = uint32(p.C("gone")), p.C("gonekind") == 1
	w.st.Preload(pre, func(h int) bool { return !w.goneFilter || uint32(h) != w.gone })
	for h := pre + 1; h <= n; h++ {
		w.schedule(uint32(h))
	}
	w.ex = NewExplorer(s, w.chain, "10.1.0.1:3000")
	w.ex.SlowMax = p.D("exlat")
	if !w.goneFilter {
		w.ex.gone = w.gone
	}
	s.Net.Links[w.ex.addr] = &Link{LatMin: 50 * time.Microsecond, LatMax: p.D("lat") + 100*time.Microsecond, Window: 1 << 16, Coalesce: 50}
	w.bsvc = blockservice.NewEsploraBlockService("http://" + w.ex.addr)
	w.svc = scanner.New(w.st.Filters(), w.st.Headers(), w.bsvc, &w.chain.Blocks[0].Hash)
	go w.feeder()
	for _, o := range p.Ops {
		if o.At >= p.C("end") {
			break
		}
		s.At(time.Duration(o.At) * time.Millisecond)
		s.Ev("op %s %d %d %d", o.Kind, o.A, o.B, o.C)
		w.op(o)
	}
	s.At(p.D("end"))
	w.settle()
}

// schedule plans when the simulated node stores a block's header and filter.
func (w *scanWorld) schedule(h uint32) {
	r := w.rng
	now := w.s.Now()
	if w.hdrAt < now {
		w.hdrAt = now
	}
	w.hdrAt += time.Duration(r.N(w.p.C("hdrlag")+1)) * time.Millisecond
	at := w.hdrAt
	f := at + time.Duration(r.N(w.p.C("fltlag")+1))*time.Millisecond
	if r.PM(w.p.C("fltlate")) {
		f = at + w.p.D("end")
		w.s.Fault("filter.late")
	}
	if l := w.p.C("idxlag"); l > 0 {
		w.ex.setNotYet(w, h, at+time.Duration(r.N(l))*time.Millisecond)
	}
	w.feed = append(w.feed, feedItem{at, h, false}, feedItem{f, h, true})
	sort.SliceStable(w.feed, func(i, j int) bool { return w.feed[i].at < w.feed[j].at })
}

func (e *Explorer) setNotYet(w *scanWorld, h uint32, till time.Duration) {
	if e != nil {
		e.notYet[w.chain.Blocks[h].Hash] = till
	}
}

func (w *scanWorld) feeder() {
	for {
		for len(w.feed) > 0 && w.feed[0].at <= w.s.Now() {
			it := w.feed[0]
			w.feed = w.feed[1:]
			if it.filter && w.goneFilter && it.h == w.gone {
				w.s.Fault("filter.never")
			} else if it.filter {
				w.st.FeedFilter(it.h)
			} else {
				w.st.FeedHeader(it.h)
			}
		}
		d := 20 * time.Millisecond
		if len(w.feed) > 0 && w.feed[0].at-w.s.Now() < d {
			d = w.feed[0].at - w.s.Now()
		}
		time.Sleep(d)
	}
}

func (w *scanWorld) op(o Op) {
	s := w.s
	switch o.Kind {
	case "watch":
		w.watch(o)
	case "mine":
		for i := 0; i < o.A; i++ {
			b := w.chain.Mine()
			w.schedule(b.Height)
		}
	case "exfail":
		w.ex.FailPM, w.ex.Kinds = o.A, o.C
		w.ex.FailTill = s.Now() + time.Duration(o.B)*time.Millisecond
	case "exrefuse":
		s.Net.Refuse(w.ex.addr, time.Duration(o.B)*time.Millisecond)
		s.Net.ResetAll(w.ex.addr, true)
	case "exhole":
		s.Net.Blackhole(w.ex.addr, time.Duration(o.B)*time.Millisecond)
	case "dbfail":
		w.st.FailPM = o.A
		w.st.FailUntil = s.Now() + time.Duration(o.B)*time.Millisecond
	case "dbhang":
		w.st.HangUntil = s.Now() + time.Duration(o.B)*time.Millisecond
	case "busy":
		s.Fault("consumer.stall")
		w.busy = s.Now() + time.Duration(o.B)*time.Millisecond
	case "start":
		w.start()
	case "stop":
		if o.A == 0 {
			w.stop()
		} else {
			go w.stop()
			if o.A == 2 { // two at once
				go w.stop()
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
}

func (w *scanWorld) start() {
	s := w.s
	if w.running {
		return
	}
	if w.stopping > 0 && !s.Wait(70*time.Second, func() bool { return w.stopping == 0 }) {
		return
	}
	w.starting = true
	defer func() { w.starting = false }()
	var ch <-chan scanner.Report
	var err error
	w.st.idleTag[scanTag] = false
	if !s.Call(scanTag, 30*time.Second, func() { ch, err = w.svc.Start() }) {
		s.Fail("C16", "start-hang", "Start of the scanner hangs")
		return
	}
	if err != nil {
		s.Fail("C16", "restart", "the stopped scanner cannot be started: %v", err)
		return
	}
	s.Probe("scanner.start")
	w.running = true
	w.gen++
	gen := w.gen
	go w.consume(ch, gen)
}

func (w *scanWorld) consume(ch <-chan scanner.Report, gen int) {
	s := w.s
	for {
		if d := w.busy - s.Now(); d > 0 {
			time.Sleep(d)
			continue
		}
		select {
		case r, ok := <-ch:
			if !ok {
				return
			}
			w.report(r, gen)
		case <-time.After(500 * time.Millisecond):
			if gen != w.gen && w.stopping == 0 && s.Now()-w.stopAt > 20*time.Second {
				return
			}
		}
	}
}

func (w *scanWorld) stop() {
	s := w.s
	if !w.running && w.stopping == 0 {
		w.stopping++
		defer func() { w.stopping-- }()
		if !s.Call(scanTag, 30*time.Second, func() { w.svc.Stop() }) {
			s.Fail("C16", "stop-hang", "Stop of a scanner that does not run hangs")
		}
		return
	}
	w.stopping++
	w.running = false
	s.Ev("stop")
	// a block request takes 15 s at most, a hung store operation as long as the storage hangs
	bound := 60 * time.Second
	if !s.Call(scanTag, bound, func() { w.svc.Stop() }) {
		s.Fail("C16", "stop-hang", "Stop of the scanner does not return within %v", bound)
		w.stopping--
		return
	}
	s.Probe("scanner.stop")
	s.Ev("stopped")
	w.stopAt = s.Now()
	w.stopping--
	if !w.running && !w.starting {
		w.st.idleTag[scanTag] = true
	}
}

func (w *scanWorld) addWatch(x *watch) {
	x.got = map[string]int{}
	x.at = w.s.Now()
	w.watches = append(w.watches, x)
	w.byID[x.id] = append(w.byID[x.id], x)
}

func (w *scanWorld) watch(o Op) {
	s := w.s
	r := NewRng(s.Seed, "watch"+itoa(o.C)+"/"+itoa(o.B))
	id := uuid.UUID{}
	copy(id[:], r.Bytes(16))
	tip := int(w.chain.Height())
	start := 0
	switch r.N(6) {
	case 0:
		start = 0
	case 1:
		start = r.In(0, tip)
	case 2:
		start = tip
	case 3:
		start = tip + 1
	case 4:
		start = tip + r.In(2, 12)
	case 5:
		start = r.Pick(r.In(0, tip), 1, 1<<31-1)
	}
	persist := r.P(50)
	opts := []scanner.ScanRequestOption{scanner.WithRequestID(id)}
	if start > 0 || r.P(50) {
		opts = append(opts, scanner.WithStartBlock(uint32(start)))
	}
	if persist {
		opts = append(opts, scanner.WithPersistentWatch())
	}
	call := func(f func()) {
		if !s.Call(scanTag, 30*time.Second, f) {
			s.Fail("C06", "watch-hang", "adding a watch hangs")
		}
	}
	switch o.A {
	case 1: // an outpoint
		var in *transaction.TxInput
		var script []byte
		if n := len(w.chain.Spends); n > 0 && r.P(60) {
			sp := w.chain.Spends[r.N(n)]
			in, script = transaction.NewTxInput(sp.hash.CloneBytes(), sp.idx), sp.script
		} else if n := len(w.chain.utxos); n > 0 {
			u := w.chain.utxos[r.N(n)]
			in, script = transaction.NewTxInput(u.hash.CloneBytes(), u.idx), u.script
		} else {
			return
		}
		it, err := scanner.NewSpentWatchItemFromInput(in, script)
		if err != nil {
			s.Fail("C06", "item", "NewSpentWatchItemFromInput: %v", err)
			return
		}
		x := &watch{id: id, kind: wSpend, script: script, idx: in.Index, start: uint32(start), persist: persist}
		copy(x.hash[:], in.Hash)
		w.addWatch(x)
		s.Ev("watch outpoint from %d persistent %v", start, persist)
		call(func() { w.svc.Watch(append(opts, scanner.WithWatchItem(it))...) })
	case 2: // a descriptor
		if len(w.tg.Desc) == 0 {
			return
		}
		k := o.B % len(w.tg.Desc)
		for i, sc := range w.tg.Desc[k] {
			if i < rangeScripts {
				w.addWatch(&watch{id: id, kind: wScript, script: sc, start: uint32(start), persist: true})
			}
		}
		s.Ev("watch descriptor %d from %d", k, start)
		call(func() {
			if err := w.svc.WatchDescriptorWallet(id, descs[k], []scanner.EventType{scanner.UnspentUtxo}, start); err != nil {
				s.Fail("C06", "descriptor", "WatchDescriptorWallet(%s): %v", descs[k], err)
			}
		})
	default:
		sc := w.tg.Plain[o.B%len(w.tg.Plain)]
		it, err := scanner.NewUnspentWatchItemFromAddress(addrOf(sc, false))
		if err != nil {
			s.Fail("C06", "item", "NewUnspentWatchItemFromAddress: %v", err)
			return
		}
		w.addWatch(&watch{id: id, kind: wScript, script: sc, start: uint32(start), persist: persist})
		s.Ev("watch script from %d persistent %v", start, persist)
		call(func() { w.svc.Watch(append(opts, scanner.WithWatchItem(it))...) })
	}
	s.Probe("watch." + itoa(o.A))
}

// report checks one report of the scanner against the model.
func (w *scanWorld) report(r scanner.Report, gen int) {
	s := w.s
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	s.Count("reports", 1)
	if r.Request == nil || r.Request.Item == nil || r.Transaction == nil || r.BlockHash == nil {
		s.Fail("C05", "incomplete", "a report without request, transaction or block hash")
		return
	}
	txid := r.Transaction.TxHash().String()
	s.Ev("report %s at %d", txid, r.BlockHeight)
	if !w.running && !w.starting && w.stopping == 0 && s.Now()-w.stopAt > 10*time.Second {
		s.Fail("C16", "report-after-stop", "a report %v after Stop of the scanner returned", s.Now()-w.stopAt)
	}
	var x *watch
	kind := wScript
	if r.Request.Item.EventType() == scanner.SpentUtxo {
		kind = wSpend
	}
	for _, y := range w.byID[r.Request.ClientID] {
		if y.kind == kind && bytes.Equal(r.Request.Item.Bytes(), y.script) {
			x = y
			break
		}
	}
	if x == nil {
		s.Fail("C05", "unknown-watch", "a report for a watch that does not exist")
		return
	}
	if int(r.BlockHeight) >= len(w.chain.Blocks) || r.BlockHeight == 0 || w.chain.Blocks[r.BlockHeight].Hash != *r.BlockHash {
		s.Fail("C05", "block", "a report names block %v at height %d, which is not the block of the chain", r.BlockHash, r.BlockHeight)
		return
	}
	b := w.chain.Blocks[r.BlockHeight]
	n := -1
	for i, id := range b.TxIDs {
		if id == txid {
			n = i
		}
	}
	if n < 0 {
		s.Fail("C05", "tx", "a report names transaction %s, which is not in block %d", txid, r.BlockHeight)
		return
	}
	if !x.matches(b.Txs[n]) || !x.matches(r.Transaction) {
		s.Fail("C05", "no-match", "the %v reports transaction %s, which does not match it", x, txid)
		return
	}
	if r.BlockHeight < x.start {
		s.Fail("C05", "early", "the %v reports a transaction of height %d", x, r.BlockHeight)
		return
	}
	exp := x.expect(w.chain)
	pos := -1
	for i, e := range exp {
		if e.h == r.BlockHeight && e.id == txid {
			pos = i
		}
	}
	key := strconv.Itoa(int(r.BlockHeight)) + "/" + txid
	x.got[key]++
	switch {
	case pos < 0:
		s.Fail("C05", "one-shot", "the %v reports a match at height %d beyond its first matching block", x, r.BlockHeight)
	case x.got[key] > 1:
		s.Fail("C05", "duplicate", "the %v reports transaction %s at height %d again", x, txid, r.BlockHeight)
	default:
		if k := len(x.seq); k > 0 && x.seq[k-1] > pos {
			s.Fail("C05", "order", "the %v reports its match %d after its match %d", x, pos, x.seq[k-1])
		}
		x.seq = append(x.seq, pos)
	}
}

func (w *scanWorld) missing() (int, string) {
	n, first := 0, ""
	for _, x := range w.watches {
		exp := x.expect(w.chain)
		if len(x.seq) < len(exp) {
			for _, e := range exp {
				if w.gone > 0 && x.start <= w.gone && e.h >= w.gone { // cannot go on
					continue
				}
				if x.got[strconv.Itoa(int(e.h))+"/"+e.id] == 0 {
					n++
					if first == "" {
						first = fmt.Sprintf("the %v, added at %.1f s, has not reported transaction %s at height %d", x, x.at.Seconds(), e.id, e.h)
					}
				}
			}
		}
	}
	return n, first
}

func (w *scanWorld) heal() {
	s := w.s
	s.Ev("heal")
	w.st.FailUntil, w.st.HangUntil = 0, 0
	w.st.FailAt = map[int]bool{}
	w.ex.FailTill = 0
	w.ex.notYet = map[chainhash.Hash]time.Duration{}
	w.busy = 0
	s.Net.Heal()
}

func (w *scanWorld) settle() {
	s := w.s
	w.heal()
	s.Wait(100*time.Second, func() bool { return w.stopping == 0 })
	w.start()
	s.Wait(5*time.Second, func() bool { return false })
	// everything is available from now on
	for i := range w.feed {
		if w.feed[i].at > s.Now() {
			w.feed[i].at = s.Now()
		}
	}
	sort.SliceStable(w.feed, func(i, j int) bool {
		return !w.feed[i].filter && w.feed[j].filter || w.feed[i].filter == w.feed[j].filter && w.feed[i].h < w.feed[j].h
	})
	bound := 240 * time.Second
	if !s.Wait(bound, func() bool { n, _ := w.missing(); return n == 0 && len(w.feed) == 0 }) {
		n, first := w.missing()
		s.Fail("C06", "lost", "%d matches are not reported %v after everything became available: %s", n, bound, first)
	}
	// new blocks still are scanned
	for i := 0; i < 1+w.p.C("maxtx")%3; i++ {
		w.chain.HitPct = 100
		b := w.chain.Mine()
		w.st.FeedHeader(b.Height)
		w.st.FeedFilter(b.Height)
		time.Sleep(time.Duration(w.rng.N(2000)) * time.Millisecond)
	}
	if !s.Wait(60*time.Second, func() bool { n, _ := w.missing(); return n == 0 }) {
		n, first := w.missing()
		s.Fail("C06", "lost", "%d matches are not reported 60 s after everything became available: %s", n, first)
	}
	time.Sleep(10 * time.Second)
	n := 0
	for _, x := range w.watches {
		n += len(x.seq)
	}
	s.State("reports %d watches %d height %d", n, len(w.watches), w.chain.Height())
	w.stop()
	w.chain.Mine()
	w.st.FeedHeader(w.chain.Height())
	w.st.FeedFilter(w.chain.Height())
	time.Sleep(20 * time.Second)
}
