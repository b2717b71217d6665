package verifsim

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	log "github.com/sirupsen/logrus"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

// Scenario "api": the daemon - node, scanner, notification service, websocket
// and webhook handlers, either the server on the in-memory store or the whole
// neutrinod main on a simulated PostgreSQL - with subscribers that come and
// go, subscribers that misbehave, and stops, crashes and restarts.

func init() {
	scenarios["api"] = &scenario{gen: genApi, run: runApi}
}

const (
	apiAddr  = "10.0.1.1:8000"
	apiPeer  = "10.0.0.1:18886"
	apiExp   = "10.1.0.1:3000"
	nHosts   = 3
	nHooks   = 6
	nSlots   = 5
	hookLate = 15 * time.Second // a webhook post may still be under way
)

// genFixed makes the plans that show known findings.
func genFixed(r *Rng, p *Plan) {
	c := p.Cfg
	c["blocks"], c["descs"], c["hit"], c["maxtx"], c["window"], c["batch"], c["end"], c["stallmax"] = 5, 1, 95, 6, 65536, 2000, 10_000, 1
	p.Ops = append(p.Ops, Op{0, "start", 0, 0, 0})
	switch p.Profile {
	case "cutoff": // a signal while the database is set up
		c["full"], c["dblat"] = 1, 5
		p.Ops = append(p.Ops, Op{r.In(5, 80), "stop", 0, 0, 0}, Op{1000, "start", 0, 0, 0})
	case "spent": // a registration for spent outputs
		p.Ops = append(p.Ops, Op{2000, "spent", 0, 0, 0})
	}
}

func genApi(r *Rng, p *Plan) {
	c := p.Cfg
	if p.Profile == "cutoff" || p.Profile == "spent" {
		genFixed(r, p)
		return
	}
	c["stallmax"] = minInt(c["stallmax"], 400) // stalls must not exhaust the timeouts of a healthy webhook
	c["full"] = 0
	if p.Profile == "pg" || p.Profile == "stop" && r.P(40) {
		c["full"] = 1
	}
	bad := p.Profile == "bad"
	c["blocks"] = r.Pick(0, 1, 3, 10, 25)
	c["descs"] = r.Pick(1, 2, 2, 3, 4)
	c["hit"] = r.Pick(30, 70, 95)
	c["maxtx"] = r.Pick(1, 3, 6)
	c["exlat"] = r.Pick(0, 5, 200)
	c["dblat"] = r.Pick(0, 0, 1, 5)
	c["clat"] = r.Pick(0, 1, 30) // latency of clients
	c["cfrag"] = r.Pick(0, 0, 1, 2)
	c["window"] = r.Pick(65536, 65536, 4000, 1200)
	c["delay"] = r.Pick(0, 0, 50, 1000)
	c["batch"] = 2000
	c["announce"] = r.N(3)
	c["end"] = r.Pick(10_000, 30_000, 90_000)
	end := c["end"]
	add := func(at int, k string, a, b, cc int) { p.Ops = append(p.Ops, Op{at, k, a, b, cc}) }
	var hot []int
	t := func() int {
		if len(hot) > 0 && r.P(35) { // close to something else
			return maxInt(0, hot[r.N(len(hot))]+r.Pick(0, 0, 1, 3, 20, 400)-r.Pick(0, 0, 2, 300))
		}
		at := r.In(0, end-1)
		if r.P(30) {
			at = r.In(0, minInt(end-1, 4000))
		}
		hot = append(hot, at)
		return at
	}
	for i := 1 + r.N(nSlots); i > 0; i-- {
		add(r.Pick(0, 0, r.In(0, 3000)), "ws", i-1, 0, 0)
	}
	seed := func() int { return r.N(1 << 20) }
	for i := 3 + r.N(14); i > 0; i-- {
		switch r.N(12) {
		case 0, 1, 2:
			add(t(), "reg", r.N(nSlots), seed(), 0)
		case 3:
			add(t(), "unreg", r.N(nSlots), seed(), 0)
		case 4:
			add(t(), "burst", r.N(nSlots), seed(), 0)
		case 5:
			add(t(), "badreq", r.N(nSlots), seed(), 0)
		case 6:
			add(t(), "close", r.N(nSlots), r.N(5), seed())
		case 7:
			add(t(), "ws", r.N(nSlots), 0, 0)
		case 8, 9:
			add(t(), "hreg", r.N(nHooks), seed(), 0)
		case 10:
			add(t(), "hunreg", r.N(nHooks), seed(), 0)
		case 11:
			add(t(), "hbad", r.N(nHooks), seed(), 0)
		}
	}
	for i := 2 + r.N(8); i > 0; i-- {
		add(t(), "mine", r.Pick(1, 1, 1, 2, 4), 0, 0)
	}
	if r.P(50) {
		for i := 1 + r.N(3); i > 0; i-- {
			add(t(), "hrace", 0, seed(), 0)
		}
	}
	for i := r.Pick(0, 1, 3, 6); i > 0; i-- {
		if at := t(); r.P(70) {
			add(at, "react", r.N(nSlots), r.Pick(1, 1, 2, 5), seed())
		} else {
			add(at, "hreact", r.N(nHooks), r.Pick(1, 1, 2, 5), seed())
		}
	}
	if r.P(40) {
		for i := 1 + r.N(2); i > 0; i-- {
			switch r.N(4) {
			case 0:
				add(t(), "exfail", r.Pick(100, 400, 1000), r.Pick(500, 5000, 20000), r.In(1, 1<<nExFail-1))
			case 1:
				add(t(), "exrefuse", 0, r.Pick(500, 5000, 20000), 0)
			case 2:
				add(t(), "drop", r.Pick(20, 60), r.Pick(1000, 10000), 0)
			case 3:
				add(t(), "dbfail", r.Pick(50, 200, 1000), r.Pick(500, 5000, 15000), 0)
			}
		}
	}
	if bad {
		for i := 1 + r.N(6); i > 0; i-- {
			add(t(), "rogue", r.N(nRogue), seed(), 0)
		}
		for i := r.N(4); i > 0; i-- {
			add(t(), "hookbad", r.N(nHooks), r.N(nHookBad), r.Pick(1000, 20000, 1000000))
		}
	}
	if bad && r.P(8) { // a webhook that never answers, for many events
		c["blocks"], c["maxtx"], c["hit"] = 25, 6, 95
		h := r.N(nHooks)
		add(0, "hookbad", h, hookHang, 1000000000)
		for i := 0; i < 5; i++ {
			add(r.Pick(0, 0, r.In(0, end/2)), "hreg", h, seed(), 0)
		}
	}
	if q := NewRng(p.Seed, "cstall"); bad && q.P(20) { // a subscriber that reads nothing for a while
		c["window"] = q.Pick(1200, 4000)
		c["blocks"], c["maxtx"], c["hit"] = 25, 6, 95
		at := q.In(0, end/2)
		k := q.N(nSlots)
		add(0, "ws", k, 0, 0)
		add(at, "cstall", k, 0, q.Pick(3000, 15_000, 40_000))
		for i := q.In(1, 4); i > 0; i-- {
			add(at+q.In(0, 500), "reg", k, q.N(1<<20), 0)
		}
	}
	if bad && r.P(40) { // unregistrations while a subscriber that does not read holds up the events
		at := r.In(100, end-1)
		add(maxInt(0, at-r.In(1000, 10000)), "rogue", rgStall, seed(), 0)
		add(at, "mine", r.In(1, 4), 0, 0)
		for i := 1 + r.N(4); i > 0; i-- {
			if at := at + r.In(0, 6000); r.P(60) {
				add(at, "unreg", r.N(nSlots), seed(), 0)
			} else {
				add(at, "hunreg", r.N(nHooks), seed(), 0)
			}
		}
	}
	if c["full"] == 1 && p.Profile == "pg" {
		for i := r.Pick(0, 1, 1, 3); i > 0; i-- {
			add(t(), "pgcrash", r.Pick(1, 20, 300, 3000), 0, 0)
		}
		if r.P(40) {
			c["pgfail"] = r.Pick(2, 10, 50)
		}
		for i := r.Pick(0, 0, 1, 2); i > 0; i-- {
			at := t()
			add(at, "kill", 0, 0, 0)
			add(at+r.Pick(0, 5, 300, 5000), "start", 0, 0, 0)
		}
	}
	if p.Profile == "stop" {
		if r.P(25) {
			c["nosync"] = r.Pick(300, 3000, 1000000) // the peer does not serve headers for so long
		}
		for i := 1 + r.N(3); i > 0; i-- {
			at := t()
			if r.P(30) {
				at = r.In(0, 300)
			}
			add(at, "stop", 0, 0, 0)
			if r.P(20) { // the peer cannot be reached at the next start
				add(at, "nopeer", 0, r.Pick(300, 5000, 20000), 0)
			}
			add(at+r.Pick(0, 5, 300, 5000), "start", 0, 0, 0)
			if r.P(40) {
				add(maxInt(0, at-r.N(2000)), "rogue", r.Pick(rgStall, rgFlood, rgPartial, rgNoHandshake, rgHalfBody), seed(), 0)
			}
		}
	}
	add(0, "start", 0, 0, 0)
}

// --- the model of a subscription ---------------------------------------------------

type apiReg struct {
	k, start int
	acked    bool
}

type apiSeg struct { // what one subscriber is registered for
	regs  []*apiReg
	got   map[string]int
	extra map[string]int // webhooks: late posts of what was cleared
	until time.Duration
}

func newSeg() *apiSeg { return &apiSeg{got: map[string]int{}, extra: map[string]int{}} }

type txHit struct {
	h uint32
	n []int // scripts paid, per descriptor
}

func (w *apiWorld) budget(g *apiSeg, id string, acked bool) int {
	x := w.hits[id]
	n := 0
	if x == nil {
		return 0
	}
	for _, r := range g.regs {
		if int(x.h) >= r.start && (r.acked || !acked) {
			n += x.n[r.k]
		}
	}
	return n
}

// missing counts the events still to come and names one.
func (w *apiWorld) owed(g *apiSeg) (n int, first string) {
	for _, id := range w.hitList {
		if d := w.budget(g, id, true) - g.got[id]; d > 0 {
			if n == 0 {
				first = fmt.Sprintf("transaction %s at height %d (%d of %d events)", id, w.hits[id].h, g.got[id], g.got[id]+d)
			}
			n += d
		}
	}
	return
}

func (w *apiWorld) note(b *Blk) {
	for i, tx := range b.Txs {
		x := &txHit{h: b.Height, n: make([]int, len(w.tg.Desc))}
		any := false
		for k, l := range w.tg.Desc {
			for j, sc := range l {
				if j >= rangeScripts {
					break
				}
				for _, o := range tx.Outputs {
					if bytes.Equal(o.Script, sc) {
						x.n[k]++
						any = true
						break
					}
				}
			}
		}
		if any {
			w.hits[b.TxIDs[i]] = x
			w.hitList = append(w.hitList, b.TxIDs[i])
		}
	}
}

// --- the world ---------------------------------------------------------------------

type apiDaemon struct {
	tag      int32
	startAt  time.Duration
	listenAt time.Duration
	cancel   context.CancelFunc
	stopping bool
	stopAt   time.Duration
	killed   bool
	done     bool
	doneAt   time.Duration
	err      error
	baseTip  uint32
	fails    int
}

type apiWorld struct {
	reap      chan int32 // daemons that ended
	signalled int        // daemons that a signal ended before they handle any
	s         *Sim
	p         *Plan
	chain     *Chain
	nw        *World
	peer      *Peer
	st        *Store
	pg        *PG
	ex        *Explorer
	tg        *Targets
	rng       *Rng
	hits      map[string]*txHit
	hitList   []string

	d        *apiDaemon
	nInc     int
	slots    [nSlots]*apiClient
	clients  []*apiClient
	hooks    []*apiHook
	rogues   int
	stalled  int // rogue clients that keep a delivery waiting
	abrupt   bool
	settling bool
	hung     int // requests to webhooks under way that get no answer
}

func (w *apiWorld) full() bool { return w.pg != nil }

// lost reports something a healthy subscriber is denied.
func (w *apiWorld) lost(class, format string, args ...interface{}) {
	w.s.Fail("C07", class, format, args...)
	if w.rogues > 0 || w.abrupt {
		w.s.Fail("C08", class, format, args...)
	}
}

func (pg *PG) rows(table string) (out [][]interface{}) {
	for _, t := range pg.db.tables {
		if t.name == table {
			for _, r := range t.rows {
				if (r.xmin == nil || r.xmin.state == 1) && (r.xmax == nil || r.xmax.state != 1) {
					out = append(out, r.v)
				}
			}
		}
	}
	return
}

func (w *apiWorld) dirty() bool {
	if w.pg != nil {
		for _, v := range w.pg.rows("schema_migrations") {
			if v[1] == true {
				return true
			}
		}
	}
	return false
}

func (w *apiWorld) tipH() uint32 {
	if !w.full() {
		return w.st.TipH()
	}
	return uint32(len(w.pg.rows("block_header")))
}

func runApi(s *Sim, p *Plan) {
	w := &apiWorld{s: s, p: p, rng: NewRng(s.Seed, "apiworld"), hits: map[string]*txHit{}, reap: make(chan int32, 64)}
	w.chain = NewChain(s.Seed, "regtest")
	w.tg = NewTargets(s.Seed, 0, p.C("descs"))
	w.chain.Scripts = w.tg.Paid(w.rng)
	w.chain.HitPct = p.C("hit")
	w.chain.MaxTxs = p.C("maxtx")
	w.chain.MaxUtxo = 25
	w.chain.BigPct = 1
	for i := 0; i < p.C("blocks"); i++ {
		w.note(w.chain.Mine())
	}
	w.nw = &World{s: s, p: p, chain: w.chain, magic: w.chain.Magic, txRaw: map[[32]byte][]byte{}, rng: NewRng(s.Seed, "world")}
	if p.C("full") == 0 {
		w.st = NewStore(s, w.chain)
		w.st.LatMax = p.D("dblat")
		w.nw.st = w.st
	} else {
		w.pg = NewPG(s, pgAddr)
		w.pg.LatMax = p.D("dblat")
		w.pg.Start()
		for k := 1; k < pgKinds; k++ {
			w.pg.Kinds = append(w.pg.Kinds, k)
		}
		s.Net.Links[pgAddr] = &Link{LatMin: 20 * time.Microsecond, LatMax: 500 * time.Microsecond, Window: 1 << 16, Coalesce: 50}
		for k, v := range map[string]string{"NEUTRINOD_URL": apiAddr, "EXPLORER_URL": "http://" + apiExp, "PEER_URL": apiPeer, "NETWORK": "regtest",
			"LOG_LEVEL": "5", "DB_USER": "root", "DB_PASS": "secret", "DB_HOST": "10.0.9.1", "DB_PORT": "5432", "DB_NAME": "neutrino-elements", "DB_MIGRATION_PATH": migrationDir()} {
			os.Setenv("NEUTRINO_ELEMENTS_"+k, v)
		}
		log.StandardLogger().ExitFunc = func(int) { // log.Fatal ends the process
			w.s.Ev("daemon exits")
			runtime.Goexit()
		}
	}
	w.nw.locator = w.checkLocator
	w.peer = NewPeer(s, w.nw, apiPeer, PeerCfg{Services: 1 | 8 | 64 | 1024, Batch: p.C("batch"), DelayMax: p.D("delay"), Announce: p.C("announce")})
	w.peer.Listen()
	w.nw.peers = []*Peer{w.peer}
	w.ex = NewExplorer(s, w.chain, apiExp)
	w.ex.SlowMax = p.D("exlat")
	s.Net.Links[apiAddr] = &Link{LatMin: 50 * time.Microsecond, LatMax: p.D("clat") + 100*time.Microsecond, Window: p.C("window"), Coalesce: 50, Frag: p.C("cfrag")}
	s.Net.OnListen = w.listening
	go func() {
		for tag := range w.reap {
			s.Net.KillTag(tag)
		}
	}()
	for i := 0; i <= nHooks; i++ { // the last one for races, on a host of its own
		w.hooks = append(w.hooks, &apiHook{w: w, i: i, host: fmt.Sprintf("10.2.0.%d:8080", 1+i%nHosts+i/nHooks*nHosts), path: hookPath(s.Seed, i), seg: newSeg(), q: make(chan func(), 100), rng: NewRng(s.Seed, "hook"+itoa(i))})
		go w.hooks[i].queue()
	}
	for i := 0; i <= nHosts; i++ {
		l, err := net.Listen("tcp", fmt.Sprintf("10.2.0.%d:8080", 1+i))
		if err != nil {
			panic(err)
		}
		go (&http.Server{Handler: http.HandlerFunc(w.hookHandler), ErrorLog: nil}).Serve(l)
	}
	if n := p.C("nosync"); n > 0 {
		w.peer.cfg.NoSync = true
		go func() {
			time.Sleep(time.Duration(n) * time.Millisecond)
			w.peer.cfg.NoSync = false
		}()
	}
	for _, o := range p.Ops {
		if o.At >= p.C("end") {
			break
		}
		s.At(time.Duration(o.At) * time.Millisecond)
		s.Ev("op %s %d %d %d", o.Kind, o.A, o.B, o.C)
		w.op(o)
	}
	s.At(p.D("end"))
	w.settle()
}

func (w *apiWorld) checkLocator(p *Peer, g *getHeaders) {
	// where the daemon left off
	if len(g.locator) == 0 || w.d == nil {
		return
	}
	b := p.find(g.locator[0])
	if b == nil {
		w.s.Fail("C12", "locator-unknown", "getheaders: the first locator entry is not a header of the chain")
		return
	}
	if b.Height < w.d.baseTip && !w.d.killed && !w.d.stopping {
		w.s.Fail("C16", "starts-over", "after a restart the daemon asks for headers from height %d on, although %d are stored", b.Height, w.d.baseTip)
	}
}

// listening is called when something listens.
func (w *apiWorld) listening(addr string) {
	d := w.d
	if addr != apiAddr || d == nil || runtime.SimTag() != d.tag {
		return
	}
	s := w.s
	d.listenAt = s.Now()
	s.Ev("daemon %d listens", d.tag)
	s.Probe("api.listening")
	var c *pconn
	for _, x := range w.peer.conns {
		if sc := x.c.(*simConn); sc.peer.tag == d.tag {
			c = x
		}
	}
	switch {
	case d.stopping || d.killed:
	case c == nil || c.verAt == 0:
		s.Fail("C03", "daemon-early", "the daemon accepts subscriptions before the handshake with its peer")
	case w.tipH() < c.annH:
		s.Fail("C03", "daemon-early", "the daemon accepts subscriptions at height %d although its peer announced %d", w.tipH(), c.annH)
	}
}

func (w *apiWorld) up() bool {
	d := w.d
	return d != nil && !d.done && !d.killed && !d.stopping && d.listenAt > 0
}

func (w *apiWorld) start() {
	s := w.s
	if w.d != nil && !w.d.done && !w.d.killed {
		if !w.d.stopping {
			return
		}
		if !s.Wait(100*time.Second, func() bool { return w.d.done }) {
			return
		}
	}
	if w.nInc >= 60 {
		return
	}
	if old := w.d; old != nil && old.done && !w.full() {
		// a write it had under way when it ended is over before another process starts
		s.Wait(5*time.Second, func() bool { return runtime.SimCount(old.tag) == 0 })
	}
	if w.st != nil && w.d != nil && w.d.killed {
		w.st.Reopen()
	}
	w.nInc++
	d := &apiDaemon{tag: int32(w.nInc), startAt: s.Now(), baseTip: w.tipH()}
	if w.pg != nil {
		d.fails = w.pg.fails + w.pg.nextSess
	}
	w.d = d
	s.Ev("start daemon %d at height %d", d.tag, d.baseTip)
	s.Probe("api.start")
	http.DefaultTransport = http.DefaultTransport.(*http.Transport).Clone()
	http.DefaultClient = &http.Client{}
	if w.full() {
		s.Go(d.tag, func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(*log.Entry); ok { // log.Panicf: a deliberate end
						d.err = fmt.Errorf("%s", e.Message)
					} else {
						panic(r)
					}
				}
				w.exited(d)
			}()
			theDaemonMain()
		})
		return
	}
	s.Go(d.tag, func() {
		ctx, cancel := context.WithCancel(context.Background())
		d.cancel = cancel
		srv, err := neutrinodws.NewElementsNeutrinoServer(
			node.NodeConfig{Network: "regtest", UserAgent: "neutrino-elements:sim", FiltersDB: w.st.Filters(), BlockHeadersDB: w.st.Headers()},
			blockservice.NewEsploraBlockService("http://"+apiExp), apiPeer, apiAddr)
		if err != nil {
			s.Fail("C16", "new", "NewElementsNeutrinoServer: %v", err)
			w.exited(d)
			return
		}
		for err := range srv.Start(ctx, cancel) {
			d.err = err
		}
		w.exited(d)
	})
	time.Sleep(time.Millisecond)
}

// exited is called when the daemon has ended by itself.
func (w *apiWorld) exited(d *apiDaemon) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	s := w.s
	d.done, d.doneAt = true, s.Now()
	s.Ev("daemon %d has ended: %v", d.tag, d.err)
	if !d.stopping && d.listenAt > 0 {
		w.lost("daemon-ended", "the daemon ends by itself: %v", d.err)
		s.Fail("C08", "daemon-ended", "the daemon ends by itself: %v", d.err)
	}
	if d.stopping && d.listenAt > 0 && d.err != nil {
		s.Fail("C16", "stop-error", "told to stop while it serves, the daemon ends with an error (a panic of the process): %v", d.err)
	}
	if !d.stopping {
		s.Probe("api.start-failed")
	}
	w.over()
	if w.full() { // the process is gone
		w.reap <- d.tag // by a task of another process
		runtime.SimKill(d.tag)
	}
}

// over ends every subscription: the daemon is stopping or gone.  While it is
// stopping its webhooks may still receive events, also of new blocks.
func (w *apiWorld) over() {
	for _, c := range w.clients {
		c.over = true
	}
	for _, h := range w.hooks {
		if d := w.d; d.done || d.killed {
			h.clear()
		}
		h.void++
		h.maybe = nil
		h.wild = h.wild || h.busy // which daemon gets the request is open
	}
}

func (w *apiWorld) stop() {
	s, d := w.s, w.d
	if d == nil || d.done || d.killed || d.stopping {
		return
	}
	d.stopping, d.stopAt = true, s.Now()
	w.over()
	s.Ev("stop daemon %d", d.tag)
	switch {
	case d.listenAt > 0:
		s.Probe("api.stop-serving")
	case d.startAt == s.Now():
		s.Probe("api.stop-at-once")
	default:
		s.Probe("api.stop-syncing")
	}
	go w.stopping(d)
}

func (w *apiWorld) stopping(d *apiDaemon) {
	s := w.s
	if w.full() {
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[s.Seed%3]
		// before the handler is installed a signal simply ends the process
		if len(s.sigs[d.tag]) == 0 {
			s.Probe("api.signal-early")
			w.signalled++
			d.killed = true
			w.over()
			runtime.SimKill(d.tag)
			s.Net.KillTag(d.tag)
			return
		}
		s.Signal(d.tag, sig)
	} else {
		s.Call(d.tag, 10*time.Second, func() {
			if d.cancel != nil {
				d.cancel()
			}
		})
	}
	bound := 90 * time.Second
	if !s.Wait(bound, func() bool { return d.done || d.killed }) {
		s.Fail("C16", "daemon-stop-hang", "the daemon has not ended %v after it was told to", bound)
		d.killed = true
		return
	}
	if d.killed {
		return
	}
	s.Count("api.stop.ms", int((d.doneAt-d.stopAt)/time.Millisecond))
	if w.full() {
		return
	}
	// connections kept alive by net/http's client end after 90 s at most
	grace := 120 * time.Second
	if !s.Wait(grace, func() bool { return s.Net.OpenConns(d.tag, "") == 0 }) {
		s.Fail("C16", "daemon-conn-after-stop", "%d connections are still open %v after the daemon has ended", s.Net.OpenConns(d.tag, ""), grace)
	}
	if !s.Wait(grace, func() bool { return runtime.SimCount(d.tag) == 0 }) {
		s.Fail("C16", "daemon-running-after-stop", "%d goroutines of the daemon still run %v after it has ended: %s", runtime.SimCount(d.tag), grace, stacksOf(d.tag))
	}
	w.st.closedTag[d.tag] = true
}

func (w *apiWorld) kill() {
	s, d := w.s, w.d
	if d == nil || d.done || d.killed || d.stopping || d.listenAt == 0 {
		return
	}
	d.killed = true
	w.over()
	s.Fault("crash")
	s.Ev("crash of daemon %d", d.tag)
	runtime.SimKill(d.tag)
	s.Net.KillTag(d.tag)
	if w.st != nil {
		w.st.Reopen()
	}
}

func (w *apiWorld) mine(n int) {
	for i := 0; i < n; i++ {
		w.note(w.chain.Mine())
	}
	w.peer.Announce(n)
}

func (w *apiWorld) op(o Op) {
	s := w.s
	dur := time.Duration(o.B) * time.Millisecond
	switch o.Kind {
	case "mine":
		w.mine(o.A)
	case "ws":
		w.slots[o.A] = w.connect()
	case "reg", "unreg", "burst", "badreq", "close", "cstall":
		if c := w.slots[o.A]; c != nil {
			o := o
			c.q <- func() { c.do(o) }
		}
	case "hreg", "hunreg", "hbad":
		h := w.hooks[o.A]
		o := o
		h.q <- func() { h.do(o) }
	case "hrace":
		h := w.hooks[nHooks]
		o := o
		h.q <- func() { h.race(o) }
	case "react":
		if c := w.slots[o.A]; c != nil {
			c.react = apiReact{o.B, o.C}
		}
	case "hreact":
		w.hooks[o.A].react = apiReact{o.B, o.C}
	case "hookbad":
		w.rogues++
		w.hooks[o.A].spoil(o.B, time.Duration(o.C)*time.Millisecond)
	case "rogue":
		go w.rogue(o)
	case "exfail":
		w.ex.FailPM, w.ex.Kinds = o.A, o.C
		w.ex.FailTill = s.Now() + dur
	case "nopeer":
		s.Net.Refuse(apiPeer, dur)
	case "exrefuse":
		s.Net.Refuse(apiExp, dur)
		s.Net.ResetAll(apiExp, true)
	case "drop":
		w.peer.cfg.DropPct = o.A
		w.peer.cfg.DropUntil = s.Now() + dur
	case "dbfail":
		if w.st != nil {
			w.st.FailPM = o.A
			w.st.FailUntil = s.Now() + dur
		} else if w.up() {
			w.pg.FailPM = minInt(o.A, 100)
			w.pg.FailFrom, w.pg.FailUntil = s.Now(), s.Now()+dur
		}
	case "spent":
		w.spent()
	case "pgcrash":
		if w.pg != nil && w.up() {
			w.pg.Crash(time.Duration(o.A) * time.Millisecond)
		}
	case "kill":
		w.kill()
	case "stop":
		w.stop()
	case "start":
		w.start()
		if n := w.p.C("pgfail"); n > 0 && w.pg.FailUntil == 0 {
			go func() {
				s.Wait(100*time.Second, w.up)
				w.pg.FailPM = n
				w.pg.FailFrom, w.pg.FailUntil = s.Now(), w.p.D("end")
			}()
		}
	default:
		s.err = "unknown operation " + o.Kind
	}
}

// spent registers for spent outputs and has some spent.
func (w *apiWorld) spent() {
	s := w.s
	conn := w.dial(60 * time.Second)
	if conn == nil {
		return
	}
	defer conn.Close()
	answer := make(chan bool, 1)
	events := 0
	go func() {
		for {
			_, m, err := conn.ReadMessage()
			if err != nil {
				return
			}
			var x map[string]interface{}
			json.Unmarshal(m, &x)
			switch {
			case x["eventType"] == "spentUtxo":
				events++
			case x["message"] != nil:
				answer <- true
			case x["errorMessage"] != nil:
				answer <- false
			}
		}
	}()
	r := NewRng(s.Seed, "spent")
	conn.WriteMessage(websocket.TextMessage, []byte(strings.ReplaceAll(w.body(r, w.fields(r, "register", "", 0, 0)), "unspentUtxo", "spentUtxo")))
	if !<-answer {
		return
	}
	ours := map[string]bool{}
	for _, sc := range w.tg.Desc[0] {
		ours[string(sc)] = true
	}
	outs := map[string]bool{}
	spends := 0
	for i := 0; i < 40 && spends == 0; i++ {
		w.mine(1)
		b := w.chain.Blocks[w.chain.Height()]
		for _, tx := range b.Txs {
			for _, in := range tx.Inputs {
				if outs[fmt.Sprintf("%x:%d", in.Hash, in.Index)] {
					spends++
				}
			}
			for j, o := range tx.Outputs {
				if ours[string(o.Script)] {
					h := tx.TxHash()
					outs[fmt.Sprintf("%x:%d", h[:], j)] = true
				}
			}
		}
	}
	time.Sleep(200 * time.Second)
	if spends > 0 && events == 0 {
		s.Fail("C09", "spent-never", "a registration for spentUtxo is confirmed, %d outputs of the descriptor are spent afterwards, and no event is sent", spends)
	}
	s.Probe("api.spent")
}

// --- websocket subscribers ------------------------------------------------------------

type apiReq struct {
	kind int // 0 register, 1 unregister, 2 anything invalid
	body string
	reg  *apiReg
	at   time.Duration
}

type apiClient struct {
	w       *apiWorld
	id      int
	inc     *apiDaemon
	conn    *websocket.Conn
	q       chan func()
	reqs    []*apiReq // without answer yet
	seg     *apiSeg
	open    bool
	over    bool // the daemon was stopped or killed, or this end has closed the connection
	failed  bool
	n       int
	react   apiReact
	stallTo time.Duration // it reads nothing until then
}

// apiReact answers the n-th event from now with a request, while further
// events are on their way.
type apiReact struct{ n, seed int }

func (a *apiReact) hit(send func(Op)) {
	if a.n == 0 {
		return
	}
	if a.n--; a.n > 0 {
		return
	}
	send(Op{Kind: "unreg", B: a.seed})
	if a.seed%3 == 0 {
		send(Op{Kind: "reg", B: a.seed})
	}
}

func (w *apiWorld) dial(wait time.Duration) *websocket.Conn {
	s := w.s
	end := s.Now() + wait
	for {
		d := websocket.Dialer{HandshakeTimeout: 45 * time.Second, NetDial: net.Dial}
		c, resp, err := d.Dial("ws://"+apiAddr+"/neutrino/subscribe/ws", nil)
		if err == nil {
			return c
		}
		if resp != nil {
			s.Ev("handshake: %v %d", err, resp.StatusCode)
		}
		if s.Now() >= end {
			return nil
		}
		time.Sleep(200 * time.Millisecond)
	}
}

// connect opens a connection as a subscriber that behaves.
func (w *apiWorld) connect() *apiClient {
	c := &apiClient{w: w, id: len(w.clients), q: make(chan func(), 200), seg: newSeg()}
	w.clients = append(w.clients, c)
	go func() {
		conn := w.dial(w.p.D("end"))
		d := w.d
		if conn == nil {
			c.over = true
		} else {
			w.s.Ev("client %d connected", c.id)
			w.s.Probe("api.ws")
			c.conn, c.open, c.inc = conn, true, d
			if !w.up() {
				c.over = true
			}
			go c.reader()
		}
		for f := range c.q {
			f()
		}
	}()
	return c
}

func (c *apiClient) healthy() bool { return c.open && !c.over && !c.failed }

func (c *apiClient) String() string { return fmt.Sprintf("client %d", c.id) }

func (c *apiClient) reader() {
	w, s := c.w, c.w.s
	for {
		for s.Now() < c.stallTo && !w.settling {
			time.Sleep(100 * time.Millisecond)
		}
		_, m, err := c.conn.ReadMessage()
		if err != nil {
			d := c.inc
			if c.stallTo > 0 { // it was too slow, and it is told so
				s.Probe("api.stalled-dropped")
			} else if c.healthy() && !d.stopping && !d.killed && !d.done {
				w.lost("dropped", "the daemon closed the connection of %v, which only sent valid requests or requests to be refused: %v", c, err)
				if len(c.reqs) > 0 {
					s.Fail("C09", "unanswered", "%v got no answer to %s: the daemon closed the connection", c, c.reqs[0].body)
				}
			}
			c.open = false
			c.conn.Close()
			return
		}
		c.message(m)
	}
}

func (c *apiClient) message(m []byte) {
	w, s := c.w, c.w.s
	s.Ev("client %d: rx %s", c.id, m)
	x := map[string]interface{}{}
	if err := json.Unmarshal(m, &x); err != nil {
		s.Fail("C12", "ws-json", "a subscriber received a message that is not JSON: %q", m)
		s.Fail("C07", "json", "a subscriber received a message that is not JSON: %q", m)
		return
	}
	_, isMsg := x["message"]
	_, isErr := x["errorMessage"]
	_, isEv := x["txId"]
	switch {
	case isEv && !isMsg && !isErr:
		id, _ := x["txId"].(string)
		if t, _ := x["eventType"].(string); t != "unspentUtxo" {
			s.Fail("C07", "event-type", "%v received an event of type %v that it is not registered for", c, x["eventType"])
		}
		s.Count("events", 1)
		c.seg.got[id]++
		w.checkEvent(c.seg, id, c.String(), false)
		c.react.hit(func(o Op) { c.q <- func() { c.do(o) } })
	case isMsg != isErr && !isEv:
		if len(c.reqs) == 0 {
			s.Fail("C09", "unsolicited", "%v received an answer too many: %s", c, m)
			return
		}
		q := c.reqs[0]
		c.reqs = c.reqs[1:]
		c.answer(q, isMsg, string(m))
	default:
		s.Fail("C09", "shape", "%v received a message that is neither an event nor an answer: %s", c, m)
	}
}

func (w *apiWorld) checkEvent(g *apiSeg, id, who string, hook bool) {
	s := w.s
	h := w.hits[id]
	if h == nil {
		s.Fail("C07", "no-match", "%s received an event for transaction %s, which pays no descriptor", who, id)
		return
	}
	b := w.budget(g, id, false)
	if g.got[id] <= b {
		return
	}
	if hook && g.extra[id] > 0 && (s.Now() < g.until || len(g.regs) > 0) { // a late post
		g.extra[id]--
		g.got[id]--
		return
	}
	if len(g.regs) == 0 {
		s.Fail("C09", "after-unregister", "%s received an event for transaction %s although it has no registration (any more)", who, id)
		s.Fail("C07", "unregistered", "%s received an event for transaction %s although it has no registration (any more)", who, id)
		return
	}
	if b == 0 {
		s.Fail("C07", "misrouted", "%s received an event for transaction %s at height %d, which none of its registrations asks for", who, id, h.h)
		return
	}
	s.Fail("C07", "duplicate", "%s received %d events for transaction %s at height %d instead of %d", who, g.got[id], id, h.h, b)
}

func (c *apiClient) answer(q *apiReq, ok bool, m string) {
	s := c.w.s
	active := false
	for _, r := range c.seg.regs {
		active = active || r.acked
	}
	want := q.kind == 0 || q.kind == 1 && active
	s.Probe(fmt.Sprintf("api.answer.%d.%v", q.kind, ok))
	if ok != want {
		class := "false-success"
		if want {
			class = "false-error"
		}
		if q.kind == 1 {
			class += "-unregister"
		}
		s.Fail("C09", class, "the answer to %s is %s (registered before: %v)", q.body, m, active)
		c.failed = true
		return
	}
	switch {
	case q.kind == 0:
		q.reg.acked = true
	case q.kind == 1 && ok:
		// what was registered by later requests has not been handled yet
		g := newSeg()
		for _, r := range c.seg.regs {
			if !r.acked {
				g.regs = append(g.regs, r)
			}
		}
		c.seg = g
	}
}

func (c *apiClient) send(q *apiReq) {
	s := c.w.s
	if !c.open || c.over {
		return
	}
	q.at = s.Now()
	c.reqs = append(c.reqs, q)
	if q.reg != nil {
		c.seg.regs = append(c.seg.regs, q.reg)
	}
	s.Ev("client %d: tx %s", c.id, strings.ReplaceAll(q.body, "\n", " "))
	c.n++
	if err := c.conn.WriteMessage(websocket.TextMessage, []byte(q.body)); err != nil {
		s.Ev("client %d: write: %v", c.id, err)
	}
}

func (c *apiClient) do(o Op) {
	w, s := c.w, c.w.s
	if !c.open {
		return
	}
	r := NewRng(s.Seed, "client"+itoa(o.B)+o.Kind)
	switch o.Kind {
	case "reg":
		c.send(w.regReq(r, ""))
	case "unreg":
		c.send(w.unregReq(r, ""))
	case "badreq":
		c.send(w.badReq(r, ""))
	case "burst":
		for i := 2 + r.N(6); i > 0; i-- {
			switch r.N(4) {
			case 0, 1:
				c.send(w.regReq(r, ""))
			case 2:
				c.send(w.unregReq(r, ""))
			case 3:
				c.send(w.badReq(r, ""))
			}
			if r.P(20) {
				time.Sleep(time.Duration(r.N(50)) * time.Millisecond)
			}
		}
	case "cstall":
		s.Fault("client.stall")
		w.stalled++
		w.rogues++
		c.stallTo = s.Now() + time.Duration(o.C)*time.Millisecond
	case "close":
		r = NewRng(s.Seed, "close"+itoa(o.C))
		if o.B >= 3 { // with a request under way
			c.send(w.regReq(r, ""))
			time.Sleep(time.Duration(r.Pick(0, 0, 1, 30, 1500)) * time.Millisecond)
		}
		c.over = true
		s.Ev("client %d closes (%d)", c.id, o.B)
		s.Fault("client.disconnect")
		switch o.B {
		case 0:
			c.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
			time.Sleep(100 * time.Millisecond)
			c.conn.Close()
		case 1, 3:
			w.abrupt = true
			c.conn.Close()
		default:
			w.abrupt = true
			c.conn.UnderlyingConn().(*simConn).reset(syscall.ECONNRESET)
		}
	}
}

// --- requests ---------------------------------------------------------------------------

func jstr(v interface{}) string {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return strings.TrimSpace(b.String())
}

// body renders a request in one of the ways JSON allows.
func (w *apiWorld) body(r *Rng, fields [][2]string) string {
	for i := range fields {
		if j := r.N(len(fields)); r.P(20) {
			fields[i], fields[j] = fields[j], fields[i]
		}
	}
	sep, nl := "", ""
	switch r.N(4) {
	case 0:
		sep = " "
	case 1:
		nl = "\n"
	}
	l := []string{}
	for _, f := range fields {
		l = append(l, nl+jstr(f[0])+sep+":"+sep+f[1])
	}
	return nl + "{" + strings.Join(l, ",") + nl + "}" + nl
}

func (w *apiWorld) fields(r *Rng, action, endpoint string, k, start int) [][2]string {
	f := [][2]string{{"actionType", jstr(action)}, {"eventTypes", `["unspentUtxo"]`}, {"descriptorWallet", jstr(descs[k])}, {"startBlockHeight", itoa(start)}}
	if endpoint != "" {
		f = append(f, [2]string{"endpointUrl", jstr(endpoint)})
	}
	return f
}

func (w *apiWorld) regReq(r *Rng, endpoint string) *apiReq {
	tip := int(w.chain.Height())
	start := 0
	switch r.N(7) {
	case 1:
		start = r.In(0, tip)
	case 2:
		start = tip
	case 3:
		start = tip + 1
	case 4:
		start = tip + r.In(2, 6)
	case 5:
		start = r.Pick(1, 2, 1<<31-1)
	}
	k := r.N(len(w.tg.Desc))
	f := w.fields(r, "register", endpoint, k, start)
	if start == 0 && r.P(30) { // the default
		f = append(f[:3], f[4:]...)
	}
	if r.P(10) {
		f = append(f, [2]string{"comment", "null"})
	}
	if r.P(10) {
		for i := range f {
			if f[i][0] == "eventTypes" {
				f[i][1] = `["unspentUtxo","unspentUtxo"]`
			}
		}
	}
	return &apiReq{kind: 0, body: w.body(r, f), reg: &apiReg{k: k, start: start}}
}

func (w *apiWorld) unregReq(r *Rng, endpoint string) *apiReq {
	f := w.fields(r, "unregister", endpoint, r.N(len(w.tg.Desc)), r.N(3))
	if r.P(60) {
		g := f[:1]
		if endpoint != "" {
			g = append(g, f[4])
		}
		f = g
	}
	return &apiReq{kind: 1, body: w.body(r, f)}
}

var badDescs = []string{"", "foo", "elwpkh(", "elwpkh()", "elwpkh(zz)", "elwpkh(]x)", "[", "elwpkh([ffffffff/13'", "elsh(elwpkh(" + "03a34b99f22c790c4e36b2b3c2c35a36db06226e41c692fc82b8b56ac1c540c5bd))",
	"elwpkh(xpub661MyMwAqRbcFFzgbS7PZzrLLXNYmno5FN7aYMceX7HcRgot6DUnPWn8z8C2EAcqiQ9QBmsWkVmhvMjsrwsMexwiqcW1mdyMZDspQqv6SUX/1/*)",
	"elwpkh(03a34b99f22c790c4e36b2b3c2c35a36db06226e41c692fc82b8b56ac1c540)", "pkh(foo)", "\x00", "elwpkh(/*)", "elwpkh(xpub/*)", "elmulti(1,a)", "()", ")("}

// badReq makes a request that has to be refused.
func (w *apiWorld) badReq(r *Rng, endpoint string) *apiReq {
	k := r.N(len(w.tg.Desc))
	f := w.fields(r, "register", endpoint, k, r.N(5))
	set := func(name, v string) {
		for i := range f {
			if f[i][0] == name {
				f[i][1] = v
			}
		}
	}
	drop := func(name string) {
		for i := range f {
			if f[i][0] == name {
				f = append(f[:i], f[i+1:]...)
				return
			}
		}
	}
	switch r.N(14) {
	case 0: // not JSON
		l := []string{"", "{", "hello", "{\"actionType\":", "[1,2", "\x00\x01", "{}}", "{\"actionType\":\"register\"", strings.Repeat("[", 400), "nul", "\"", "{'a':1}"}
		return &apiReq{kind: 2, body: l[r.N(len(l))]}
	case 1: // other JSON
		l := []string{"null", "[]", "1", "\"register\"", "{}", "true", "[{}]", "{\"actionType\":null}"}
		return &apiReq{kind: 2, body: l[r.N(len(l))]}
	case 2:
		set("actionType", jstr([]string{"", "Register", "subscribe", "delete", " register"}[r.N(5)]))
	case 3:
		drop("actionType")
	case 4:
		set("eventTypes", `["`+[]string{"foo", "", "UnspentUtxo", "unspentutxo"}[r.N(4)]+`"]`)
	case 5:
		set("eventTypes", `["unspentUtxo","`+[]string{"foo", "", "spent"}[r.N(3)]+`"]`)
	case 6:
		set("eventTypes", []string{"[]", "null", "\"unspentUtxo\"", "[1]", "{}"}[r.N(5)])
	case 7:
		drop("eventTypes")
	case 8, 9, 10:
		set("descriptorWallet", jstr(badDescs[r.N(len(badDescs))]))
	case 11:
		drop("descriptorWallet")
	case 12:
		set("startBlockHeight", []string{"-1", "-2147483648", "2147483648", "4294967296", "1e30", "1.5", "\"5\"", "[]", "true", "9223372036854775807", "-9223372036854775808"}[r.N(11)])
	case 13: // an unregistration that cannot be understood
		set("actionType", `"unregister"`)
		set("eventTypes", `["nothing"]`)
	}
	return &apiReq{kind: 2, body: w.body(r, f)}
}

// --- webhooks -----------------------------------------------------------------------------

type apiHook struct {
	w       *apiWorld
	i       int
	host    string
	path    string
	seg     *apiSeg
	q       chan func()
	rng     *Rng
	void    int // the daemon it talked to is gone
	busy    bool
	forever bool // it never recovers
	wild    bool
	badK    int
	badTo   time.Duration
	lossy   bool // events may have been lost on the way
	cutAt   time.Duration
	react   apiReact
	said    string // the last answer
	maybe   *apiReg
	maybeH  uint32
}

const (
	hookOK = iota
	hook500
	hookHang
	hookReset
	hookSlow
	hookRefuse
	hookBlackhole
	hookLoop
	nHookBad
)

// hookPath gives the endpoints of a run URLs that differ in little.
func hookPath(seed uint64, i int) string {
	switch NewRng(seed, "hookurls").N(5) {
	case 0:
		return "/hook?id=" + itoa(i)
	case 1:
		return "/hook?to=a&id=" + itoa(i) + "&x=%2F"
	case 2: // upper and lower case
		b := []byte("/abcd")
		for k := 0; k < 4; k++ {
			if i&(1<<uint(k)) != 0 {
				b[k+1] -= 32
			}
		}
		return string(b)
	case 3:
		return "/" + strings.Repeat("hook/", i)
	}
	return "/hook/" + itoa(i)
}

func (h *apiHook) url() string { return "http://" + h.host + h.path }

func (h *apiHook) queue() {
	for f := range h.q {
		f()
	}
}

// clear ends the registrations; posts under way may still arrive.
func (h *apiHook) clear() {
	g := newSeg()
	g.until = h.w.s.Now() + hookLate
	for _, id := range h.w.hitList {
		if n := h.w.budget(h.seg, id, false) - h.seg.got[id]; n > 0 {
			g.extra[id] = n
		}
		if h.w.s.Now() < h.seg.until && h.seg.extra[id] > 0 {
			g.extra[id] += h.seg.extra[id]
		}
	}
	h.seg = g
}

// spoil makes the endpoint, and with it the host, misbehave for a while.
func (h *apiHook) spoil(kind int, d time.Duration) {
	w, s := h.w, h.w.s
	h.lossy = true
	h.badK, h.badTo = kind, s.Now()+d
	if d > 10*time.Hour*24 {
		h.forever, h.wild = true, true
	}
	s.Fault("webhook." + itoa(kind))
	switch kind {
	case hookRefuse, hookBlackhole:
		for _, x := range w.hooks { // all endpoints of the host
			if x.host == h.host {
				x.lossy = true
				x.cutAt = s.Now() + 1
			}
		}
		if kind == hookRefuse {
			s.Net.Refuse(h.host, d)
			s.Net.ResetAll(h.host, true)
		} else {
			s.Net.Blackhole(h.host, d)
		}
	case hookLoop:
		h.wild = true
	}
}

func (w *apiWorld) hookHandler(rw http.ResponseWriter, r *http.Request) {
	s := w.s
	var h *apiHook
	for _, x := range w.hooks {
		if x.path == r.URL.RequestURI() && x.host == r.Host {
			h = x
		}
	}
	body, err := io.ReadAll(r.Body)
	if h == nil {
		s.Fail("C07", "hook-url", "a webhook request for %s%s, which nobody registered", r.Host, r.URL.RequestURI())
		return
	}
	if err != nil {
		s.Ev("hook %d: %v", h.i, err)
		return
	}
	s.Ev("hook %d: rx %s", h.i, body)
	if d := w.d; d != nil && d.done && s.Now()-d.doneAt > 20*time.Second && !h.wild {
		s.Fail("C16", "post-after-stop", "a webhook is called %v after the daemon has ended", s.Now()-d.doneAt)
	}
	x := map[string]interface{}{}
	if err := json.Unmarshal(body, &x); err != nil || r.Method != "POST" {
		if !h.wild {
			s.Fail("C07", "hook-json", "a webhook received %s %q", r.Method, body)
		}
		return
	}
	id, _ := x["txId"].(string)
	if t, _ := x["eventType"].(string); t != "unspentUtxo" || id == "" {
		s.Fail("C07", "event-type", "webhook %d received %s", h.i, body)
		return
	}
	s.Count("hook-events", 1)
	if !h.wild {
		h.seg.got[id]++
		w.checkEvent(h.seg, id, fmt.Sprintf("webhook %d", h.i), true)
		h.react.hit(func(o Op) {
			o.Kind = "h" + o.Kind
			h.q <- func() { h.do(o) }
		})
	}
	if s.Now() < h.badTo {
		switch h.badK {
		case hook500:
			http.Error(rw, "no", 500)
			return
		case hookHang:
			h.hung(r)
			return
		case hookSlow:
			time.Sleep(time.Duration(1+h.rng.N(12)) * time.Second)
		case hookReset:
			if hj, ok := rw.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					c.(*simConn).reset(syscall.ECONNRESET)
				}
			}
			return
		case hookLoop:
			http.Redirect(rw, r, h.url(), http.StatusTemporaryRedirect)
			return
		}
	}
	rw.WriteHeader([]int{200, 200, 204, 201}[h.rng.N(4)])
}

// hung leaves a request without an answer: the daemon must not hold on to it for ever.
func (h *apiHook) hung(r *http.Request) {
	w, s := h.w, h.w.s
	d := w.d
	w.hung++
	t := time.NewTimer(heldBound)
	defer t.Stop()
	select {
	case <-r.Context().Done():
		w.hung--
		return
	case <-t.C:
		w.hung--
	}
	cut := false // it may have given up and the news been lost
	for _, x := range w.hooks {
		cut = cut || x.host == h.host && x.cutAt > 0
	}
	if d != nil && d == w.d && !d.stopping && !d.killed && !d.done && !cut {
		s.Fail("C08", "held", "%v after it was sent, the daemon still waits for the answer to a request to a webhook that does not answer: with every event for it one more is held for ever", heldBound)
	}
	time.Sleep(1000 * time.Second)
}

const heldBound = 150 * time.Second

func (h *apiHook) do(o Op) {
	w, s := h.w, h.w.s
	r := NewRng(s.Seed, "hook"+itoa(o.B)+o.Kind)
	if !w.up() {
		if o.Kind == "hreg" && !w.settling { // as soon as possible
			if !s.Wait(w.p.D("end"), w.up) {
				return
			}
		} else {
			return
		}
	}
	void := h.void
	h.busy = true
	defer func() { h.busy = false }()
	var q *apiReq
	switch o.Kind {
	case "hreg":
		q = w.regReq(r, h.url())
		h.seg.regs = append(h.seg.regs, q.reg)
	case "hunreg":
		q = w.unregReq(r, h.url())
	case "hbad":
		q = w.badReq(r, h.url())
		if r.P(15) {
			q = w.regReq(r, "")
			q.kind, q.reg = 2, nil
		}
	}
	active := false
	for _, x := range h.seg.regs {
		active = active || x.acked
	}
	ok, fine := h.ask(q, r.P(50))
	if h.void != void || !w.up() {
		if q.reg != nil && h.void == void {
			h.seg.regs = h.seg.regs[:len(h.seg.regs)-1]
		}
		return
	}
	if !fine {
		return
	}
	want := q.kind == 0 || q.kind == 1 && active
	s.Probe(fmt.Sprintf("api.http.%d.%v", q.kind, ok))
	if ok != want {
		if h.wild {
			return
		}
		class := "http-false-success"
		if want {
			class = "http-false-error"
		}
		s.Fail("C09", class, "the answer to %s is %s (registered before: %v)", q.body, h.said, active)
		h.wild = true
		return
	}
	switch {
	case q.kind == 0:
		q.reg.acked = true
	case q.kind == 1 && ok:
		h.clear()
	}
}

// ask sends a request and reads the answer.
func (h *apiHook) ask(q *apiReq, noKeep bool) (ok, fine bool) {
	w, s := h.w, h.w.s
	void := h.void
	s.Ev("hook %d: tx %s", h.i, strings.ReplaceAll(q.body, "\n", " "))
	cl := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: noKeep}}
	defer cl.CloseIdleConnections()
	resp, err := cl.Post("http://"+apiAddr+"/neutrino/subscribe/http", "application/json", strings.NewReader(q.body))
	status := 0
	var b []byte
	if err == nil {
		status = resp.StatusCode
		b, err = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	if h.void != void || !w.up() {
		return
	}
	if err != nil {
		s.Fail("C09", "http-unanswered", "no answer to the request %s: %v", q.body, err)
		w.lost("http-unanswered", "no answer to the request %s: %v", q.body, err)
		return
	}
	s.Ev("hook %d: answer %d %s", h.i, status, b)
	h.said = fmt.Sprintf("%d %s", status, b)
	x := map[string]interface{}{}
	jerr := json.Unmarshal(b, &x)
	_, isMsg := x["message"]
	_, isErr := x["errorMessage"]
	ok = status/100 == 2 && jerr == nil && isMsg && !isErr
	if !ok && status < 400 && !(jerr == nil && isErr && !isMsg) {
		s.Fail("C09", "http-shape", "the answer to %s is %d %q", q.body, status, b)
		return
	}
	if status >= 500 {
		s.Fail("C09", "http-5xx", "the answer to %s is %d %q", q.body, status, b)
	}
	return ok, true
}

// race has one endpoint registered and unregistered at the same moment, perhaps
// while it is registered already.  Either order may be what happened.
func (h *apiHook) race(o Op) {
	w, s := h.w, h.w.s
	r := NewRng(s.Seed, "race"+itoa(o.B))
	if !w.up() && !s.Wait(w.p.D("end"), w.up) {
		return
	}
	if h.maybe != nil || h.wild {
		return
	}
	before := false
	for _, x := range h.seg.regs {
		before = before || x.acked
	}
	if !before && r.P(70) {
		h.do(Op{Kind: "hreg", B: o.B})
		before = len(h.seg.regs) > 0
	}
	void := h.void
	if !w.up() || h.wild {
		return
	}
	h.busy = true
	defer func() { h.busy = false }()
	reg, unreg := w.regReq(r, h.url()), w.unregReq(r, h.url())
	h.seg.regs = append(h.seg.regs, reg.reg)
	n, regOK, unregOK, fine := 0, false, false, true
	lag := []time.Duration{0, time.Duration(r.N(3000)) * time.Microsecond}
	if r.P(50) {
		lag[0], lag[1] = lag[1], lag[0]
	}
	s.Probe("api.race")
	for i, q := range []*apiReq{reg, unreg} {
		i, q := i, q
		go func() {
			time.Sleep(lag[i])
			ok, f := h.ask(q, true)
			fine = fine && f
			if i == 0 {
				regOK = ok
			} else {
				unregOK = ok
			}
			n++
		}()
	}
	s.Wait(200*time.Second, func() bool { return n == 2 })
	if h.void != void || !w.up() || !fine || n < 2 {
		h.wild = h.wild || h.void == void
		return
	}
	if !regOK {
		s.Fail("C09", "http-false-error", "a registration, sent at the same moment as an unregistration of the same endpoint, is refused: %s", h.said)
		h.wild = true
		return
	}
	switch {
	case !unregOK && before:
		s.Fail("C09", "http-false-error-unregister", "an unregistration of a registered endpoint, sent at the same moment as another registration of it, is refused: %s", h.said)
		h.wild = true
	case !unregOK:
		reg.reg.acked = true
		s.Probe("api.race.first")
	default:
		h.clear()
		h.seg.regs = []*apiReg{reg.reg}
		h.maybe, h.maybeH = reg.reg, w.chain.Height()
		s.Probe("api.race.maybe")
	}
}

// decide finds out what a race led to: if the registration is there, so must be its events.
func (h *apiHook) decide() {
	w, s := h.w, h.w.s
	if h.maybe == nil || h.wild || !w.up() {
		return
	}
	void := h.void
	reg := h.maybe
	hits := map[string]*txHit{}
	for id, x := range w.hits {
		if x.h > h.maybeH && int(x.h) >= reg.start && x.n[reg.k] > 0 {
			hits[id] = x
		}
	}
	owed := func() (n int) {
		for id, x := range hits {
			n += maxInt(0, x.n[reg.k]-h.seg.got[id])
		}
		return
	}
	got := func() (n int) {
		for id := range hits {
			n += h.seg.got[id]
		}
		return
	}
	s.Wait(120*time.Second, func() bool { return owed() == 0 })
	left, came := owed(), got()
	ok, fine := h.ask(w.unregReq(NewRng(s.Seed, "decide"), h.url()), true)
	if !fine || h.void != void || !w.up() {
		return
	}
	s.Probe(fmt.Sprintf("api.race.%v.%d", ok, minInt(1, came)))
	if ok && left > 0 {
		s.Fail("C07", "lost", "a webhook registered and unregistered at the same moment is still registered, and has not received %d events", left)
	}
	if !ok && came > 0 {
		s.Fail("C09", "http-false-error-unregister", "a webhook that goes on receiving events is not registered: %s", h.said)
	}
	h.clear()
	h.maybe = nil
}

// --- misbehaving clients ----------------------------------------------------------------------

const (
	rgStall       = iota // registers and never reads
	rgFlood              // sends requests and never reads the answers
	rgOversize           // sends a message that is too large
	rgBinary             // binary frames
	rgGarbage            // bytes that are no HTTP
	rgPartial            // half an HTTP request
	rgNoHandshake        // a websocket request without the necessary headers, or a wrong one
	rgFrame              // frames that violate the websocket protocol
	rgCut                // breaks off within a frame
	rgFragment           // never finishes a fragmented message
	rgPing               // many pings
	rgHalfBody           // a POST whose body never ends
	rgBigBody            // a large or deeply nested POST
	rgOddHttp            // other methods and paths
	rgOddURL             // a webhook with an absurd URL
	rgEndless            // a request that does not end
	rgRefused            // a webhook nobody listens for
	rgChurn              // connects and disconnects all the time
	rgClose              // odd close frames
	rgHuge               // a websocket message without end
	nRogue
)

func (w *apiWorld) rogue(o Op) {
	s := w.s
	if !s.Wait(w.p.D("end"), w.up) || w.settling {
		return
	}
	w.rogues++
	s.Fault("rogue." + itoa(o.A))
	r := NewRng(s.Seed, "rogue"+itoa(o.B))
	hot := func() string { return w.body(r, w.fields(r, "register", "", r.N(len(w.tg.Desc)), 0)) }
	post := func(body string) {
		cl := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
		resp, err := cl.Post("http://"+apiAddr+"/neutrino/subscribe/http", "application/json", strings.NewReader(body))
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	}
	raw := func(data string, hold time.Duration) {
		c, err := net.Dial("tcp", apiAddr)
		if err != nil {
			return
		}
		c.Write([]byte(data))
		time.Sleep(hold)
		if r.P(50) {
			c.(*simConn).reset(syscall.ECONNRESET)
		}
		c.Close()
	}
	hold := time.Duration(r.Pick(0, 10, 3000, 40000, 1000000)) * time.Millisecond
	switch o.A {
	case rgGarbage:
		raw([]string{"\x00\x00\x00", "\x16\x03\x01\x02\x00\x01\x00", "GET\r\n\r\n", "POST / HTTP/9.9\r\n\r\n", strings.Repeat("A", 5000), "\r\n\r\n\r\n"}[r.N(6)], hold)
		return
	case rgPartial:
		raw("POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nConte"[:5+r.N(50)], hold)
		return
	case rgHalfBody:
		raw("POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"actionType\":", hold)
		return
	case rgNoHandshake:
		raw([]string{
			"GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\n\r\n",
			"GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n",
			"GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 1\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n",
			"GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\nOrigin: http://evil\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n",
			"GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n",
		}[r.N(5)], hold)
		return
	case rgBigBody:
		switch r.N(3) {
		case 0:
			post(strings.Repeat("[", 20000))
		case 1:
			post(`{"actionType":"register","descriptorWallet":"` + strings.Repeat("(", 50000) + `","eventTypes":["unspentUtxo"],"endpointUrl":"http://10.9.9.9:1/"}`)
		case 2:
			post(`{"actionType":"register","eventTypes":["unspentUtxo"` + strings.Repeat(`,"foo"`, 5000) + `],"endpointUrl":"http://10.9.9.9:1/"}`)
		}
		return
	case rgEndless:
		c, err := net.Dial("tcp", apiAddr)
		if err != nil {
			return
		}
		defer c.Close()
		if _, err := c.Write([]byte("POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nContent-Length: 1000000000000\r\n\r\n" + `{"actionType":"register","` + []string{`descriptorWallet":"`, `eventTypes":["`, `endpointUrl":"http://`, `foo":"`}[r.N(4)])); err != nil {
			return
		}
		chunk := []byte(strings.Repeat("a", 1<<16))
		for i := 0; i < 128; i++ {
			c.SetWriteDeadline(time.Now().Add(60 * time.Second))
			if _, err := c.Write(chunk); err != nil {
				return
			}
		}
		s.Fail("C08", "endless-request", "the daemon takes in 8 MB of one request and still reads on: a request without end takes all of its memory")
		return
	case rgOddHttp:
		raw([]string{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "DELETE /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\n\r\n", "GET /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\n\r\n",
			"POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 50\r\n\r\n"}[r.N(6)], hold)
		return
	case rgOddURL:
		u := []string{"::", "foo", "http://", "ftp://10.2.0.1/x", "http://[::1", "/relative", "http://10.2.0.1:99999/", "http://\x00/", "http://nohost.invalid/x", "http://" + apiAddr + "/neutrino/subscribe/http"}[r.N(10)]
		post(w.body(r, w.fields(r, "register", u, r.N(len(w.tg.Desc)), 0)))
		return
	case rgRefused:
		w.body(r, w.fields(r, "register", "", 0, 0))
		for i := 1 + r.N(3); i > 0; i-- {
			post(w.body(r, w.fields(r, "register", "http://10.9.9."+itoa(i)+":1/", r.N(len(w.tg.Desc)), 0)))
		}
		if r.P(50) {
			s.Net.Blackhole("10.9.9.1:1", 1000*time.Second)
		}
		return
	case rgChurn:
		for i := 2 + r.N(5); i > 0; i-- {
			c := w.dial(0)
			if c == nil {
				return
			}
			if r.P(70) {
				c.WriteMessage(websocket.TextMessage, []byte(hot()))
			}
			time.Sleep(time.Duration(r.Pick(0, 0, 1, 5, 100, 1500)) * time.Millisecond)
			if r.P(50) {
				c.UnderlyingConn().(*simConn).reset(syscall.ECONNRESET)
			}
			c.Close()
		}
		return
	}
	c := w.dial(0)
	if c == nil {
		return
	}
	nc := c.UnderlyingConn()
	drain := func() {
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				return
			}
		}
	}
	switch o.A {
	case rgStall:
		w.stalled++
		for i := 1 + r.N(4); i > 0; i-- {
			c.WriteMessage(websocket.TextMessage, []byte(hot()))
		}
	case rgFlood:
		w.stalled++
		c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		for i := 100; i > 0; i-- {
			b := []byte("x")
			if r.P(10) {
				b = []byte(hot())
			}
			if c.WriteMessage(websocket.TextMessage, b) != nil {
				break
			}
		}
	case rgOversize:
		go drain()
		if r.P(60) {
			c.WriteMessage(websocket.TextMessage, []byte(hot()))
			time.Sleep(time.Duration(r.Pick(0, 20, 2000)) * time.Millisecond)
		}
		c.WriteMessage(websocket.TextMessage, []byte(strings.Repeat("x", r.Pick(600, 5000, 100000))))
	case rgBinary:
		go drain()
		c.WriteMessage(websocket.BinaryMessage, []byte(hot()))
		c.WriteMessage(websocket.BinaryMessage, r.Bytes(r.N(400)))
	case rgFrame:
		go drain()
		if r.P(50) {
			c.WriteMessage(websocket.TextMessage, []byte(hot()))
		}
		nc.Write([][]byte{
			{0x81, 0x05, 'h', 'e', 'l', 'l', 'o'},                             // not masked
			{0xf1, 0x85, 1, 2, 3, 4, 5, 6, 7, 8, 9},                           // reserved bits
			{0x81, 0xff, 0x7f, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0}, // enormous
			{0x81, 0xff, 0xff, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0}, // negative
			{0x83, 0x80, 0, 0, 0, 0},                                          // unknown opcode
			{0x80, 0x80, 0, 0, 0, 0},                                          // continuation of nothing
			{0x89, 0xfe, 0x01, 0x00, 0, 0, 0, 0},                              // long control frame
			{0x09, 0x80, 0, 0, 0, 0},                                          // fragmented control frame
			{0x81, 0x82, 0, 0, 0, 0, 0xff, 0xfe},                              // not UTF-8
		}[r.N(9)])
	case rgCut:
		go drain()
		c.WriteMessage(websocket.TextMessage, []byte(hot()))
		f := []byte{0x81, 0xfe, 0x01, 0x00, 1, 2, 3, 4, 5, 6, 7, 8}
		nc.Write(f[:1+r.N(len(f)-1)])
		time.Sleep(time.Duration(r.Pick(0, 20, 3000)) * time.Millisecond)
		if r.P(50) {
			nc.(*simConn).reset(syscall.ECONNRESET)
		}
		nc.Close()
		return
	case rgHuge:
		go drain()
		chunk := []byte(strings.Repeat("a", 1<<16))
		frame := r.P(50)
		if frame {
			nc.Write([]byte{0x81, 0xff, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		}
		for i := 0; i < 128; i++ {
			nc.SetWriteDeadline(time.Now().Add(60 * time.Second))
			if !frame {
				op := byte(0)
				if i == 0 {
					op = 1
				}
				nc.Write([]byte{op, 0xff, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0})
			}
			if _, err := nc.Write(chunk); err != nil {
				c.Close()
				return
			}
		}
		s.Fail("C08", "endless-message", "the daemon takes in 8 MB of one websocket message and still reads on: a message without end takes all of its memory")
	case rgFragment:
		go drain()
		nc.Write([]byte{0x01, 0x81, 0, 0, 0, 0, '{'})
		for i := r.N(40); i > 0; i-- {
			nc.Write([]byte{0x00, 0x81, 0, 0, 0, 0, ' '})
		}
	case rgPing:
		w.stalled++
		c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		c.WriteMessage(websocket.TextMessage, []byte(hot()))
		for i := 200; i > 0; i-- {
			if c.WriteControl(websocket.PingMessage, make([]byte, 100), time.Now().Add(20*time.Second)) != nil {
				break
			}
		}
	case rgClose:
		go drain()
		c.WriteMessage(websocket.TextMessage, []byte(hot()))
		nc.Write([][]byte{{0x88, 0x80, 0, 0, 0, 0}, {0x88, 0x81, 0, 0, 0, 0, 3}, {0x88, 0x82, 0, 0, 0, 0, 0xff, 0xff}, {0x88, 0x84, 0, 0, 0, 0, 3, 0xe8, 0xff, 0xff}}[r.N(4)])
	}
	time.Sleep(hold)
	if r.P(50) {
		nc.(*simConn).reset(syscall.ECONNRESET)
	}
	nc.Close()
}

// --- the end -------------------------------------------------------------------------------------

func (w *apiWorld) heal() {
	s := w.s
	s.Ev("heal")
	if w.st != nil {
		w.st.FailUntil, w.st.HangUntil = 0, 0
	}
	if w.pg != nil {
		w.pg.FailPM, w.pg.FailUntil = 0, 0
		s.Wait(60*time.Second, func() bool { return s.Now() > w.pg.starting })
	}
	w.ex.FailTill = 0
	w.peer.cfg.DropUntil = 0
	w.peer.cfg.NoSync = false
	for _, h := range w.hooks {
		if !h.forever {
			h.badTo = 0
		}
	}
	s.Net.Heal()
}

func (w *apiWorld) settle() {
	s := w.s
	w.settling = true
	w.heal()
	for try := 0; ; try++ {
		w.start()
		bound := 300 * time.Second
		d := w.d
		if !s.Wait(bound, func() bool { return d.listenAt > 0 || d.done || d.killed }) {
			s.Fail("C16", "never-ready", "the daemon does not accept subscriptions %v after its start (%d of %d headers)", bound, w.tipH(), w.chain.Height())
			s.Fail("C03", "daemon-never-ready", "the daemon does not accept subscriptions %v after its start (%d of %d headers)", bound, w.tipH(), w.chain.Height())
			return
		}
		if !d.done && !d.killed {
			break
		}
		if w.dirty() && (w.signalled > 0 || w.pg.fails > 0 || len(w.pg.downs) > 0) { // a migration was cut off, that needs a human
			if w.signalled > 0 {
				s.Fail("C16", "migration-cut-off", "a signal during the first start leaves a database that the daemon refuses from then on (dirty migration)")
			}
			s.Probe("api.dirty-migration")
			return
		}
		if try > 3 {
			s.Fail("C16", "restart", "the daemon does not start: %v", d.err)
			return
		}
		if w.pg != nil {
			s.Wait(60*time.Second, func() bool { return s.Now() > w.pg.starting })
		}
	}
	for _, h := range w.hooks { // what got lost got lost
		if h.lossy {
			h.wild = true
		}
	}
	// a client that only comes now, and what it and the others ask for
	last := w.connect()
	for i := range w.tg.Desc {
		k := i
		last.q <- func() {
			r := NewRng(s.Seed, "last"+itoa(k))
			last.send(&apiReq{kind: 0, body: w.body(r, w.fields(r, "register", "", k, 0)), reg: &apiReg{k: k}})
		}
	}
	w.hooks[0].q <- func() { w.hooks[0].do(Op{Kind: "hreg", B: 77}) }
	for _, c := range w.slots {
		if c != nil {
			c := c
			c.q <- func() { c.do(Op{Kind: "reg", B: 78}) }
		}
	}
	time.Sleep(time.Second)
	w.mine(1)
	bound := 300*time.Second + time.Duration(w.stalled)*25*time.Second
	if !s.Wait(bound, func() bool { return w.pending(nil) == 0 && last.open }) {
		if !last.open {
			w.lost("no-connection", "a new subscriber cannot connect within %v", bound)
		}
		w.pending(func(prop, class, msg string) { w.failPending(prop, class, msg, bound) })
		return
	}
	w.chain.HitPct = 100
	for i := 0; i < 2; i++ {
		w.mine(1)
		time.Sleep(time.Duration(w.rng.N(3000)) * time.Millisecond)
	}
	w.hooks[nHooks].decide()
	for _, h := range w.hooks {
		h := h
		h.q <- func() { h.do(Op{Kind: "hunreg", B: 79}) }
	}
	for _, c := range w.clients {
		if c.healthy() && w.rng.P(30) {
			c := c
			c.q <- func() { c.do(Op{Kind: "unreg", B: 80}) }
		}
	}
	bound = 120*time.Second + time.Duration(w.stalled)*25*time.Second
	if !s.Wait(bound, func() bool { return w.pending(nil) == 0 }) {
		w.pending(func(prop, class, msg string) { w.failPending(prop, class, msg, bound) })
		return
	}
	w.mine(1)
	time.Sleep(30 * time.Second)
	if w.pending(nil) != 0 {
		s.Wait(60*time.Second, func() bool { return w.pending(nil) == 0 })
		w.pending(func(prop, class, msg string) { w.failPending(prop, class, msg, 60*time.Second) })
	}
	if w.full() {
		// a lost filter is asked for again after 45 s at the latest
		s.Wait(100*time.Second, func() bool { return len(w.pg.rows("filter")) >= int(w.chain.Height()) })
		w.verifyPG()
	} else {
		w.st.Verify()
	}
	n := 0
	for _, c := range w.clients {
		n += len(c.seg.got)
	}
	s.State("clients %d events %d height %d", len(w.clients), n, w.chain.Height())
	d := w.d
	s.Wait(heldBound+time.Second, func() bool { return w.hung == 0 })
	if d.done {
		return
	}
	w.stop()
	s.Wait(400*time.Second, func() bool { return d.killed || d.done })
	w.mine(1)
	time.Sleep(30 * time.Second)
	if !w.full() && d.done {
		s.Wait(300*time.Second, func() bool { return w.st.closedTag[d.tag] })
		time.Sleep(time.Second)
	}
}

func (w *apiWorld) failPending(prop, class, msg string, bound time.Duration) {
	if prop == "C07" {
		w.lost(class, "%s, %v after everything became available", msg, bound)
		return
	}
	w.s.Fail(prop, class, "%s, %v after everything became available", msg, bound)
}

// pending counts what healthy subscribers still wait for.
func (w *apiWorld) pending(f func(prop, class, msg string)) (n int) {
	for _, c := range w.clients {
		if !c.healthy() {
			continue
		}
		if len(c.reqs) > 0 {
			n++
			if f != nil {
				f("C09", "unanswered", fmt.Sprintf("%v has no answer to %s", c, c.reqs[0].body))
				w.lost("no-answer", "%v has no answer to %s", c, c.reqs[0].body)
			}
		}
		if k, first := w.owed(c.seg); k > 0 {
			n++
			if f != nil {
				f("C07", "lost", fmt.Sprintf("%v has not received %d events, the first of %s", c, k, first))
			}
		}
	}
	for _, h := range w.hooks {
		if h.wild {
			continue
		}
		if k, first := w.owed(h.seg); k > 0 {
			n++
			if f != nil {
				f("C07", "lost", fmt.Sprintf("webhook %d has not received %d events, the first of %s", h.i, k, first))
			}
		}
		n += len(h.q)
	}
	return
}

// verifyPG compares the database with the chain.
func (w *apiWorld) verifyPG() {
	s := w.s
	hs := w.pg.rows("block_header")
	seen := map[string]bool{}
	for _, r := range hs {
		hash, _ := r[0].(string)
		for h, b := range w.chain.Blocks {
			if h > 0 && b.Hash.String() == hash {
				seen[hash] = true
				if fmt.Sprint(r[1]) != itoa(h) {
					s.Fail("C01", "pg-height", "header %s is stored with height %v instead of %d", hash, r[1], h)
				}
				if b2, ok := r[2].([]byte); !ok || !bytes.Equal(b2, b.Hdr) {
					s.Fail("C01", "pg-content", "header %d is stored with other content than the peer sent", h)
				}
			}
		}
		if !seen[hash] {
			s.Fail("C01", "pg-foreign", "a header is stored that is not of the chain: %s", hash)
		}
	}
	if len(seen) != int(w.chain.Height()) || len(hs) != len(seen) {
		s.Fail("C02", "pg-behind", "%d headers are stored, the chain has %d", len(hs), w.chain.Height())
	}
	if n := len(w.pg.rows("filter")); n < int(w.chain.Height()) {
		s.Fail("C04", "pg-missing", "%d filters are stored, the chain has %d blocks", n, w.chain.Height())
	}
}
