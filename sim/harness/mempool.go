package verifsim

import (
	"runtime"
	"strconv"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

// The mempool scenario: tasks adding transactions, blocks confirming them,
// subscribers of all speeds, and a stop.

func init() {
	scenarios["pool"] = &scenario{gen: genPool, run: runPool}
}

func genPool(r *Rng, p *Plan) {
	c := p.Cfg
	c["txs"] = r.Pick(1, 2, 5, 12)
	c["adders"] = r.In(1, 4)
	c["subs"] = r.N(4)
	c["end"] = r.Pick(50, 1000, 20_000)
	end := c["end"]
	add := func(at int, k string, a, b, cc int) { p.Ops = append(p.Ops, Op{at, k, a, b, cc}) }
	t := func() int { return r.Pick(r.In(0, end-1), r.In(0, 5)) }
	for i := 0; i < c["txs"]; i++ {
		at := t()
		for k := 1 + r.N(4); k > 0; k-- {
			add(at, "add", i, r.N(6), 0)
			at += r.Pick(0, 0, 0, 1, 100)
		}
	}
	for i := r.N(4); i > 0; i-- {
		at := t()
		if r.P(50) && len(p.Ops) > 0 {
			at = p.Ops[r.N(len(p.Ops))].At + r.Pick(0, 0, 1)
		}
		add(at, "block", int(r.U64()%(1<<20)), r.N(4), 0)
	}
	for i := r.N(4); i > 0; i-- {
		at := t()
		for k := 1 + r.N(3)/2; k > 0; k-- { // often two at once
			add(at, "sub", r.N(4), 0, 0)
		}
	}
	for i := r.N(3); i > 0; i-- {
		add(t(), "look", 0, 0, 0)
	}
	if r.P(30) {
		add(r.Pick(t(), end/2), "stop", r.N(3), 0, 0)
	}
	rm := NewRng(p.Seed, "many") // so many that whoever does not read falls far behind
	if rm.P(4) {
		n := rm.In(120, 400)
		at, per := rm.In(0, end), rm.In(1, 40)
		for i := 0; i < n; i++ {
			add(at+i/per, "add", c["txs"]+i, 0, 0)
		}
		c["txs"] += n
		c["end"] = at + n + 1000
	}
}

type poolTx struct {
	tx    *transaction.Transaction
	id    string
	begun int           // adds started
	done  int           // adds returned
	first time.Duration // start of the first add
	last  time.Duration // return of the last add
	added time.Duration // return of the first add

	blockBegun, blockDone bool
	mixed                 bool // adds ran while the block was handed over
	lateAdd               bool // first add after the block
}

type poolSub struct {
	n      int
	kind   int // 0 fast, 1 slow, 2 stalls for long, 3 never reads
	ch     <-chan node.TxEvent
	asked  time.Duration
	ret    time.Duration
	got    []poolEv
	closed bool
	block  time.Duration
}

type poolEv struct {
	typ  node.TxEventType
	id   string
	at   time.Duration
	pool bool
}

const poolTag = 1

type poolWorld struct {
	s     *Sim
	p     *Plan
	chain *Chain
	pool  node.MemPool
	txs   []*poolTx
	byID  map[string]*poolTx
	subs  []*poolSub

	stopBegun, stopDone bool
	stopAt              time.Duration
	running             int
}

func runPool(s *Sim, p *Plan) {
	w := &poolWorld{s: s, p: p, byID: map[string]*poolTx{}}
	w.chain = NewChain(s.Seed, "regtest")
	for i := 0; i < p.C("txs"); i++ {
		tx, _ := w.chain.NewTx(false, 1)
		x := &poolTx{tx: tx, id: tx.TxHash().String()}
		w.txs = append(w.txs, x)
		w.byID[x.id] = x
	}
	w.pool = node.NewMemPool()
	s.Call(poolTag, time.Minute, func() { w.pool.Start() })
	for i := 0; i < p.C("subs"); i++ {
		w.subscribe(i % 4)
	}
	w.subscribe(0)
	for _, o := range p.Ops {
		if o.At >= p.C("end") {
			break
		}
		s.At(time.Duration(o.At) * time.Millisecond)
		o := o
		s.Ev("op %s %d %d", o.Kind, o.A, o.B)
		switch o.Kind {
		case "add":
			w.run(func() { w.add(o.A) })
		case "block":
			w.run(func() { w.block(o) })
		case "sub":
			w.run(func() { w.subscribe(o.A) })
		case "look":
			w.run(w.look)
		case "stop":
			w.run(w.stop)
			if o.A == 2 {
				w.run(w.stop)
			}
		}
	}
	s.At(p.D("end"))
	if !s.Wait(60*time.Second+10*time.Duration(p.C("stallmax"))*time.Millisecond*20, func() bool { return w.running == 0 }) {
		s.Fail("C17", "blocked", "a call of the mempool does not return while some subscribers do not read")
		return
	}
	w.check()
}

// run runs f concurrently with the rest.
func (w *poolWorld) run(f func()) {
	w.running++
	w.s.Go(poolTag, func() {
		f()
		runtime.SimHold(1)
		w.running--
		runtime.SimHold(-1)
	})
}

func (w *poolWorld) subscribe(kind int) {
	s := w.s
	runtime.SimHold(1)
	q := &poolSub{n: len(w.subs), kind: kind, asked: s.Now()}
	w.subs = append(w.subs, q)
	runtime.SimHold(-1)
	ch := w.pool.AddSubscriber("s" + itoa(q.n))
	runtime.SimHold(1)
	q.ch, q.ret = ch, s.Now()
	s.Ev("subscribed %d", q.n)
	s.Probe("pool.sub" + itoa(kind))
	runtime.SimHold(-1)
	go w.read(q)
}

func (w *poolWorld) read(q *poolSub) {
	s := w.s
	r := NewRng(s.Seed, "reader"+itoa(q.n))
	if q.kind == 3 {
		s.Fault("reader.absent")
		return
	}
	for {
		switch q.kind {
		case 1:
			time.Sleep(time.Duration(r.N(300)) * time.Millisecond)
		case 2:
			s.Fault("reader.stall")
			time.Sleep(time.Duration(r.N(30)) * time.Second)
		}
		e, ok := <-q.ch
		if !ok {
			q.closed = true
			s.Ev("subscription %d ends", q.n)
			return
		}
		if e == nil {
			s.Fail("C17", "nil-event", "a subscriber receives a nil event")
			return
		}
		q.got = append(q.got, poolEv{typ: e.Type(), id: e.TxID(), at: s.Now()})
		s.Ev("subscription %d: %v %s", q.n, e.Type(), e.TxID())
	}
}

func (w *poolWorld) add(i int) {
	s := w.s
	runtime.SimHold(1)
	x := w.txs[i%len(w.txs)]
	if x.blockBegun && x.begun > 0 || w.stopBegun { // not again once it is confirmed
		runtime.SimHold(-1)
		return
	}
	if x.blockBegun {
		if !x.blockDone {
			x.mixed = true
		} else {
			x.lateAdd = true
		}
	}
	if x.begun == 0 {
		x.first = s.Now()
	}
	x.begun++
	runtime.SimHold(-1)
	w.pool.AddTx(protocol.MsgTx{Transaction: *x.tx})
	runtime.SimHold(1)
	x.done++
	x.last = s.Now()
	if x.done == 1 {
		x.added = s.Now()
	}
	if x.blockBegun && !x.lateAdd {
		x.mixed = true
	}
	s.Ev("added %d", i)
	runtime.SimHold(-1)
	s.Probe("pool.add")
}

func (w *poolWorld) block(o Op) {
	s := w.s
	runtime.SimHold(1)
	r := NewRng(s.Seed, "block"+itoa(o.A))
	var in []*poolTx
	var txs []*transaction.Transaction
	for k := 0; k < o.B; k++ { // strangers
		tx, _ := w.chain.NewTx(false, 1)
		txs = append(txs, tx)
	}
	for _, x := range w.txs {
		if x.blockBegun || r.P(40) {
			continue
		}
		x.blockBegun = true
		if x.begun > x.done {
			x.mixed = true
		}
		in = append(in, x)
		txs = append(txs, x.tx)
	}
	for i := range txs {
		j := r.N(i + 1)
		txs[i], txs[j] = txs[j], txs[i]
	}
	runtime.SimHold(-1)
	w.pool.CheckTxConfirmed(block.Block{Header: w.chain.header(w.chain.Tip().Hash, 1), TransactionsData: &block.Transactions{Transactions: txs}})
	runtime.SimHold(1)
	for _, x := range in {
		x.blockDone = true
	}
	s.Ev("block with %d of ours", len(in))
	runtime.SimHold(-1)
	s.Probe("pool.block")
}

// look compares the pool with what it must hold now.
func (w *poolWorld) look() {
	s := w.s
	type st struct{ must, mustNot bool }
	runtime.SimHold(1)
	before := make([]st, len(w.txs))
	for i, x := range w.txs {
		before[i] = st{x.done > 0 && !x.blockBegun && !w.stopBegun, x.begun == 0 || x.blockDone && !x.mixed && !x.lateAdd && x.begun == x.done}
	}
	runtime.SimHold(-1)
	m := w.pool.GetMemPool()
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	for i, x := range w.txs {
		_, ok := m[x.id]
		if !ok && before[i].must && !x.blockBegun {
			s.Fail("C17", "not-in-pool", "transaction %s is not in the pool although it was added and not confirmed", x.id)
		}
		if ok && before[i].mustNot && (x.begun == 0 || x.blockDone && !x.mixed && !x.lateAdd) {
			s.Fail("C17", "in-pool", "transaction %s is in the pool although it was confirmed or never added", x.id)
		}
	}
	for id := range m {
		if w.byID[id] == nil {
			s.Fail("C17", "stranger", "transaction %s is in the pool although nobody added it", id)
		}
	}
}

func (w *poolWorld) stop() {
	s := w.s
	runtime.SimHold(1)
	w.stopBegun = true
	runtime.SimHold(-1)
	w.pool.Stop()
	runtime.SimHold(1)
	w.stopDone = true
	w.stopAt = s.Now()
	s.Ev("stopped")
	runtime.SimHold(-1)
	s.Probe("pool.stop")
}

func (w *poolWorld) check() {
	s := w.s
	stopped := w.stopBegun
	if !stopped {
		// whoever reads fast has everything soon
		time.Sleep(5*time.Second + time.Duration(w.p.C("stallmax"))*time.Millisecond*10)
		w.look()
		ref := w.refSub()
		w.complete(ref)
		for _, q := range w.subs {
			if q.kind == 0 {
				w.suffix(ref, q)
			}
		}
		time.Sleep(time.Duration(len(ref.got)+2) * 31 * time.Second) // the slowest reader has everything
		for _, q := range w.subs {
			if q.kind != 3 {
				w.suffix(ref, q)
			}
		}
	}
	if !s.Call(poolTag, 60*time.Second, w.stop) {
		s.Fail("C17", "stop-hang", "Stop of the mempool does not return")
		return
	}
	time.Sleep(60 * time.Second)
	if !s.Call(poolTag, 60*time.Second, func() { w.subscribe(0) }) {
		s.Fail("C17", "subscribe-after-stop", "AddSubscriber hangs after Stop")
	}
	time.Sleep(60 * time.Second)
	for _, q := range w.subs {
		if q.kind != 3 && !q.closed {
			s.Fail("C17", "not-ended", "a subscription has not ended %v after Stop", s.Now()-w.stopAt)
		}
	}
	if n := runtime.SimCount(poolTag); n != 0 {
		s.Fail("C17", "running-after-stop", "%d goroutines of the mempool run on after Stop: %s", n, stacksOf(poolTag))
	}
	if stopped {
		w.prefixes()
	}
	n := 0
	for _, q := range w.subs {
		n += len(q.got)
	}
	s.State("subs %d events %d txs %d", len(w.subs), n, len(w.txs))
}

// refSub is the fast subscriber that was there from the beginning.
func (w *poolWorld) refSub() *poolSub {
	for _, q := range w.subs {
		if q.n == w.p.C("subs") {
			return q
		}
	}
	return w.subs[len(w.subs)-1]
}

// history checks the events of one transaction: unconfirmed, confirmed, at most once each.
func (w *poolWorld) history(q *poolSub) map[string][]node.TxEventType {
	s := w.s
	h := map[string][]node.TxEventType{}
	for _, e := range q.got {
		x := w.byID[e.id]
		if x == nil || x.begun == 0 {
			s.Fail("C17", "stranger", "an event for transaction %s, which nobody added", e.id)
			continue
		}
		h[e.id] = append(h[e.id], e.typ)
	}
	return h
}

func evs(l []node.TxEventType) string {
	o := ""
	for _, t := range l {
		if t == node.TxConfirmed {
			o += "C"
		} else {
			o += "U"
		}
	}
	return o
}

func (w *poolWorld) complete(q *poolSub) {
	s := w.s
	h := w.history(q)
	m := w.pool.GetMemPool()
	for i, x := range w.txs {
		got := evs(h[x.id])
		_, in := m[x.id]
		var ok bool
		switch {
		case x.begun == 0:
			ok = got == "" && !in
		case x.mixed:
			ok = (got == "U" || got == "UCU") && in || got == "UC" && !in
		case !x.blockBegun || x.lateAdd:
			ok = got == "U" && in
		default:
			ok = got == "UC" && !in
		}
		if !ok {
			s.Fail("C17", "events", "transaction %d (added %d times, in a block: %v, both at once: %v, first added after its block: %v) has the events %q and is in the pool: %v", i, x.begun, x.blockBegun, x.mixed, x.lateAdd, got, in)
		}
	}
}

// suffix checks that a later subscriber sees the same events in the same order
// from some point on, and misses none that happened after it subscribed.
func (w *poolWorld) suffix(ref, q *poolSub) {
	s := w.s
	k := len(ref.got) - len(q.got)
	if k < 0 {
		s.Fail("C17", "more-events", "subscriber %d got %d events, the first one %d", q.n, len(q.got), len(ref.got))
		return
	}
	for i, e := range q.got {
		f := ref.got[k+i]
		if e.id != f.id || e.typ != f.typ {
			s.Fail("C17", "order", "subscribers %d and %d see different events or another order", ref.n, q.n)
			return
		}
	}
	for i := 0; i < k; i++ { // those it missed
		e := ref.got[i]
		x := w.byID[e.id]
		if x != nil && x.first > q.ret {
			s.Fail("C17", "missed", "subscriber %d misses event %d (%s) although the transaction was added after it subscribed", q.n, i, strconv.Itoa(int(e.typ)))
			return
		}
	}
}

// prefixes checks what subscribers got until a stop in the middle.
func (w *poolWorld) prefixes() {
	s := w.s
	for _, q := range w.subs {
		for id, l := range w.history(q) {
			e := evs(l)
			x := w.byID[id]
			late := q.ret > x.first // it may have missed the first event
			if e == "U" || e == "UC" || e == "UCU" && x.mixed || late && (e == "C" || e == "CU") {
				continue
			}
			s.Fail("C17", "events", "before Stop a subscriber got the events %q for a transaction", e)
		}
	}
	// events of two subscribers that both got them come in one order
	for _, a := range w.subs {
		for _, b := range w.subs {
			if a.n >= b.n {
				continue
			}
			pos := map[string]int{}
			for i, e := range b.got {
				pos[e.id+itoa(int(e.typ))] = i + 1
			}
			last := 0
			for _, e := range a.got {
				if x := w.byID[e.id]; x != nil && x.mixed {
					continue
				}
				if p := pos[e.id+itoa(int(e.typ))]; p > 0 {
					if p < last {
						s.Fail("C17", "order", "subscribers %d and %d see events in different orders", a.n, b.n)
						return
					}
					last = p
				}
			}
		}
	}
}
