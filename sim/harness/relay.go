package verifsim

import (
	"reflect"
	"time"
	"unsafe"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

// The relay profile of the node scenario: transactions the peers announce or
// push reach the node's own pool and its subscribers, and blocks confirm them.

type relayTx struct {
	tx    *transaction.Transaction
	raw   []byte
	id    string
	sends []relaySend
	mined bool
}

type relaySend struct {
	c  *pconn
	at time.Duration
}

type relaySub struct {
	inc  *Inc
	slow time.Duration
	at   time.Duration // AddSubscriber returned
	evs  map[string][]node.TxEventType
	n    int
	bad  bool
}

type relayState struct {
	txs  map[int]*relayTx
	byID map[string]*relayTx
	list []*relayTx
	subs []*relaySub
}

func (w *World) relayTx(i int) *relayTx {
	r := &w.relay
	if r.txs == nil {
		r.txs, r.byID = map[int]*relayTx{}, map[string]*relayTx{}
	}
	x := r.txs[i]
	if x == nil {
		tx, _ := w.chain.NewTx(false, 1+i%3)
		raw, err := tx.Serialize()
		if err != nil {
			panic(err)
		}
		x = &relayTx{tx: tx, raw: raw, id: tx.TxHash().String()}
		r.txs[i] = x
		r.byID[x.id] = x
		r.list = append(r.list, x)
		w.txRaw[tx.TxHash()] = raw
	}
	return x
}

// sendTx sends a transaction to the node.
func (c *pconn) sendTx(raw []byte, delay time.Duration) {
	w := c.p.w
	for _, x := range w.relay.list {
		if string(x.raw) == string(raw) {
			x.sends = append(x.sends, relaySend{c, c.p.s.Now()})
		}
	}
	c.send("tx", raw, delay)
}

// poolOf is the node's own pool.
func poolOf(n node.NodeService) *node.MemPool {
	v := reflect.ValueOf(n)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || !v.CanAddr() {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(node.MemPool{}) {
			return (*node.MemPool)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if f.Type() == reflect.TypeOf(&node.MemPool{}) {
			return *(**node.MemPool)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

// relaySub subscribes to the pool of the running node.
func (w *World) relaySub(slow time.Duration) {
	s, inc := w.s, w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed {
		return
	}
	pool := poolOf(inc.n)
	if pool == nil {
		s.Probe("relay.no-pool")
		return
	}
	sub := &relaySub{inc: inc, slow: slow, evs: map[string][]node.TxEventType{}}
	var ch <-chan node.TxEvent
	if !s.Call(inc.tag, time.Minute, func() { ch = pool.AddSubscriber("sim" + itoa(len(w.relay.subs))) }) || ch == nil {
		if !inc.stopped && !inc.killed {
			s.Fail("C17", "subscribe-hang", "AddSubscriber does not return")
		}
		return
	}
	sub.at = s.Now()
	w.relay.subs = append(w.relay.subs, sub)
	go func() {
		for ev := range ch {
			w.relayEvent(sub, ev)
			if sub.slow > 0 {
				time.Sleep(sub.slow)
			}
		}
	}()
}

func (w *World) relayEvent(sub *relaySub, ev node.TxEvent) {
	s := w.s
	id, typ := ev.TxID(), ev.Type()
	s.Ev("relay event %v %s", typ, id[:8])
	x := w.relay.byID[id]
	if x == nil {
		for h := range w.txRaw {
			if chainhash.Hash(h).String() == id {
				return // announced by an operation of another kind
			}
		}
		s.Fail("C17", "unknown", "a subscriber of the node's pool is told about transaction %s, which no peer sent", id)
		return
	}
	sub.n++
	l := sub.evs[id]
	sub.evs[id] = append(l, typ)
	switch typ {
	case node.TxUnConfirmed:
		s.Probe("relay.unconfirmed")
		if len(x.sends) == 0 {
			s.Fail("C17", "not-sent", "transaction %s is announced before a peer sent it", id)
		}
		if len(l) > 0 && l[len(l)-1] == typ {
			s.Fail("C17", "twice", "transaction %s is announced twice as unconfirmed by the node's pool", id)
		}
	case node.TxConfirmed:
		s.Probe("relay.confirmed")
		if !x.mined {
			s.Fail("C17", "not-in-block", "transaction %s is announced as confirmed and is in no block", id)
		}
		if len(l) > 0 && l[len(l)-1] == typ {
			s.Fail("C17", "confirmed-twice", "transaction %s is announced twice as confirmed by the node's pool", id)
		}
		if len(l) == 0 && (len(x.sends) == 0 || x.sends[0].at > sub.at+time.Second) {
			s.Fail("C17", "confirmed-first", "transaction %s is announced as confirmed without its unconfirmed announcement", id)
		}
	}
}

// relayCheck runs at the end, when nothing is disturbed any more.
func (w *World) relayCheck() {
	s, inc := w.s, w.inc
	if inc == nil || inc.n == nil || inc.stopped || inc.killed || !inc.returned || inc.err != nil {
		return
	}
	pool := poolOf(inc.n)
	if pool == nil {
		return
	}
	healthy := func(c *pconn) bool {
		return !c.closed && !c.taint && !c.garbage && !c.evil && len(c.outq) == 0 && c.ready() && !c.nodeEndClosed() && c.c.(*simConn).peer.tag == inc.tag
	}
	var in map[string]transaction.Transaction
	look := func() bool {
		return s.Call(inc.tag, time.Minute, func() { in = pool.GetMemPool() })
	}
	if !look() {
		s.Fail("C17", "look-hang", "GetMemPool does not return")
		return
	}
	for id, tx := range in {
		if tx.TxHash().String() != id {
			s.Fail("C17", "content", "the pool holds another transaction under %s", id)
		}
	}
	for _, x := range w.relay.list {
		for _, sub := range w.relay.subs {
			if sub.inc != inc {
				continue
			}
			before := false // it may have been in the pool already
			for _, sd := range x.sends {
				if sc, ok := sd.c.c.(*simConn); ok && sc.peer.tag == inc.tag && sd.at <= sub.at {
					before = true
				}
			}
			for _, sd := range x.sends {
				if !before && healthy(sd.c) && s.Now()-sd.at > 60*time.Second+sub.slow*20 {
					if len(sub.evs[x.id]) == 0 {
						s.Fail("C17", "relay-lost", "transaction %s, received %v ago from peer %s, is not announced to a subscriber", x.id, s.Now()-sd.at, sd.c.p.addr)
					}
					s.Probe("relay.checked")
					break
				}
			}
		}
		if x.mined {
			continue
		}
		for _, sd := range x.sends {
			if healthy(sd.c) && s.Now()-sd.at > 30*time.Second {
				if _, ok := in[x.id]; !ok {
					s.Fail("C17", "relay-pool", "transaction %s, received %v ago from peer %s, is not in the pool", x.id, s.Now()-sd.at, sd.c.p.addr)
				}
				break
			}
		}
	}
	// a block with everything, handed over as a block
	c := w.goodConn()
	if c == nil || !healthy(c) || w.st.TipH() != w.chain.Height() || len(in) == 0 {
		return
	}
	var want []*relayTx
	for _, x := range w.relay.list {
		if _, ok := in[x.id]; ok {
			want = append(want, x)
			x.mined = true
			w.chain.unconf = append(w.chain.unconf, x.tx)
		}
	}
	// and with some that come right before it
	late := map[string]bool{}
	for i := 0; i < len(w.relay.list)%3; i++ {
		x := w.relayTx(1000 + i)
		c.sendTx(x.raw, 0)
		want, late[x.id] = append(want, x), true
		x.mined = true
		w.chain.unconf = append(w.chain.unconf, x.tx)
		s.Probe("relay.late")
	}
	empty := w.chain.EmptyPM
	w.chain.EmptyPM = 0
	for _, p := range w.peers {
		p.cfg.TipLag = 1
	}
	b := w.chain.Mine()
	w.chain.EmptyPM = empty
	s.Ev("relay: block %d with %d transactions", b.Height, len(want))
	c.send("block", b.Raw, 0)
	gone := func() bool {
		if !look() {
			return false
		}
		for _, x := range want {
			if _, ok := in[x.id]; ok {
				return false
			}
		}
		return true
	}
	ok := s.Wait(30*time.Second, func() bool { return w.st.TipH() >= b.Height }) && s.Wait(30*time.Second, gone)
	if !healthy(c) {
		return
	}
	if !ok {
		n := 0
		for _, x := range want {
			if _, o := in[x.id]; o {
				n++
			}
		}
		s.Fail("C17", "relay-confirm", "30 s after a block with %d transactions of the pool was handed over %d of them are still in the pool (tip %d)", len(want), n, w.st.TipH())
	}
	s.Probe("relay.block")
	time.Sleep(10 * time.Second)
	for _, sub := range w.relay.subs {
		if sub.inc != inc || sub.slow > 0 {
			continue
		}
		for _, x := range want {
			l := sub.evs[x.id]
			if late[x.id] && len(l) != 2 {
				s.Fail("C17", "relay-late", "a subscriber gets %d events for transaction %s, sent right before the block with it", len(l), x.id)
			}
			if len(l) == 0 || l[len(l)-1] != node.TxConfirmed {
				s.Fail("C17", "relay-confirmed", "a subscriber is not told that transaction %s is confirmed", x.id)
			}
		}
	}
}
