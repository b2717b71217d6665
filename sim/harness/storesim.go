package verifsim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// Scenario "store": concurrent users of the header and filter repositories,
// in memory or on a simulated PostgreSQL server that fails and restarts, with
// processes that are killed and come back.

const pgAddr = "10.0.9.1:5432"

func migrationDir() string {
	repo := os.Getenv("SIMREPO")
	if repo == "" {
		repo = "/repo"
	}
	return "file://" + repo + "/internal/infrastructure/storage/db/pg/migration"
}

func pgConfig() dbpg.DbConfig {
	return dbpg.DbConfig{DbUser: "root", DbPassword: "secret", DbHost: "10.0.9.1", DbPort: 5432, DbName: "neutrino-elements", MigrationSourceURL: migrationDir()}
}

func init() {
	scenarios["store"] = &scenario{gen: genStore, run: runStore}
}

func genStore(r *Rng, p *Plan) {
	c := p.Cfg
	c["pg"] = 1
	if p.Profile == "mem" {
		c["pg"] = 0
	}
	c["blocks"] = r.Pick(3, 8, 20, 20, 40, 70)
	if r.P(4) {
		c["blocks"] = r.In(150, 400)
	}
	c["forks"] = r.Pick(0, 0, 2, 6)
	c["writers"] = r.In(1, 4)
	c["readers"] = r.In(1, 4)
	c["ops"] = r.In(4, 30)
	c["batch"] = r.Pick(1, 3, 6, 15)
	if c["blocks"] > 100 {
		c["batch"] = r.Pick(20, 60)
		c["ops"] = r.In(3, 8)
	}
	c["order"] = r.Pick(0, 0, 1, 2) // batches in order, anywhere, scrambled
	c["dups"] = r.Pick(0, 20, 50)
	c["pause"] = r.Pick(0, 1, 10, 200)
	c["dblat"] = r.Pick(0, 1, 5, 30)
	c["frag"] = r.Pick(0, 0, 1)
	c["lat"] = r.Pick(1, 1, 5, 20)
	c["svcs"] = r.Pick(1, 1, 2)
	if p.Profile == "mem" {
		c["dblat"], c["frag"], c["lat"], c["svcs"] = 0, 0, 1, 1
	}
	q := NewRng(p.Seed, "long")
	long := q.P(5)
	if long { // few writes of many headers each
		c["blocks"] = q.Pick(130, 250, 400)
		c["batch"] = q.Pick(120, 200, c["blocks"])
		c["ops"] = q.In(2, 4)
		c["writers"], c["readers"] = q.In(1, 2), q.In(1, 2)
		c["dups"] = q.Pick(0, 20)
		c["pause"] = q.Pick(0, 10)
		c["lat"] = 1
		c["dblat"] = 0
	}
	if p.Profile != "pgfault" {
		return
	}
	if long {
		defer func() {
			c["faultend"] = q.Pick(200, 500, 2000)
			c["failpm"] = q.Pick(0, 0, 2)
			p.Ops = nil
			for i, n := 0, q.Pick(0, 1); i < n; i++ {
				p.Ops = append(p.Ops, Op{At: q.In(0, c["faultend"]), Kind: "pgcrash", A: q.Pick(1, 20, 300)})
			}
			for i, n := 0, q.Pick(0, 1, 2); i < n; i++ {
				p.Ops = append(p.Ops, Op{At: q.In(0, c["faultend"]), Kind: "kill", A: q.Pick(0, 5, 100)})
			}
			for i, n := 0, q.Pick(0, 1, 3); i < n; i++ {
				p.Ops = append(p.Ops, Op{At: 0, Kind: "stmt", A: q.In(1, 60+c["batch"]*2), B: q.In(1, pgKinds-1)})
			}
		}()
	}
	c["failpm"] = r.Pick(0, 0, 5, 30, 120)
	if r.P(50) {
		c["kinds"] = 1 << uint(r.In(1, pgKinds-1))
	} else {
		c["kinds"] = 1<<pgKinds - 2
	}
	c["migfault"] = 0
	if r.P(12) {
		c["migfault"] = 1
	}
	est := 40 + c["ops"]*(c["pause"]+c["dblat"]*4+10)
	c["faultend"] = r.In(50, est*3/2)
	for i, n := 0, r.Pick(0, 1, 2, 5); i < n; i++ {
		p.Ops = append(p.Ops, Op{At: r.In(0, c["faultend"]), Kind: "pgcrash", A: r.Pick(1, 20, 300, 3000)})
	}
	for i, n := 0, r.Pick(0, 1, 2); i < n; i++ {
		p.Ops = append(p.Ops, Op{At: r.In(0, c["faultend"]), Kind: "kill", A: r.Pick(0, 5, 100)})
	}
	for i, n := 0, r.Pick(0, 1, 3, 6); i < n; i++ {
		// a failure at an exact statement
		p.Ops = append(p.Ops, Op{At: 0, Kind: "stmt", A: r.In(1, 60+c["ops"]*8), B: r.In(1, pgKinds-1)})
	}
}

const never = int(^uint(0) >> 1)

type stOp struct {
	kind     string
	inv, ret int
	at, end  time.Duration
	blks     []*Blk // written
	want     *Blk   // asked for
	height   uint32
	err      error
	found    *Blk // header found
	yes      bool
	loc      []*Blk
	inc      int
	fault    bool // a failure could have hit it
}

func (o *stOp) String() string {
	s := o.kind
	if o.want != nil {
		s += fmt.Sprintf(" of block %d (%v)", o.want.Height, o.want.Hash.String()[:8])
	}
	if o.kind == "hash-at" {
		s += fmt.Sprintf(" %d", o.height)
	}
	if o.kind == "write" {
		s += " ["
		for i, b := range o.blks {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprintf("%d", b.Height)
			if b.Invalid {
				s += "'"
			}
		}
		s += "]"
	}
	return s
}

type stWorld struct {
	s     *Sim
	p     *Plan
	chain *Chain
	all   []*Blk // with the forks
	by    map[chainhash.Hash]*Blk
	pg    *PG
	mem   bool
	hist  []*stOp
	clock int
	inc   int
	svcs  []*dbpg.DbService
	mh    repository.BlockHeaderRepository
	mf    repository.FilterRepository
	busy  map[int]int // running workers per incarnation
	front int
	kills int
	dirty bool
	acked []*Blk // filters whose write was acknowledged
	other int
}

// both reports a failure that is one for the store of record and for the model.
func (w *stWorld) both(class, format string, args ...interface{}) {
	w.s.Fail("C15", class, format, args...)
	if !w.mem {
		w.s.Fail("C14", class, format, args...)
	}
}

func runStore(s *Sim, p *Plan) {
	w := &stWorld{s: s, p: p, chain: NewChain(s.Seed, "regtest"), by: map[chainhash.Hash]*Blk{}, busy: map[int]int{}, mem: p.C("pg") == 0}
	w.chain.MaxTxs, w.chain.BigPct = 1, 0
	w.chain.MineN(p.C("blocks"))
	w.all = append(w.all, w.chain.Blocks[1:]...)
	r := NewRng(s.Seed, "store/forks")
	for i := 0; i < p.C("forks"); i++ {
		h := r.In(1, p.C("blocks"))
		f := w.chain.Fork(w.chain.Blocks[h-1].Hash, uint32(h))
		w.all = append(w.all, f)
		w.chain.byHash[f.Hash] = f
	}
	for _, b := range w.all {
		w.by[b.Hash] = b
	}
	lk := Link{LatMin: 20 * time.Microsecond, LatMax: time.Duration(p.C("lat"))*time.Millisecond + 20*time.Microsecond, Window: 1 << 16, Coalesce: 50, Frag: p.C("frag")}
	s.Net.Links[pgAddr] = &lk
	if w.mem {
		w.mh, w.mf = inmemory.NewHeaderInmemory(), inmemory.NewFilterInmemory()
	} else {
		w.pg = NewPG(s, pgAddr)
		w.pg.LatMax = p.D("dblat")
		w.pg.Start()
		w.pg.FailPM = p.C("failpm")
		for k := 1; k < pgKinds; k++ {
			if p.C("kinds")&(1<<uint(k)) != 0 {
				w.pg.Kinds = append(w.pg.Kinds, k)
			}
		}
	}
	s.Net.hosts[1], s.Net.hosts[2], s.Net.hosts[3], s.Net.hosts[4] = "10.0.1.1", "10.0.1.2", "10.0.1.3", "10.0.1.4"
	base := 0
	arm := func() {
		if w.mem {
			return
		}
		base = w.pg.steps
		w.pg.FailFrom = s.Now()
		w.pg.FailUntil = s.Now() + p.D("faultend")
		for _, o := range p.Ops {
			if o.Kind == "stmt" {
				w.pg.FailAt[base+o.A] = o.B
			}
		}
	}
	if p.C("migfault") != 0 {
		arm()
	}
	if !w.open() {
		return
	}
	if p.C("migfault") == 0 {
		arm()
	}
	start := s.Now()
	w.launch()
	for _, o := range p.Ops {
		s.At(start + time.Duration(o.At)*time.Millisecond)
		switch o.Kind {
		case "pgcrash":
			d := time.Duration(o.A) * time.Millisecond
			w.pg.Crash(d)
		case "kill":
			w.kill()
			s.Sleep(time.Duration(o.A) * time.Millisecond)
			if !w.open() {
				if w.dirty {
					break
				}
				return
			}
			w.launch()
		}
		if w.dirty {
			break
		}
	}
	s.At(start + p.D("faultend"))
	if !w.dirty {
		if !s.Wait(600*time.Second, func() bool { return w.busy[w.inc] == 0 }) {
			for _, o := range w.hist {
				if o.ret == never && o.inc == w.inc {
					w.both("hang", "%v does not return", o)
					break
				}
			}
			return
		}
	}
	if w.pg != nil {
		w.pg.FailPM, w.pg.FailAt = 0, map[int]int{}
	}
	s.Heal()
	if !w.mem {
		// what was acknowledged is there in the next life
		w.kill()
		s.Sleep(200 * time.Millisecond)
		if s.Wait(15*time.Second, func() bool { return s.Now() > w.pg.starting }); !w.open() {
			if !w.dirty {
				w.both("restart", "the store cannot be opened although the database is up")
			}
			return
		}
	}
	w.final()
	if w.pg != nil {
		s.State("pg %d sessions, %d fails", w.pg.nextSess, w.pg.fails)
	}
	w.check()
}

func (s *Sim) Heal() { s.Net.Heal() }

// open starts the next incarnation; false if that fails.
func (w *stWorld) open() bool {
	w.inc++
	if w.mem {
		return true
	}
	w.svcs = nil
	for i := 0; i < w.p.C("svcs"); i++ {
		for try := 0; ; try++ {
			fails := w.pg.fails
			var svc *dbpg.DbService
			var err error
			at := w.s.Now()
			if !w.s.Call(int32(w.inc), 300*time.Second, func() { svc, err = dbpg.NewDbService(pgConfig()) }) {
				w.both("open-hang", "opening the store hangs")
				return false
			}
			if err == nil {
				w.svcs = append(w.svcs, svc)
				break
			}
			w.s.Ev("open: %v", err)
			w.s.Probe("store.open-failed")
			if bytes.Contains([]byte(err.Error()), []byte("Dirty")) || bytes.Contains([]byte(err.Error()), []byte("dirty")) {
				// the migration was cut off and needs a human
				w.dirty = true
				w.s.Probe("store.dirty-migration")
				return false
			}
			if w.pg.fails == fails && !w.down(at, w.s.Now()) && w.s.Now() > w.pg.starting {
				w.both("open", "the store cannot be opened: %v", err)
				return false
			}
			if try > 15 {
				w.both("open", "the store cannot be opened for a long time: %v", err)
				return false
			}
			// the daemon ends when this fails, and is started again
			w.kill()
			w.inc++
			if try > 6 {
				w.s.At(w.pg.FailUntil)
				w.s.At(w.pg.starting)
			}
			w.s.Sleep(300 * time.Millisecond)
			i = 0
			w.svcs = nil
		}
	}
	return true
}

func (w *stWorld) down(a, b time.Duration) bool {
	for _, d := range w.pg.downs {
		if a < d[1] && b > d[0] {
			return true
		}
	}
	return false
}

func (w *stWorld) kill() {
	if w.mem {
		return
	}
	w.s.Fault("process.kill")
	w.s.Ev("kill incarnation %d", w.inc)
	runtime.SimKill(int32(w.inc))
	w.s.Net.KillTag(int32(w.inc))
	w.kills++
}

func (w *stWorld) repos(i int) (repository.BlockHeaderRepository, repository.FilterRepository) {
	if w.mem {
		return w.mh, w.mf
	}
	svc := w.svcs[i%len(w.svcs)]
	h, err := dbpg.NewHeaderRepositoryImpl(svc)
	if err != nil {
		panic(err)
	}
	f, err := dbpg.NewFilterRepositoryImpl(svc)
	if err != nil {
		panic(err)
	}
	return h, f
}

func (w *stWorld) launch() {
	inc := w.inc
	tag := int32(inc)
	if w.mem {
		tag = 1
	}
	n := w.p.C("writers") + w.p.C("readers")
	w.busy[inc] = n
	for i := 0; i < n; i++ {
		i := i
		r := NewRng(w.s.Seed, fmt.Sprintf("worker/%d/%d", inc, i))
		h, f := w.repos(i)
		w.s.Go(tag, func() {
			for k := 0; k < w.p.C("ops"); k++ {
				if i < w.p.C("writers") {
					w.writeOp(inc, r, h, f)
				} else {
					w.readOp(inc, r, h, f)
				}
				if d := w.p.C("pause"); d > 0 {
					time.Sleep(time.Duration(r.N(d*1000)) * time.Microsecond)
				} else {
					runtime.SimYield()
				}
			}
			runtime.SimHold(1)
			w.busy[inc]--
			runtime.SimHold(-1)
		})
	}
}

func (w *stWorld) begin(o *stOp, inc int) *stOp {
	runtime.SimHold(1)
	w.clock++
	o.inv, o.ret, o.inc, o.at = w.clock, never, inc, w.s.Now()
	w.hist = append(w.hist, o)
	w.s.Ev("%d: %v", inc, o)
	runtime.SimHold(-1)
	runtime.SimYield()
	return o
}

func (w *stWorld) done(o *stOp) {
	runtime.SimYield()
	runtime.SimHold(1)
	w.clock++
	o.ret, o.end = w.clock, w.s.Now()
	w.s.Ev("%d: %v -> %v", o.inc, o, o.err)
	if o.err != nil {
		w.s.Probe("store.error." + o.kind)
	}
	runtime.SimHold(-1)
}

func decode(b *Blk) *block.Header {
	h, err := block.DeserializeHeader(bytes.NewBuffer(append([]byte(nil), b.Hdr...)))
	if err != nil {
		panic(err)
	}
	return h
}

func (w *stWorld) writeOp(inc int, r *Rng, h repository.BlockHeaderRepository, f repository.FilterRepository) {
	p := w.p
	ctx := context.Background()
	if r.P(25) {
		b := w.all[r.N(len(w.all))]
		o := w.begin(&stOp{kind: "put-filter", want: b}, inc)
		o.err = f.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: b.Hash.CloneBytes()}, NBytes: append([]byte(nil), b.Filter...)})
		w.done(o)
		if o.err == nil && !w.mem {
			runtime.SimHold(1)
			w.acked = append(w.acked, b)
			runtime.SimHold(-1)
		}
		return
	}
	if !w.mem && len(w.acked) > 0 && w.other < 3 { // another filter for a block that has one: success would be a lie
		q := NewRng(w.s.Seed, "other/"+itoa(len(w.hist)))
		if q.P(8) {
			w.other++
			b := w.acked[q.N(len(w.acked))]
			x := append([]byte(nil), b.Filter...)
			switch q.N(3) {
			case 0:
				x[q.N(len(x))] ^= 1 << uint(q.N(8))
			case 1:
				x = x[:len(x)-1]
			case 2:
				x = append(x, 0)
			}
			w.s.Ev("put another filter of block %d", b.Height)
			w.s.Probe("store.other-filter")
			if f.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: b.Hash.CloneBytes()}, NBytes: x}) == nil {
				w.both("false-success", "writing another filter for block %d, whose filter is stored, reports success", b.Height)
			}
			return
		}
	}
	var l []*Blk
	n := r.In(1, p.C("batch"))
	runtime.SimHold(1)
	from := w.front
	if r.P(p.C("dups")) {
		from = maxInt(0, from-r.In(1, n+2))
	} else {
		w.front += n
	}
	if from >= p.C("blocks") {
		from = r.N(p.C("blocks"))
	}
	runtime.SimHold(-1)
	if p.C("order") >= 1 && r.P(50) {
		from = r.N(p.C("blocks"))
	}
	for i := 0; i < n && from+i < p.C("blocks"); i++ {
		l = append(l, w.chain.Blocks[1+from+i])
	}
	if p.C("order") == 2 && r.P(50) {
		m := make([]*Blk, len(l))
		for i, k := range r.Perm(len(l)) {
			m[i] = l[k]
		}
		l = m
		if len(l) > 0 && r.P(20) {
			l = append(l, l[r.N(len(l))])
		}
	}
	if k := len(w.all) - p.C("blocks"); k > 0 && r.P(20) {
		l = append(l, w.all[p.C("blocks")+r.N(k)])
	}
	var hs []block.Header
	for _, b := range l {
		hs = append(hs, *decode(b))
	}
	o := w.begin(&stOp{kind: "write", blks: l}, inc)
	o.err = h.WriteHeaders(ctx, hs...)
	w.done(o)
	for i := range hs { // the caller may reuse its memory
		hs[i] = block.Header{Height: 1 << 30, ExtData: &block.ExtData{Proof: &block.Proof{}}}
	}
}

func (w *stWorld) pick(r *Rng) *Blk {
	if r.P(50) {
		return w.all[r.N(len(w.all))]
	}
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	k := w.front + r.In(-4, 3)
	if k < 0 {
		k = 0
	}
	return w.all[k%len(w.all)]
}

func (w *stWorld) same(o *stOp, hd *block.Header) {
	if hd == nil {
		w.both("nil", "%v returns nothing and no error", o)
		return
	}
	hash, err := hd.Hash()
	b := w.by[hash]
	if err != nil || b == nil {
		w.both("unknown", "%v returns a header that was never written", o)
		return
	}
	if ser, err := hd.Serialize(); err != nil || !bytes.Equal(ser, b.Hdr) {
		w.both("content", "%v returns other content than was written (%v)", o, err)
		return
	}
	o.found = b
}

func (w *stWorld) readOp(inc int, r *Rng, h repository.BlockHeaderRepository, f repository.FilterRepository) {
	ctx := context.Background()
	switch r.N(6) {
	case 0:
		o := w.begin(&stOp{kind: "tip"}, inc)
		hd, err := h.ChainTip(ctx)
		o.err = err
		w.done(o)
		if err == nil {
			w.same(o, hd)
		}
	case 1:
		w.readHeader(inc, w.pick(r), h)
	case 2:
		w.readAt(inc, w.pick(r).Height+uint32(r.N(2)), h)
	case 3:
		w.readLocator(inc, h)
	case 4:
		w.readAncestors(inc, w.pick(r), h)
	case 5:
		w.readFilter(inc, w.pick(r), f)
	}
}

func (w *stWorld) readHeader(inc int, b *Blk, h repository.BlockHeaderRepository) *stOp {
	o := w.begin(&stOp{kind: "header", want: b}, inc)
	hd, err := h.GetBlockHeader(context.Background(), b.Hash)
	o.err = err
	w.done(o)
	if err == nil {
		w.same(o, hd)
		if o.found != nil && o.found != b {
			w.both("other", "%v returns another header", o)
		}
	}
	return o
}

func (w *stWorld) readAt(inc int, height uint32, h repository.BlockHeaderRepository) *stOp {
	o := w.begin(&stOp{kind: "hash-at", height: height}, inc)
	x, err := h.GetBlockHashByHeight(context.Background(), height)
	o.err = err
	w.done(o)
	if err == nil {
		if x == nil {
			w.both("nil", "%v returns nothing and no error", o)
			return o
		}
		b := w.by[*x]
		if b == nil || b.Height != height {
			w.both("other", "%v returns %v, which is no header of that height", o, x)
		}
		o.found = b
	}
	return o
}

func (w *stWorld) readLocator(inc int, h repository.BlockHeaderRepository) *stOp {
	o := w.begin(&stOp{kind: "locator"}, inc)
	l, err := h.LatestBlockLocator(context.Background())
	o.err = err
	w.done(o)
	if err == nil {
		w.locator(o, l)
	}
	return o
}

func (w *stWorld) locator(o *stOp, l blockchain.BlockLocator) {
	for _, x := range l {
		if x == nil {
			w.both("nil", "the locator contains nothing")
			return
		}
		b := w.by[*x]
		if b == nil {
			w.both("locator", "the locator contains %v, which was never written", x)
			return
		}
		o.loc = append(o.loc, b)
	}
	if len(l) == 0 {
		w.both("locator", "the locator of a store with headers is empty")
		return
	}
	o.found = o.loc[0]
	var hs []uint32
	for i, b := range o.loc {
		if i == 1 && b.Height == o.loc[0].Height {
			continue // the tip may come twice
		}
		hs = append(hs, b.Height)
	}
	last := uint32(0)
	for i := 1; i < len(hs); i++ {
		if hs[i] >= hs[i-1] {
			w.both("locator", "the locator does not walk back: %v", hs)
			return
		}
		step := hs[i-1] - hs[i]
		if step > 1 && (i < 8 || step > 2*last) || step < last && hs[i] > 0 {
			w.both("locator", "the steps of the locator do not grow as they should: %v", hs)
			return
		}
		last = step
	}
	if end := hs[len(hs)-1]; end > 2*last+1 {
		w.both("locator", "the locator stops at height %d: %v", end, hs)
	}
}

func (w *stWorld) readAncestors(inc int, b *Blk, h repository.BlockHeaderRepository) *stOp {
	o := w.begin(&stOp{kind: "ancestors", want: b}, inc)
	ok, err := h.HasAllAncestors(context.Background(), b.Hash)
	o.err = err
	w.done(o)
	o.yes = ok
	return o
}

func (w *stWorld) readFilter(inc int, b *Blk, f repository.FilterRepository) *stOp {
	o := w.begin(&stOp{kind: "filter", want: b}, inc)
	e, err := f.GetFilter(context.Background(), repository.FilterKey{BlockHash: b.Hash.CloneBytes()})
	o.err = err
	w.done(o)
	if err == nil {
		if e == nil || !bytes.Equal(e.NBytes, b.Filter) {
			w.both("filter-content", "the filter of block %d is read back with other content", b.Height)
			return o
		}
		if !bytes.Equal(e.Key.BlockHash, b.Hash[:]) {
			w.both("filter-key", "the filter of block %d is read back under another key", b.Height)
		}
		o.found = b
	}
	return o
}

// final reads everything when nothing else happens.
func (w *stWorld) final() {
	inc := w.inc
	tag := int32(inc)
	if w.mem {
		tag = 1
	}
	h, f := w.repos(0)
	var o *stOp
	if !w.s.Call(tag, 3000*time.Second, func() {
		o = w.begin(&stOp{kind: "tip"}, inc)
		hd, err := h.ChainTip(context.Background())
		o.err = err
		w.done(o)
		if err == nil {
			w.same(o, hd)
		}
		step := 1 + len(w.all)/120
		for i := 0; i < len(w.all); i += step {
			w.readHeader(inc, w.all[i], h)
			if i%3 == 0 {
				w.readAt(inc, w.all[i].Height, h)
			}
			if i%5 == 0 {
				w.readAncestors(inc, w.all[i], h)
			}
			w.readFilter(inc, w.all[i], f)
		}
		w.readLocator(inc, h)
	}) {
		w.both("hang", "reading the store hangs")
	}
}

// check compares the recorded history with the model: headers and filters
// appear at one moment between the call and the return of their write, all of
// a batch together, and never disappear.
func (w *stWorld) check() {
	s := w.s
	type info struct {
		first int // first write invoked
		known int // return of the first successful write or sighting
		fOne  int
		fSeen int
		cands []*stOp
	}
	in := map[*Blk]*info{}
	for _, b := range w.all {
		in[b] = &info{first: never, known: never, fOne: never, fSeen: never}
	}
	budget := 0
	if w.pg != nil {
		budget = w.pg.fails + w.pg.nextSess
	}
	faulty := w.pg != nil && (w.pg.fails > 0 || w.kills > 1)
	hist := w.hist
	clash := func(o *stOp) bool {
		if w.mem {
			return false
		}
		for _, b := range o.blks {
			for _, p := range hist {
				for _, x := range p.blks {
					if x != b && x.Height == b.Height && p.inv < o.ret {
						return true
					}
				}
			}
		}
		return false
	}
	writes, sightings := 0, 0
	for _, o := range hist {
		// errors
		if o.ret != never && o.err != nil {
			notFound := errors.Is(o.err, repository.ErrBlockNotFound) || errors.Is(o.err, repository.ErrNoBlocksHeaders) || errors.Is(o.err, repository.ErrFilterNotFound)
			switch {
			case o.kind == "write" || o.kind == "put-filter":
				if notFound {
					s.Probe("store.write-notfound")
				}
				if o.kind == "write" && clash(o) {
					s.Probe("store.height-clash")
					break
				}
				if !faulty {
					w.both("write-error", "%v fails although nothing went wrong: %v", o, o.err)
				} else if !w.down(o.at, o.end) {
					budget--
				}
			case notFound:
			default:
				if !faulty {
					w.both("read-error", "%v fails although nothing went wrong: %v", o, o.err)
				} else if !w.down(o.at, o.end) {
					budget--
				}
			}
		}
		if budget < 0 && faulty {
			w.both("error", "%v fails although nothing went wrong: %v", o, o.err)
			return
		}
	}
	add := func(b *Blk, o *stOp) {
		x := in[b]
		x.cands = append(x.cands, o)
		if o.inv < x.first {
			x.first = o.inv
		}
		if o.err == nil && o.ret < x.known {
			x.known = o.ret
		}
	}
	for _, o := range hist {
		switch o.kind {
		case "write":
			writes++
			if o.ret != never && o.err != nil && !faulty {
				continue // failed for certain: must leave nothing
			}
			for _, b := range o.blks {
				add(b, o)
			}
		case "put-filter":
			x := in[o.want]
			if o.inv < x.fOne {
				x.fOne = o.inv
			}
			if o.ret != never && o.err == nil && o.ret < x.fSeen {
				x.fSeen = o.ret
			}
		}
	}
	// sightings, in the order of their return
	var sight []*stOp
	for _, o := range hist {
		if o.ret != never && o.err == nil && (o.found != nil || o.kind == "ancestors") {
			sight = append(sight, o)
		}
	}
	for i := 1; i < len(sight); i++ {
		for k := i; k > 0 && sight[k].ret < sight[k-1].ret; k-- {
			sight[k], sight[k-1] = sight[k-1], sight[k]
		}
	}
	see := func(b *Blk, o *stOp) {
		x := in[b]
		sightings++
		if x.first > o.ret {
			w.both("from-nowhere", "%v finds block %d before any write of it began or although every write of it failed", o, b.Height)
			return
		}
		if o.ret < x.known {
			x.known = o.ret
		}
		// what came with it in every write that may have brought it
		var must []*Blk
		for i, c := range x.cands {
			if c.inv > o.ret {
				continue
			}
			if i == 0 || must == nil {
				must = append([]*Blk{}, c.blks...)
				continue
			}
			var keep []*Blk
			for _, m := range must {
				for _, y := range c.blks {
					if m == y {
						keep = append(keep, m)
						break
					}
				}
			}
			must = append([]*Blk{}, keep...)
		}
		for _, m := range must {
			if o.ret < in[m].known {
				in[m].known = o.ret
			}
		}
	}
	for _, o := range sight {
		switch o.kind {
		case "filter":
			x := in[o.want]
			if x.fOne > o.ret {
				w.both("filter-from-nowhere", "the filter of block %d is found before it was written", o.want.Height)
			}
			if o.ret < x.fSeen {
				x.fSeen = o.ret
			}
		case "ancestors":
			see(o.want, o)
			if o.yes {
				for b := o.want; b != nil && b.Height > 0; b = w.parent(b) {
					see(b, o)
				}
			}
		case "locator":
			for _, b := range o.loc {
				see(b, o)
			}
		default:
			see(o.found, o)
		}
	}
	known := func(t int) (max uint32, n int) {
		for b, x := range in {
			if x.known < t {
				n++
				if b.Height > max {
					max = b.Height
				}
			}
		}
		return
	}
	for _, o := range hist {
		if o.ret == never {
			continue
		}
		switch o.kind {
		case "write", "put-filter":
			continue
		}
		empty := errors.Is(o.err, repository.ErrNoBlocksHeaders)
		missing := errors.Is(o.err, repository.ErrBlockNotFound)
		if o.err != nil && !empty && !missing && !errors.Is(o.err, repository.ErrFilterNotFound) {
			continue
		}
		max, n := known(o.inv)
		if o.kind == "filter" {
			if o.err == nil {
				continue
			}
			if !errors.Is(o.err, repository.ErrFilterNotFound) {
				w.both("wrong-error", "%v: %v", o, o.err)
			} else if in[o.want].fSeen < o.inv {
				w.both("lost-filter", "the filter of block %d was stored and is not found any more", o.want.Height)
			}
			continue
		}
		if empty && n > 0 {
			w.both("false-empty", "%v reports an empty store although %d headers are stored", o, n)
			continue
		}
		switch o.kind {
		case "tip", "locator":
			if missing && o.kind == "tip" {
				w.both("wrong-error", "%v: %v", o, o.err)
			}
			if missing && o.kind == "locator" {
				// only right if something below the tip is missing
				full := true
				for h := uint32(1); h <= w.maxHeight(); h++ {
					ok := false
					for b, x := range in {
						if b.Height == h && x.known < o.inv {
							ok = true
						}
					}
					full = full && ok
				}
				if full {
					w.both("false-missing", "%v fails with %v although the chain is complete", o, o.err)
				}
			}
			if o.err == nil && o.found != nil {
				if o.found.Height < max {
					w.both("tip", "%v has height %d although a header of height %d is stored", o, o.found.Height, max)
				}
				ok := false
				for _, c := range in[o.found].cands {
					top := uint32(0)
					for _, b := range c.blks {
						if b.Height > top {
							top = b.Height
						}
					}
					ok = ok || c.inv < o.ret && top <= o.found.Height
				}
				if !ok {
					w.both("tip-torn", "%v has height %d, the middle of a batch", o, o.found.Height)
				}
			}
		case "header":
			if empty {
				w.both("wrong-error", "%v: %v", o, o.err)
			}
			if missing && in[o.want].known < o.inv {
				w.both("lost", "%v: it was stored and is not found", o)
			}
		case "hash-at":
			if empty {
				w.both("wrong-error", "%v: %v", o, o.err)
			}
			if missing {
				for b, x := range in {
					if b.Height == o.height && x.known < o.inv {
						w.both("lost-height", "no header of height %d is found although one is stored", o.height)
						break
					}
				}
			}
		case "ancestors":
			nothing := true
			for _, x := range in {
				nothing = nothing && x.first > o.ret
			}
			if missing && nothing {
				w.both("wrong-error", "%v on an empty store: %v", o, o.err)
			}
			if missing && in[o.want].known < o.inv {
				w.both("lost", "%v: it was stored and is not found", o)
			}
			if o.err == nil && !o.yes {
				full := true
				for b := o.want; b != nil && b.Height > 0; b = w.parent(b) {
					full = full && in[b].known < o.inv
				}
				if full {
					w.both("ancestors", "%v is false although the chain below is complete", o)
				}
			}
		}
	}
	s.Count("store.writes", writes)
	s.Count("store.sightings", sightings)
	s.Count("store.operations", len(hist))
	_, n := known(never)
	s.State("%d stored", n)
}

func (w *stWorld) maxHeight() (m uint32) {
	for _, b := range w.all {
		if b.Height > m {
			m = b.Height
		}
	}
	return
}

func (w *stWorld) parent(b *Blk) *Blk {
	var h chainhash.Hash
	copy(h[:], b.H.PrevBlockHash)
	return w.by[h]
}
