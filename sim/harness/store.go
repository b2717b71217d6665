package verifsim

import (
	"bytes"
	"context"
	"errors"
	"runtime"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// Store is the durable storage of a simulated node: the repository's in-memory
// implementation behind a layer that injects latency and failures, records
// every write and checks it at once.  After a crash the content comes back from
// the record.
type Store struct {
	s     *Sim
	chain *Chain
	hdr   repository.BlockHeaderRepository
	flt   repository.FilterRepository

	heights []storedHdr // index is the height; 0 is the genesis block
	byHash  map[chainhash.Hash]uint32
	filters map[chainhash.Hash][]byte
	fltAt   map[chainhash.Hash]time.Duration

	rng       *Rng
	LatMax    time.Duration
	FailPM    int
	FailUntil time.Duration
	HangUntil time.Duration
	lastFail  time.Duration
	closedTag map[int32]bool // stopped incarnations: they must not write any more
	idleTag   map[int32]bool // stopped: they must not do anything
	lastWrite map[int32]time.Duration
	ops       int
	FailAt    map[int]bool // the n-th operation fails
	anyHdr    bool         // headers that are not in the chain are expected
	badHdrs   map[chainhash.Hash]bool
}

type storedHdr struct {
	hash chainhash.Hash
	hdr  []byte
	at   time.Duration
}

var errStore = errors.New("storage: connection lost")

func NewStore(s *Sim, c *Chain) *Store {
	st := &Store{s: s, chain: c, byHash: map[chainhash.Hash]uint32{}, filters: map[chainhash.Hash][]byte{}, fltAt: map[chainhash.Hash]time.Duration{},
		rng: NewRng(s.Seed, "store"), closedTag: map[int32]bool{}, idleTag: map[int32]bool{}, lastWrite: map[int32]time.Duration{}, FailAt: map[int]bool{}, badHdrs: map[chainhash.Hash]bool{}}
	st.heights = []storedHdr{{hash: c.Blocks[0].Hash}}
	st.hdr = inmemory.NewHeaderInmemory()
	st.flt = inmemory.NewFilterInmemory()
	return st
}

func (st *Store) TipH() uint32 { return uint32(len(st.heights) - 1) }

func (st *Store) HasFilter(h chainhash.Hash) bool { _, ok := st.filters[h]; return ok }

// Seed puts the first n blocks of the chain into the store.
func (st *Store) Preload(n int, filters func(h int) bool) {
	for h := 1; h <= n; h++ {
		b := st.chain.Blocks[h]
		st.heights = append(st.heights, storedHdr{hash: b.Hash, hdr: b.Hdr})
		st.byHash[b.Hash] = uint32(h)
		if filters(h) {
			st.filters[b.Hash] = b.Filter
		}
	}
	st.Reopen()
}

// FeedHeader stores the header of a block as the node does.
func (st *Store) FeedHeader(h uint32) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	b := st.chain.Blocks[h]
	if int(h) != len(st.heights) {
		panic("headers are fed out of order")
	}
	st.heights = append(st.heights, storedHdr{hash: b.Hash, hdr: b.Hdr})
	st.byHash[b.Hash] = h
	hd, err := block.DeserializeHeader(bytes.NewBuffer(append([]byte(nil), b.Hdr...)))
	if err != nil {
		panic(err)
	}
	st.hdr.WriteHeaders(context.Background(), *hd)
	st.s.Ev("store: header %d", h)
}

// FeedFilter stores the filter of a block as the node does.
func (st *Store) FeedFilter(h uint32) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	b := st.chain.Blocks[h]
	st.filters[b.Hash] = b.Filter
	st.flt.PutFilter(context.Background(), &repository.FilterEntry{Key: repository.FilterKey{BlockHash: b.Hash.CloneBytes()}, NBytes: b.Filter})
	st.s.Ev("store: filter %d", h)
}

// Reopen replaces the in-memory repositories by new ones with what was durable.
func (st *Store) Reopen() {
	st.hdr = inmemory.NewHeaderInmemory()
	st.flt = inmemory.NewFilterInmemory()
	ctx := context.Background()
	for h := 1; h < len(st.heights); h++ {
		hd, err := block.DeserializeHeader(bytes.NewBuffer(append([]byte(nil), st.heights[h].hdr...)))
		if err != nil {
			panic(err)
		}
		st.hdr.WriteHeaders(ctx, *hd)
		if f, ok := st.filters[st.heights[h].hash]; ok {
			st.flt.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: st.heights[h].hash.CloneBytes()}, NBytes: f})
		}
	}
}

// enter runs before every operation; an error means it failed without effect.
func (st *Store) enter(op string) error {
	runtime.SimYield()
	if st.idleTag[runtime.SimTag()] {
		st.s.Fail("C16", "work-after-stop", "a %s on the store after Stop returned", op)
	}
	st.ops++
	n := st.ops
	if st.LatMax > 0 {
		time.Sleep(time.Duration(st.rng.U64() % uint64(st.LatMax+1)))
	}
	if d := st.HangUntil - st.s.Now(); d > 0 {
		st.s.Fault("store.hang")
		time.Sleep(d)
	}
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	if st.FailAt[n] || (st.s.Now() < st.FailUntil && st.rng.PM(st.FailPM)) {
		st.s.Fault("store.fail." + op)
		st.s.Ev("store: %s fails (before)", op)
		st.lastFail = st.s.Now()
		return errStore
	}
	return nil
}

// leave runs after every write; an error means it succeeded but the answer is lost.
func (st *Store) leave(op string) error {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	if st.s.Now() < st.FailUntil && st.rng.PM(st.FailPM/3) {
		st.s.Fault("store.lost-ack." + op)
		st.s.Ev("store: %s fails (after)", op)
		st.lastFail = st.s.Now()
		return errStore
	}
	return nil
}

// parkDead keeps a goroutine of a crashed process (a sleep that ended after the
// crash) from writing.  Called under SimHold.
func (st *Store) parkDead() {
	for runtime.SimIsDead(runtime.SimTag()) {
		runtime.SimHold(-1)
		time.Sleep(time.Hour)
		runtime.SimYield()
		runtime.SimHold(1)
	}
}

func (st *Store) writing(op string) {
	t := runtime.SimTag()
	st.lastWrite[t] = st.s.Now()
	if st.closedTag[t] {
		st.s.Fail("C16", "write-after-stop", "%s after the node was stopped", op)
	}
}

type hdrRepo struct{ st *Store }
type fltRepo struct{ st *Store }

func (st *Store) Headers() repository.BlockHeaderRepository { return hdrRepo{st} }
func (st *Store) Filters() repository.FilterRepository      { return fltRepo{st} }

func (r hdrRepo) ChainTip(ctx context.Context) (*block.Header, error) {
	if err := r.st.enter("tip"); err != nil {
		return nil, err
	}
	return r.st.hdr.ChainTip(ctx)
}

func (r hdrRepo) GetBlockHeader(ctx context.Context, h chainhash.Hash) (*block.Header, error) {
	if err := r.st.enter("getheader"); err != nil {
		return nil, err
	}
	return r.st.hdr.GetBlockHeader(ctx, h)
}

func (r hdrRepo) GetBlockHashByHeight(ctx context.Context, h uint32) (*chainhash.Hash, error) {
	if err := r.st.enter("gethash"); err != nil {
		return nil, err
	}
	return r.st.hdr.GetBlockHashByHeight(ctx, h)
}

func (r hdrRepo) LatestBlockLocator(ctx context.Context) (blockchain.BlockLocator, error) {
	if err := r.st.enter("locator"); err != nil {
		return nil, err
	}
	return r.st.hdr.LatestBlockLocator(ctx)
}

func (r hdrRepo) HasAllAncestors(ctx context.Context, h chainhash.Hash) (bool, error) {
	if err := r.st.enter("ancestors"); err != nil {
		return false, err
	}
	return r.st.hdr.HasAllAncestors(ctx, h)
}

func (r hdrRepo) WriteHeaders(ctx context.Context, hs ...block.Header) error {
	st := r.st
	if err := st.enter("writeheaders"); err != nil {
		return err
	}
	// the record and the write are one step: a crash leaves both or neither
	runtime.SimHold(1)
	st.parkDead()
	st.recordHeaders(hs)
	err := st.hdr.WriteHeaders(ctx, hs...)
	runtime.SimHold(-1)
	if err != nil {
		st.s.Fail("C15", "inmemory-write", "the in-memory repository fails to write: %v", err)
	}
	return st.leave("writeheaders")
}

func (st *Store) recordHeaders(hs []block.Header) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	st.writing("WriteHeaders")
	for i := range hs {
		h := &hs[i]
		hash, err := h.Hash()
		if err != nil {
			st.s.Fail("C01", "unhashable", "a header that cannot be hashed is written")
			continue
		}
		ser, _ := h.Serialize()
		if h.Height < uint32(len(st.heights)) && h.Height > 0 && st.heights[h.Height].hash == hash {
			st.s.Probe("store.rewrite")
			if !bytes.Equal(ser, st.heights[h.Height].hdr) {
				st.s.Fail("C01", "content", "header %d is rewritten with other content", h.Height)
			}
			continue
		}
		tip := st.heights[len(st.heights)-1]
		if h.Height != uint32(len(st.heights)) {
			st.s.Fail("C01", "gap", "a header of height %d (%v) is stored while the tip is %d", h.Height, hash, len(st.heights)-1)
			continue
		}
		if !bytes.Equal(h.PrevBlockHash, tip.hash[:]) {
			st.s.Fail("C01", "unlinked", "header %d (%v) is stored although it does not link to the tip %v", h.Height, hash, tip.hash)
		}
		b := st.chain.byHash[hash]
		if b == nil && !st.anyHdr {
			st.s.Fail("C11", "foreign-header", "header %d (%v) is stored although no peer validly sent it", h.Height, hash)
		}
		if b != nil && !bytes.Equal(ser, b.Hdr) {
			st.s.Fail("C01", "content", "header %d is stored with other content than the peer sent", h.Height)
		}
		st.heights = append(st.heights, storedHdr{hash, ser, st.s.Now()})
		st.byHash[hash] = h.Height
		st.s.Ev("store: header %d", h.Height)
	}
}

func (r fltRepo) GetFilter(ctx context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if err := r.st.enter("getfilter"); err != nil {
		return nil, err
	}
	return r.st.flt.GetFilter(ctx, k)
}

func (r fltRepo) PutFilter(ctx context.Context, e *repository.FilterEntry) error {
	st := r.st
	if err := st.enter("putfilter"); err != nil {
		return err
	}
	runtime.SimHold(1)
	st.parkDead()
	st.recordFilter(e)
	err := st.flt.PutFilter(ctx, e)
	runtime.SimHold(-1)
	if err != nil {
		st.s.Fail("C15", "inmemory-put", "the in-memory repository fails to write: %v", err)
	}
	return st.leave("putfilter")
}

func (st *Store) recordFilter(e *repository.FilterEntry) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	st.writing("PutFilter")
	var hash chainhash.Hash
	copy(hash[:], e.Key.BlockHash)
	if len(e.Key.BlockHash) != 32 || e.Key.FilterType != repository.RegularFilter {
		st.s.Fail("C04", "key", "a filter is stored under a malformed key %x/%d", e.Key.BlockHash, e.Key.FilterType)
	}
	if b := st.chain.byHash[hash]; b != nil {
		if !bytes.Equal(e.NBytes, b.Filter) {
			st.s.Fail("C04", "content", "the filter stored for block %d (%d bytes) is not what the peer served (%d bytes)", b.Height, len(e.NBytes), len(b.Filter))
		}
	} else {
		st.s.Probe("store.filter-of-unknown-block")
	}
	if _, ok := st.filters[hash]; !ok {
		st.fltAt[hash] = st.s.Now()
	}
	st.filters[hash] = append([]byte(nil), e.NBytes...)
	st.s.Ev("store: filter %v", hash)
}

// Verify reads everything back through the real repositories.
func (st *Store) Verify() {
	s, ctx := st.s, context.Background()
	ok := s.Call(0, 60*time.Second, func() {
		tip, err := st.hdr.ChainTip(ctx)
		if st.TipH() == 0 {
			if err != repository.ErrNoBlocksHeaders {
				s.Fail("C01", "tip", "the tip of an empty store: %v, %v", tip, err)
			}
			return
		}
		if err != nil || tip.Height != st.TipH() {
			s.Fail("C01", "tip", "the tip of a store with %d headers is %v, %v", st.TipH(), tip, err)
			return
		}
		step := 1 + int(st.TipH())/150
		for h := 1; h < len(st.heights); h += 1 + st.rng.N(step) {
			w := st.heights[h]
			got, err := st.hdr.GetBlockHeader(ctx, w.hash)
			if err != nil {
				s.Fail("C01", "read-hash", "header %d cannot be read by its hash: %v", h, err)
				return
			}
			ser, _ := got.Serialize()
			if !bytes.Equal(ser, w.hdr) {
				s.Fail("C01", "read-content", "header %d is read with other content than was written", h)
				return
			}
			hh, err := st.hdr.GetBlockHashByHeight(ctx, uint32(h))
			if err != nil || *hh != w.hash {
				s.Fail("C01", "read-height", "the hash of height %d is read as %v, %v", h, hh, err)
				return
			}
		}
		for hash, f := range st.filters {
			e, err := st.flt.GetFilter(ctx, repository.FilterKey{BlockHash: hash.CloneBytes()})
			if err != nil || !bytes.Equal(e.NBytes, f) {
				s.Fail("C04", "read", "the filter of block %v cannot be read back: %v", hash, err)
				return
			}
		}
	})
	if !ok {
		s.Fail("C01", "read-hang", "reading the store back hangs")
	}
}
