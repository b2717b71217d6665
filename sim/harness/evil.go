package verifsim

import (
	"encoding/binary"
	"runtime"
	"time"
)

// Unacceptable messages.  Each builder returns raw bytes; complete tells
// whether they are whole messages, after which the connection is still in step.

const nEvil = 34

const evilInner = 100

// lowBytes are random bytes which no decoder takes for a multi-byte length.
func lowBytes(r *Rng, n int) []byte {
	b := r.Bytes(n)
	for i := range b {
		b[i] &= 0x7f
	}
	return b
}

func badSum(magic [4]byte, cmd string, payload []byte) []byte {
	b := frame(magic, cmd, payload)
	b[20] ^= 0x55
	return b
}

func withLen(magic [4]byte, cmd string, payload []byte, n uint32) []byte {
	b := frame(magic, cmd, payload)
	binary.LittleEndian.PutUint32(b[16:], n)
	return b
}

func hugeVarint(r *Rng) []byte {
	switch r.N(6) {
	case 0:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	case 1:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}
	case 2:
		return []byte{0xfe, 0xff, 0xff, 0xff, 0xff}
	case 3:
		return []byte{0xfe, 0xff, 0xff, 0xff, 0x7f}
	case 4:
		return []byte{0xfe, 0, 0, 0, 0x40}
	}
	return []byte{0xff, 0, 0, 0, 0, 0, 0x01, 0, 0}
}

func (w *World) evilBytes(p *Peer, kind int, r *Rng) (name string, b []byte, complete bool) {
	m := w.magic
	tip := w.chain.Tip()
	top := w.chain.Height()
	pick := w.chain.Blocks[1+r.N(int(top))]
	hdrs := func(bs []*Blk) []byte { return frame(m, "headers", headersPayload(bs)) }
	one := func(mod func(b *Blk)) *Blk {
		st := w.st.heights[len(w.st.heights)-1]
		x := w.chain.Fork(st.hash, uint32(len(w.st.heights)))
		mod(x)
		return x
	}
	rebuild := func(x *Blk) *Blk {
		x.Hdr, _ = x.H.Serialize()
		x.Hash, _ = x.H.Hash()
		w.st.badHdrs[x.Hash] = true
		return x
	}
	cmds := []string{"headers", "cfilter", "inv", "tx", "block", "version", "ping", "pong", "getcfilters", "getheaders", "sendcmpct"}
	switch kind {
	case 0:
		return "bad checksum", badSum(m, "headers", headersPayload([]*Blk{pick})), true
	case 1:
		return "bad checksum ping", badSum(m, "ping", r.Bytes(8)), true
	case 2:
		return "bad checksum cfilter", badSum(m, "cfilter", cfilterPayload(0, pick.Hash, tip.Filter)), true
	case 3:
		return "unknown command", frame(m, []string{"xyzzy", "", "HEADERS", "headersheade", "\xff\xfe"}[r.N(5)], r.Bytes(r.Pick(0, 1, 100, 5000))), true
	case 4:
		var om [4]byte
		copy(om[:], [][]byte{{0xf9, 0xbe, 0xb4, 0xd9}, {0, 0, 0, 0}, {1, 2, 3, 4}}[r.N(3)])
		return "foreign magic", frame(om, "headers", headersPayload([]*Blk{tip})), true
	case 5: // another network the code knows
		for _, n := range netNames {
			if netInfo[n].magic != m {
				x := one(func(*Blk) {})
				return "other network", frame(netInfo[n].magic, "headers", headersPayload([]*Blk{x})), true
			}
		}
		return
	case 6:
		return "headers count absurd", frame(m, "headers", append(hugeVarint(r), r.Bytes(r.N(40))...)), true
	case 7:
		pl := append([]byte{0}, pick.Hash[:]...)
		return "cfilter length absurd", frame(m, "cfilter", append(append(pl, hugeVarint(r)...), r.Bytes(r.N(40))...)), true
	case 8:
		pl := append([]byte{0x80, 0x11, 1, 0}, hugeVarint(r)...)
		return "getheaders count absurd", frame(m, "getheaders", append(pl, r.Bytes(r.N(80))...)), true
	case 9:
		return "inv count absurd", frame(m, "inv", append(hugeVarint(r), r.Bytes(r.N(80))...)), true
	case 10:
		return "inv count above items", frame(m, "inv", append([]byte{byte(2 + r.N(200))}, r.Bytes(36)...)), true
	case 11: // header claims a huge payload
		return "length field absurd", withLen(m, cmds[r.N(len(cmds))], r.Bytes(100), []uint32{0xffffffff, 0x7fffffff, 0x80000000, 64 << 20}[r.N(4)]), false
	case 12: // header claims more than there is
		return "truncated payload", withLen(m, cmds[r.N(len(cmds))], r.Bytes(r.N(50)), uint32(60+r.N(2000))), false
	case 13: // non-linking header at the next height
		x := rebuild(one(func(b *Blk) { b.H.PrevBlockHash = r.Bytes(32) }))
		return "non-linking header", hdrs([]*Blk{x}), true
	case 14: // second header does not link
		if int(w.st.TipH())+2 <= int(top) {
			a := w.chain.Blocks[w.st.TipH()+1]
			x := one(func(b *Blk) { b.H.PrevBlockHash = r.Bytes(32); b.H.Height = a.Height + 1 })
			return "header chain breaks", hdrs([]*Blk{a, rebuild(x)}), true
		}
		x := rebuild(one(func(b *Blk) { b.H.PrevBlockHash = r.Bytes(32) }))
		return "non-linking header", hdrs([]*Blk{x}), true
	case 15: // gap
		x := rebuild(one(func(b *Blk) { b.H.Height += uint32(1 + r.N(50)) }))
		return "header gap", hdrs([]*Blk{x}), true
	case 16:
		x := rebuild(one(func(b *Blk) {
			b.H.Height = []uint32{0xffffffff, 0, 1, 0x80000000}[r.N(4)]
			b.H.PrevBlockHash = r.Bytes(32)
		}))
		return "header height absurd", hdrs([]*Blk{x}), true
	case 17: // duplicated and disordered headers
		bs := []*Blk{pick, pick, tip, w.chain.Blocks[1]}
		return "disordered headers", hdrs(bs), true
	case 18:
		h := headersPayload([]*Blk{pick})
		return "truncated headers", frame(m, "headers", h[:1+r.N(len(h)-1)]), true
	case 19:
		h := append([]byte{5}, headersPayload([]*Blk{tip})[1:]...)
		return "fewer headers than counted", frame(m, "headers", h), true
	case 20:
		pl := cfilterPayload(0, pick.Hash, pick.Filter)
		return "truncated cfilter", frame(m, "cfilter", pl[:1+r.N(len(pl)-1)]), true
	case 21:
		return "cfilter of another type", frame(m, "cfilter", cfilterPayload(byte(1+r.N(200)), pick.Hash, r.Bytes(30))), true
	case 22:
		f := append(hugeVarint(r), r.Bytes(r.N(20))...)
		var h [32]byte
		copy(h[:], r.Bytes(32))
		return "cfilter with absurd N", frame(m, "cfilter", cfilterPayload(0, h, f)), true
	case 23:
		return "empty payload", frame(m, cmds[r.N(len(cmds))], nil), true
	case 24:
		return "random payload", frame(m, []string{"ping", "pong", "getcfilters", "getheaders", "sendcmpct", "inv", "version"}[r.N(7)], r.Bytes(r.Pick(1, 3, 7, 37, 90))), true
	case 25:
		return "unsolicited pong", frame(m, "pong", r.Bytes(8)), true
	case 26:
		tx, _ := w.chain.NewTx(false, 2)
		raw, _ := tx.Serialize()
		return "truncated tx", frame(m, "tx", raw[:1+r.N(len(raw)-1)]), true
	case 27:
		return "random tx", frame(m, "tx", lowBytes(r, r.Pick(4, 10, 60, 300))), true
	case 28:
		return "truncated block", frame(m, "block", pick.Raw[:1+r.N(len(pick.Raw)-1)]), true
	case 29:
		return "random block", frame(m, "block", lowBytes(r, r.Pick(4, 80, 300))), true
	case 30: // non-linking block pushed
		x := one(func(b *Blk) { b.H.PrevBlockHash = r.Bytes(32) })
		rebuild(x)
		raw := append(append([]byte(nil), x.Hdr...), 0)
		return "non-linking block", frame(m, "block", raw), true
	case 31:
		return "second version", frame(m, "version", versionPayload(1|64, int32(top), r.U64(), "/x/", true)), true
	case 32:
		v := versionPayload(1|64, int32(top), r.U64(), "/Elements/", true)
		return "truncated version", frame(m, "version", v[:1+r.N(len(v)-1)]), true
	case evilInner: // a length inside the payload that go-elements believes (a known finding)
		switch r.N(3) {
		case 0: // the challenge of a header's proof
			h := append([]byte(nil), headersPayload([]*Blk{pick})[:1+4+32+32+4+4]...)
			return "inner length in headers", frame(m, "headers", append(h, 0xfe, 0, 0, 0, 0x50)), true
		case 1: // the script of a transaction's input
			b := append([]byte{2, 0, 0, 0, 0, 1}, r.Bytes(36)...)
			return "inner length in tx", frame(m, "tx", append(b, 0xfe, 0, 0, 0, 0x50)), true
		}
		b := append([]byte(nil), pick.Raw[:4+32+32+4+4]...)
		return "inner length in block", frame(m, "block", append(b, 0xfe, 0, 0, 0, 0x50)), true
	case 33:
		return "random bytes", r.Bytes(r.Pick(1, 23, 24, 25, 500, 5000)), false
	}
	return
}

func (w *World) evil(p *Peer, o Op) {
	s := w.s
	c := p.open()
	if c == nil || w.chain.Height() == 0 {
		return
	}
	inc := w.inc
	r := NewRng(s.Seed, "evil"+itoa(o.C))
	name, b, complete := w.evilBytes(p, o.B, r)
	if b == nil {
		return
	}
	c.evil = true
	c.evilN++
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	before := ms.TotalAlloc
	s.Fault("evil." + name)
	s.Ev("evil to the node from %s: %s (%d bytes)", c, name, len(b))
	if name == "second version" || name == "random payload" { // 90 random bytes may well decode as a version
		c.versionsSent++
	}
	if (name == "second version" || name == "random payload") && (c.verAt == 0 || c.verAt > s.Now()) {
		c.verAt = s.Now()
	}
	if name == "inv count absurd" || name == "inv count above items" || (name == "empty payload") || (name == "random payload") {
		c.oddInv = true
	}
	if !complete {
		c.garbage = true
		c.sendRaw(b, 0)
		time.Sleep(20 * time.Second)
		runtime.ReadMemStats(&ms)
		if d := (ms.TotalAlloc - before) >> 20; d > 900 {
			s.Fail("C11", memClass(o.B), "after %q from a peer the process allocated %d MB", name, d)
		}
		return
	}
	c.sendRaw(b, 0)
	n := c.ping(0)
	ok := s.Wait(60*time.Second, func() bool {
		return c.pings[n].pongs > 0 || c.closed || c.nodeEndClosed() || c.garbage || inc.stopped || inc.killed
	})
	if !ok {
		s.Fail("C11", "desync", "after %q a ping on the same connection gets no pong and the connection is not closed", name)
	}
	if c.pings[n].pongs > 0 {
		s.Probe("evil.survived")
		c.survived = append(c.survived, name)
		if name == "second version" && c.readyAt > 0 {
			go w.outlives(c, inc)
		}
	} else if c.nodeEndClosed() {
		s.Probe("evil.closed")
	}
	runtime.ReadMemStats(&ms)
	if d := (ms.TotalAlloc - before) >> 20; d > 900 {
		s.Fail("C11", memClass(o.B), "after %q from a peer the process allocated %d MB", name, d)
	}
}

// outlives checks that a peer whose second version did no harm at once goes on
// living: it still answers every ping.
func (w *World) outlives(c *pconn, inc *Inc) {
	s := w.s
	n := len(c.survived)
	ok := func() bool {
		return !inc.stopped && !inc.killed && !c.taint && !c.garbage && !c.closed && !c.p.deadForGood && len(c.survived) == n && c.evilN == n
	}
	end := s.Now() + 250*time.Second
	for s.Now() < end && ok() {
		if c.nodeEndClosed() {
			s.Fail("C11", "dropped-later", "a peer that sent a second version, and goes on answering every ping in time, is disconnected later")
			return
		}
		time.Sleep(time.Second)
	}
	if ok() && s.Now() >= end {
		s.Probe("evil.outlived")
	}
}

func memClass(kind int) string {
	if kind == evilInner {
		return "inner-length-memory"
	}
	return "memory"
}
