package verifsim

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"time"
)

// An independent codec of the peer-to-peer protocol for the simulated peers.

type wmsg struct {
	cmd     string
	payload []byte
}

func frame(magic [4]byte, cmd string, payload []byte) []byte {
	b := make([]byte, 24, 24+len(payload))
	copy(b, magic[:])
	copy(b[4:16], cmd)
	binary.LittleEndian.PutUint32(b[16:], uint32(len(payload)))
	h := dsha(payload)
	copy(b[20:24], h[:4])
	return append(b, payload...)
}

var errFraming = errors.New("framing")

// readFrame reads one message strictly; any malformation is an error.
func readFrame(r io.Reader, magic [4]byte) (*wmsg, error) {
	h := make([]byte, 24)
	if n, err := io.ReadFull(r, h); err != nil {
		if n > 0 && err == io.ErrUnexpectedEOF {
			return nil, io.ErrUnexpectedEOF
		}
		return nil, err
	}
	if !bytes.Equal(h[:4], magic[:]) {
		return nil, fmt.Errorf("%w: magic %x", errFraming, h[:4])
	}
	cmd := h[4:16]
	i := bytes.IndexByte(cmd, 0)
	if i < 0 {
		i = 12
	}
	for _, c := range cmd[i:] {
		if c != 0 {
			return nil, fmt.Errorf("%w: command %q", errFraming, cmd)
		}
	}
	for _, c := range cmd[:i] {
		if c < 'a' || c > 'z' {
			return nil, fmt.Errorf("%w: command %q", errFraming, cmd)
		}
	}
	n := binary.LittleEndian.Uint32(h[16:])
	if n > 4<<20 {
		return nil, fmt.Errorf("%w: length %d of %q", errFraming, n, cmd[:i])
	}
	p := make([]byte, n)
	if _, err := io.ReadFull(r, p); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	sum := dsha(p)
	if !bytes.Equal(sum[:4], h[20:24]) {
		return nil, fmt.Errorf("%w: checksum of %q", errFraming, cmd[:i])
	}
	return &wmsg{string(cmd[:i]), p}, nil
}

func putVarInt(b []byte, n uint64) []byte {
	switch {
	case n < 0xfd:
		return append(b, byte(n))
	case n <= 0xffff:
		return append(b, 0xfd, byte(n), byte(n>>8))
	case n <= 0xffffffff:
		return binary.LittleEndian.AppendUint32(append(b, 0xfe), uint32(n))
	}
	return binary.LittleEndian.AppendUint64(append(b, 0xff), n)
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		r.bad = true
		r.b = nil
		return make([]byte, minInt(maxInt(n, 0), 64))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) u8() byte    { return r.take(1)[0] }
func (r *rd) u32() uint32 { return binary.LittleEndian.Uint32(r.take(4)) }
func (r *rd) u64() uint64 { return binary.LittleEndian.Uint64(r.take(8)) }
func (r *rd) varint() uint64 {
	switch c := r.u8(); c {
	case 0xfd:
		b := r.take(2)
		return uint64(b[0]) | uint64(b[1])<<8
	case 0xfe:
		return uint64(r.u32())
	case 0xff:
		return r.u64()
	default:
		return uint64(c)
	}
}
func (r *rd) hash() (h [32]byte) {
	copy(h[:], r.take(32))
	return
}

// done reports whether exactly the whole payload was consumed.
func (r *rd) done() bool { return !r.bad && len(r.b) == 0 }

func versionPayload(services uint64, height int32, nonce uint64, ua string, relay bool) []byte {
	b := binary.LittleEndian.AppendUint32(nil, 70016)
	b = binary.LittleEndian.AppendUint64(b, services)
	b = binary.LittleEndian.AppendUint64(b, uint64(time.Now().Unix()))
	addr := func() {
		b = binary.LittleEndian.AppendUint64(b, services)
		b = append(b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1)
		b = append(b, 0x1f, 0x90)
	}
	addr()
	addr()
	b = binary.LittleEndian.AppendUint64(b, nonce)
	b = append(b, byte(len(ua)))
	b = append(b, ua...)
	b = binary.LittleEndian.AppendUint32(b, uint32(height))
	if relay {
		return append(b, 1)
	}
	return append(b, 0)
}

func headersPayload(bs []*Blk) []byte {
	b := putVarInt(nil, uint64(len(bs)))
	for _, x := range bs {
		b = append(b, x.Hdr...)
		b = append(b, 0)
	}
	return b
}

func cfilterPayload(typ byte, hash [32]byte, filter []byte) []byte {
	b := append([]byte{typ}, hash[:]...)
	b = putVarInt(b, uint64(len(filter)))
	return append(b, filter...)
}

type invVec struct {
	typ  uint32
	hash [32]byte
}

func invPayload(vs []invVec) []byte {
	b := putVarInt(nil, uint64(len(vs)))
	for _, v := range vs {
		b = binary.LittleEndian.AppendUint32(b, v.typ)
		b = append(b, v.hash[:]...)
	}
	return b
}

func parseInv(p []byte) ([]invVec, bool) {
	r := &rd{b: p}
	n := r.varint()
	if n > 50000 {
		return nil, false
	}
	var out []invVec
	for i := uint64(0); i < n && !r.bad; i++ {
		t := r.u32()
		out = append(out, invVec{t, r.hash()})
	}
	return out, r.done()
}

type getHeaders struct {
	version uint32
	locator [][32]byte
	stop    [32]byte
}

func parseGetHeaders(p []byte) (*getHeaders, bool) {
	r := &rd{b: p}
	g := &getHeaders{version: r.u32()}
	n := r.varint()
	if n > 2000 {
		return nil, false
	}
	for i := uint64(0); i < n && !r.bad; i++ {
		g.locator = append(g.locator, r.hash())
	}
	g.stop = r.hash()
	return g, r.done()
}

type getCFilters struct {
	typ   byte
	start uint32
	stop  [32]byte
}

func parseGetCFilters(p []byte) (*getCFilters, bool) {
	r := &rd{b: p}
	g := &getCFilters{typ: r.u8(), start: r.u32()}
	g.stop = r.hash()
	return g, r.done()
}

func getCFiltersPayload(typ byte, start uint32, stop [32]byte) []byte {
	b := binary.LittleEndian.AppendUint32([]byte{typ}, start)
	return append(b, stop[:]...)
}

type versionMsg struct {
	version  uint32
	services uint64
	height   int32
	ua       string
}

// parseVersion is strict about the layout of a version message.
func parseVersion(p []byte) (*versionMsg, bool) {
	r := &rd{b: p}
	v := &versionMsg{version: r.u32(), services: r.u64()}
	r.u64()
	r.take(26)
	r.take(26)
	r.u64()
	v.ua = string(r.take(int(r.varint())))
	v.height = int32(r.u32())
	r.take(1)
	return v, r.done()
}
