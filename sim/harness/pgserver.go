package verifsim

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// PG is a simulated PostgreSQL server: the wire protocol on the simulated
// network in front of the SQL engine.  Committed rows survive its crashes.
type PG struct {
	s        *Sim
	addr     string
	db       *sqlDB
	rng      *Rng
	sess     map[int]*pgSess
	nextSess int
	steps    int

	LatMax    time.Duration
	FailPM    int // per mille of the statements that fail
	FailFrom  time.Duration
	FailUntil time.Duration
	FailAt    map[int]int // statement number -> kind of failure
	Kinds     []int
	starting  time.Duration // answers "starting up" before
	downs     [][2]time.Duration
	lastFail  time.Duration
	fails     int
	OnStmt    func(n int, q string)
}

// kinds of failure
const (
	pgErrAdmin  = 1 + iota // FATAL 57P01 and the connection is closed
	pgErrSerial            // 40001
	pgErrDisk              // 53100
	pgErrIO                // XX000
	pgDropBefore
	pgDropAfter
	pgCutReply
	pgSlow
	pgCrashBefore
	pgCrashAfter
	pgErrMem // 53200
	pgKinds
)

var pgKindName = []string{"", "fatal", "serialization", "disk-full", "internal", "drop-before", "drop-after", "cut-reply", "slow", "crash-before", "crash-after", "no-memory"}

type pgSess struct {
	sqlSess
	pg     *PG
	id     int
	key    int
	c      net.Conn
	out    bytes.Buffer
	stmts  map[string]*pgPrep
	portal map[string]*pgPortal
	skip   bool // until Sync
	dead   bool
	gone   chan struct{}
	cancel chan struct{}
	after  int // failure to follow the answer
}

type pgPrep struct {
	st    *sqlStmt
	q     string
	poids []int
	res   *sqlResult
}

type pgPortal struct {
	p      *pgPrep
	params []interface{}
	fmts   []int
}

func NewPG(s *Sim, addr string) *PG {
	return &PG{s: s, addr: addr, db: &sqlDB{name: "neutrino-elements", locks: map[int64]*sqlSess{}}, rng: NewRng(s.Seed, "pg"), sess: map[int]*pgSess{}, FailAt: map[int]int{}}
}

func (pg *PG) Start() {
	l, err := pg.s.Net.Listen("tcp", pg.addr)
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go pg.serve(c)
		}
	}()
}

// Crash ends every session without a word and comes back after d.
func (pg *PG) Crash(d time.Duration) {
	runtime.SimHold(1)
	pg.s.Fault("pg.crash")
	pg.s.Ev("pg: crash, back in %v", d)
	pg.lastFail = pg.s.Now() + d + d/4
	pg.downs = append(pg.downs, [2]time.Duration{pg.s.Now(), pg.lastFail})
	pg.fails++
	var l []*pgSess
	for _, x := range pg.sess {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, x := range l {
		x.end()
	}
	pg.starting = pg.s.Now() + d + d/4
	runtime.SimHold(-1)
	for _, x := range l {
		x.c.(*simConn).reset(syscall.ECONNRESET)
	}
	pg.s.Net.Refuse(pg.addr, d)
}

// end gives up everything uncommitted of a session.
func (x *pgSess) end() {
	if x.dead {
		return
	}
	x.dead = true
	delete(x.pg.sess, x.id)
	if x.tx != nil {
		x.tx.finish(2)
		x.tx = nil
	}
	var ks []int64
	for k := range x.lockN {
		ks = append(ks, k)
	}
	for _, k := range ks {
		x.unlock(k)
	}
	close(x.gone)
}

func (x *pgSess) msg(t byte, parts ...interface{}) {
	var b bytes.Buffer
	for _, p := range parts {
		switch v := p.(type) {
		case byte:
			b.WriteByte(v)
		case int16:
			binary.Write(&b, binary.BigEndian, v)
		case int32:
			binary.Write(&b, binary.BigEndian, v)
		case string:
			b.WriteString(v)
			b.WriteByte(0)
		case []byte:
			b.Write(v)
		}
	}
	x.out.WriteByte(t)
	binary.Write(&x.out, binary.BigEndian, int32(b.Len()+4))
	x.out.Write(b.Bytes())
}

func (x *pgSess) flush() error {
	b := append([]byte(nil), x.out.Bytes()...)
	x.out.Reset()
	if len(b) == 0 {
		return nil
	}
	_, err := x.c.Write(b)
	return err
}

func (x *pgSess) ready() {
	st := byte('I')
	if x.block {
		st = 'T'
		if x.failed {
			st = 'E'
		}
	}
	x.msg('Z', st)
}

func (x *pgSess) fail(e *sqlErr) {
	sev := "ERROR"
	if e.fatal {
		sev = "FATAL"
	}
	x.msg('E', byte('S'), sev, byte('V'), sev, byte('C'), e.code, byte('M'), e.msg, byte(0))
	if x.block {
		x.failed = true
	}
	if x.tx != nil {
		x.tx.finish(2)
		x.tx = nil
	}
}

func (pg *PG) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	var params map[string]string
	for {
		var h [8]byte
		if _, err := io.ReadFull(br, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:4]))
		code := binary.BigEndian.Uint32(h[4:])
		if n < 8 || n > 10000 {
			return
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(br, b); err != nil {
			return
		}
		if code == 80877103 || code == 80877104 {
			c.Write([]byte{'N'})
			continue
		}
		if code == 80877102 && len(b) >= 8 {
			runtime.SimHold(1)
			if x := pg.sess[int(binary.BigEndian.Uint32(b))]; x != nil && x.key == int(binary.BigEndian.Uint32(b[4:])) {
				select {
				case x.cancel <- struct{}{}:
				default:
				}
			}
			runtime.SimHold(-1)
			return
		}
		params = map[string]string{}
		f := strings.Split(string(b), "\x00")
		for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
			params[f[i]] = f[i+1]
		}
		break
	}
	pg.s.Probe("pg.session")
	runtime.SimHold(1)
	pg.nextSess++
	x := &pgSess{pg: pg, id: pg.nextSess, key: int(pg.rng.U64() & 0x7fffffff), c: c, stmts: map[string]*pgPrep{}, portal: map[string]*pgPortal{}, gone: make(chan struct{}), cancel: make(chan struct{}, 1)}
	x.db, x.lockN = pg.db, map[int64]int{}
	starting := pg.s.Now() < pg.starting
	if starting {
		x.fail(&sqlErr{"57P03", "the database system is starting up", true})
		pg.s.Probe("pg.starting")
	} else {
		pg.sess[x.id] = x
		x.msg('R', int32(0))
		for _, kv := range [][2]string{{"server_version", "13.4"}, {"server_encoding", "UTF8"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"integer_datetimes", "on"}, {"standard_conforming_strings", "on"}} {
			x.msg('S', kv[0], kv[1])
		}
		x.msg('K', int32(x.id), int32(x.key))
		x.ready()
	}
	runtime.SimHold(-1)
	x.flush()
	if starting {
		return
	}
	defer func() {
		runtime.SimHold(1)
		x.end()
		runtime.SimHold(-1)
	}()
	for {
		t, err := br.ReadByte()
		if err != nil {
			return
		}
		var h [4]byte
		if _, err := io.ReadFull(br, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:]))
		if n < 4 || n > 64<<20 {
			return
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(br, b); err != nil {
			return
		}
		if t == 'X' || !x.handle(t, b) {
			return
		}
	}
}

type pgReader struct{ b []byte }

func (r *pgReader) str() string {
	i := bytes.IndexByte(r.b, 0)
	if i < 0 {
		sqlFail("08P01", "invalid message format")
	}
	s := string(r.b[:i])
	r.b = r.b[i+1:]
	return s
}

func (r *pgReader) take(n int) []byte {
	if n > len(r.b) || n < 0 {
		sqlFail("08P01", "insufficient data left in message")
	}
	b := r.b[:n]
	r.b = r.b[n:]
	return b
}

func (r *pgReader) i16() int { return int(int16(binary.BigEndian.Uint16(r.take(2)))) }
func (r *pgReader) i32() int { return int(int32(binary.BigEndian.Uint32(r.take(4)))) }

// handle processes one message; false ends the session.
func (x *pgSess) handle(t byte, b []byte) (alive bool) {
	if x.dead {
		return false
	}
	if x.skip && t != 'S' {
		return true
	}
	e := x.guard(func() { alive = x.handle1(t, b) })
	if e != nil {
		alive = x.broke(e, t)
	}
	return alive && !x.dead
}

func (x *pgSess) broke(e *sqlErr, t byte) bool {
	runtime.SimHold(1)
	switch e.code {
	case "42601", "42704", "42883", "0A000", "42804", "08P01":
		if x.pg.s.err == "" && e.msg != "" && !x.dead {
			x.pg.s.err = "the simulated database does not know this SQL: " + e.Error()
		}
	}
	x.pg.s.Ev("pg: session %d: %v", x.id, e)
	x.fail(e)
	if t == 'Q' {
		x.ready()
	} else {
		x.skip = true
	}
	runtime.SimHold(-1)
	x.flush()
	return !e.fatal
}

func (x *pgSess) guard(f func()) (err *sqlErr) {
	defer func() {
		switch v := recover().(type) {
		case nil:
		case *sqlErr:
			err = v
		default:
			panic(v)
		}
	}()
	f()
	return nil
}

var errPgGone = &sqlErr{"57P01", "terminating connection", true}

// step decides whether something fails at this statement.
func (x *pgSess) step(q string) (stop bool) {
	pg := x.pg
	if pg.LatMax > 0 {
		time.Sleep(time.Duration(pg.rng.U64() % uint64(pg.LatMax+1)))
	}
	runtime.SimHold(1)
	pg.steps++
	n := pg.steps
	if pg.OnStmt != nil {
		pg.OnStmt(n, q)
	}
	k := pg.FailAt[n]
	if now := pg.s.Now(); k == 0 && now >= pg.FailFrom && now < pg.FailUntil && pg.rng.PM(pg.FailPM) && len(pg.Kinds) > 0 {
		k = pg.Kinds[pg.rng.N(len(pg.Kinds))]
	}
	if k != 0 {
		pg.s.Fault("pg." + pgKindName[k])
		pg.s.Ev("pg: session %d: %s at %s", x.id, pgKindName[k], q)
		pg.lastFail = pg.s.Now()
		pg.fails++
	}
	runtime.SimHold(-1)
	switch k {
	case pgErrAdmin:
		sqlFailFatal("57P01", "terminating connection due to administrator command")
	case pgErrSerial:
		sqlFail("40001", "could not serialize access due to concurrent update")
	case pgErrDisk:
		sqlFail("53100", "could not extend file: No space left on device")
	case pgErrMem:
		sqlFail("53200", "out of memory")
	case pgErrIO:
		sqlFail("XX000", "could not read block: Input/output error")
	case pgDropBefore:
		runtime.SimHold(1)
		x.end()
		runtime.SimHold(-1)
		x.c.(*simConn).reset(syscall.ECONNRESET)
		return true
	case pgCrashBefore:
		pg.Crash(time.Duration(pg.rng.In(1, 2000)) * time.Millisecond)
		return true
	case pgSlow:
		time.Sleep(time.Duration(pg.rng.In(1, 8000)) * time.Millisecond)
	case pgDropAfter, pgCutReply, pgCrashAfter:
		x.after = k
	}
	return x.dead
}

func sqlFailFatal(code, msg string) { panic(&sqlErr{code, msg, true}) }

// deliver sends the answer, or what a failure leaves of it.
func (x *pgSess) deliver() bool {
	k := x.after
	x.after = 0
	switch k {
	case 0:
		return x.flush() == nil
	case pgCutReply:
		if n := x.out.Len(); n > 1 {
			x.out.Truncate(1 + x.pg.rng.N(n-1))
		}
		x.flush()
		time.Sleep(time.Duration(x.pg.rng.In(0, 50)) * time.Millisecond)
	case pgCrashAfter:
		x.pg.Crash(time.Duration(x.pg.rng.In(1, 2000)) * time.Millisecond)
		return false
	}
	runtime.SimHold(1)
	x.end()
	runtime.SimHold(-1)
	x.c.(*simConn).reset(syscall.ECONNRESET)
	return false
}

func (x *pgSess) handle1(t byte, b []byte) bool {
	r := &pgReader{b}
	switch t {
	case 'Q':
		q := r.str()
		if x.step(q) {
			return false
		}
		runtime.SimHold(1)
		var list []*sqlStmt
		perr := x.guard(func() { list = sqlParse(q) })
		runtime.SimHold(-1)
		if perr != nil {
			panic(perr)
		}
		if len(list) == 0 {
			x.msg('I')
		}
		for _, st := range list {
			x.params, x.poids = nil, nil
			res := x.exec(st)
			x.result(res, nil, st, true)
		}
		x.settle()
		x.ready()
		return x.deliver()
	case 'P':
		name, q := r.str(), r.str()
		n := r.i16()
		var given []int
		for i := 0; i < n; i++ {
			given = append(given, r.i32())
		}
		if x.block && x.failed {
			sqlFail("25P02", "current transaction is aborted, commands ignored until end of transaction block")
		}
		runtime.SimHold(1)
		p := &pgPrep{q: q}
		err := x.guard(func() {
			l := sqlParse(q)
			if len(l) > 1 {
				sqlFail("42601", "cannot insert multiple commands into a prepared statement")
			}
			if len(l) == 1 {
				p.st = l[0]
				p.poids, p.res = x.describe(p.st)
				for i := range p.poids {
					if p.poids[i] == 0 {
						p.poids[i] = oidText
					}
					if i < len(given) && given[i] != 0 {
						p.poids[i] = given[i]
					}
				}
			}
		})
		runtime.SimHold(-1)
		if err != nil {
			panic(err)
		}
		x.stmts[name] = p
		x.msg('1')
	case 'D':
		k := r.take(1)[0]
		name := r.str()
		p := x.stmts[name]
		if k == 'P' {
			p = nil
			if po := x.portal[name]; po != nil {
				p = po.p
			}
		}
		if p == nil {
			sqlFail("26000", "prepared statement %q does not exist", name)
		}
		if k == 'S' {
			var o []byte
			for _, d := range p.poids {
				o = append(o, byte(d>>24), byte(d>>16), byte(d>>8), byte(d))
			}
			x.msg('t', int16(len(p.poids)), o)
		}
		if p.res == nil {
			x.msg('n')
		} else {
			x.rowDesc(p.res, nil)
		}
	case 'B':
		portal, name := r.str(), r.str()
		p := x.stmts[name]
		if p == nil {
			sqlFail("26000", "prepared statement %q does not exist", name)
		}
		var fm []int
		for i, n := 0, r.i16(); i < n; i++ {
			fm = append(fm, r.i16())
		}
		np := r.i16()
		if np != len(p.poids) {
			sqlFail("08P01", "bind message supplies %d parameters, but prepared statement requires %d", np, len(p.poids))
		}
		po := &pgPortal{p: p}
		for i := 0; i < np; i++ {
			n := r.i32()
			if n < 0 {
				po.params = append(po.params, nil)
				continue
			}
			v := r.take(n)
			f := 0
			if len(fm) == 1 {
				f = fm[0]
			} else if i < len(fm) {
				f = fm[i]
			}
			if f == 1 {
				switch p.poids[i] {
				case oidInt4:
					po.params = append(po.params, int64(int32(binary.BigEndian.Uint32(v))))
				case oidInt8:
					po.params = append(po.params, int64(binary.BigEndian.Uint64(v)))
				case oidBytea:
					po.params = append(po.params, append([]byte(nil), v...))
				default:
					po.params = append(po.params, string(v))
				}
				continue
			}
			if bytes.IndexByte(v, 0) >= 0 {
				panic(&sqlErr{code: "22021", msg: "invalid byte sequence for encoding \"UTF8\": 0x00"})
			}
			po.params = append(po.params, sqlConv(string(v), p.poids[i]))
		}
		for i, n := 0, r.i16(); i < n; i++ {
			po.fmts = append(po.fmts, r.i16())
		}
		x.portal[portal] = po
		x.msg('2')
	case 'E':
		po := x.portal[r.str()]
		if po == nil {
			sqlFail("34000", "portal does not exist")
		}
		if x.step(po.p.q) {
			return false
		}
		if po.p.st == nil {
			x.msg('I')
			return true
		}
		x.params, x.poids = po.params, po.p.poids
		x.result(x.exec(po.p.st), po.fmts, po.p.st, false)
	case 'C':
		k, name := r.take(1)[0], r.str()
		if k == 'S' {
			delete(x.stmts, name)
		} else {
			delete(x.portal, name)
		}
		x.msg('3')
	case 'S':
		x.skip = false
		x.settle()
		x.ready()
		return x.deliver()
	case 'H':
		return x.flush() == nil
	default:
		panic(&sqlErr{code: "08P01", msg: fmt.Sprintf("unsupported message %q", t)})
	}
	return true
}

// settle commits the implicit transaction.
func (x *pgSess) settle() {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	if !x.block && x.tx != nil {
		if x.tx.writes > 0 {
			x.pg.s.Ev("pg: session %d commits %d writes", x.id, x.tx.writes)
		}
		x.tx.finish(1)
		x.tx = nil
	}
}

func (x *pgSess) exec(st *sqlStmt) *sqlResult {
	for {
		var res *sqlResult
		var wait *sqlTx
		runtime.SimHold(1)
		err := x.guard(func() { res, wait = x.exec1(st) })
		if wait != nil && err == nil {
			for w := wait; w != nil; w = w.waits {
				if w == x.tx || w == x.now {
					err = &sqlErr{code: "40P01", msg: "deadlock detected"}
					x.pg.s.Probe("pg.deadlock")
					x.pg.fails++
					x.pg.lastFail = x.pg.s.Now()
					break
				}
			}
		}
		runtime.SimHold(-1)
		if err != nil {
			panic(err)
		}
		if wait == nil {
			return res
		}
		x.pg.s.Probe("pg.lock-wait")
		tx := x.tx
		tx.waits = wait
		select {
		case <-wait.done:
		case <-x.gone:
		case <-x.cancel:
			tx.waits = nil
			sqlFail("57014", "canceling statement due to user request")
		}
		tx.waits = nil
		if x.dead {
			panic(errPgGone)
		}
	}
}

func (x *pgSess) exec1(st *sqlStmt) (res *sqlResult, wait *sqlTx) {
	if x.dead {
		panic(errPgGone)
	}
	switch st.kind {
	case "begin":
		if !x.block {
			x.block, x.failed = true, false
			if x.tx == nil {
				x.tx = x.newTx()
			}
		}
		return &sqlResult{tag: "BEGIN"}, nil
	case "commit", "rollback":
		tag := "ROLLBACK"
		if x.tx != nil {
			if st.kind == "commit" && !x.failed {
				tag = "COMMIT"
				if x.tx.writes > 0 {
					x.pg.s.Ev("pg: session %d commits %d writes", x.id, x.tx.writes)
				}
				x.tx.finish(1)
			} else {
				x.tx.finish(2)
			}
		} else if st.kind == "commit" && !x.failed {
			tag = "COMMIT"
		}
		x.tx, x.block, x.failed = nil, false, false
		return &sqlResult{tag: tag}, nil
	}
	if x.block && x.failed {
		sqlFail("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	if x.tx == nil {
		x.tx = x.newTx()
	}
	x.tx.undo = nil
	defer func() {
		switch v := recover().(type) {
		case nil:
			x.tx.undo = nil
		case *sqlWait:
			x.tx.undoStmt()
			wait = v.tx
		default:
			panic(v)
		}
	}()
	return x.run(st), nil
}

func (x *pgSess) rowDesc(res *sqlResult, fmts []int) {
	var b bytes.Buffer
	for i := range res.cols {
		b.WriteString(res.cols[i])
		b.WriteByte(0)
		sz := int16(-1)
		switch res.oids[i] {
		case oidInt4:
			sz = 4
		case oidInt8:
			sz = 8
		case oidBool:
			sz = 1
		}
		for _, v := range []interface{}{int32(0), int16(0), int32(res.oids[i]), sz, int32(-1), int16(pgFmt(fmts, i))} {
			binary.Write(&b, binary.BigEndian, v)
		}
	}
	x.msg('T', int16(len(res.cols)), b.Bytes())
}

func pgFmt(fmts []int, i int) int {
	if len(fmts) == 1 {
		return fmts[0]
	}
	if i < len(fmts) {
		return fmts[i]
	}
	return 0
}

func (x *pgSess) result(res *sqlResult, fmts []int, st *sqlStmt, simple bool) {
	if simple && res.cols != nil {
		x.rowDesc(res, nil)
	}
	for _, row := range res.rows {
		var b bytes.Buffer
		for i, v := range row {
			if v == nil {
				binary.Write(&b, binary.BigEndian, int32(-1))
				continue
			}
			o := pgEncode(v, res.oids[i], pgFmt(fmts, i))
			binary.Write(&b, binary.BigEndian, int32(len(o)))
			b.Write(o)
		}
		x.msg('D', int16(len(row)), b.Bytes())
	}
	x.msg('C', res.tag)
}

func pgEncode(v interface{}, oid, f int) []byte {
	if f == 1 {
		var b [8]byte
		switch y := v.(type) {
		case int64:
			if oid == oidInt4 {
				binary.BigEndian.PutUint32(b[:], uint32(int32(y)))
				return b[:4]
			}
			binary.BigEndian.PutUint64(b[:], uint64(y))
			return b[:]
		case bool:
			if y {
				return []byte{1}
			}
			return []byte{0}
		case []byte:
			return y
		case string:
			return []byte(y)
		}
	}
	switch y := v.(type) {
	case int64:
		return strconv.AppendInt(nil, y, 10)
	case bool:
		if y {
			return []byte("t")
		}
		return []byte("f")
	case []byte:
		return []byte("\\x" + hex.EncodeToString(y))
	case string:
		return []byte(y)
	}
	return nil
}
