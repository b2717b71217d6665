package verifsim

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	log "github.com/sirupsen/logrus"
)

// Scenario "cli": the real command line client, each invocation a process of
// its own, on a disk that fails, tears writes and loses what was not synced,
// against scripted daemons on the simulated network.

func init() {
	scenarios["cli"] = &scenario{gen: genCLI, run: runCLI}
}

const simHome = "/simhome"

const (
	fsNone  = iota
	fsErr   // the operation fails
	fsShort // a write ends early with an error
	fsKill  // the process is killed before the operation, or in the middle of a write
	fsPower // as killed, and what was not synced is lost
)

const (
	cdClose   = iota // messages, then a close frame
	cdFin            // messages, then the connection just ends
	cdReset          // messages, then a reset
	cdRefuse         // nobody listens
	cdReject         // the handshake is refused
	cdMute           // the handshake is never answered
	cdGarbage        // a message that is no JSON object among the others
	cdOther          // unexpected but valid JSON among the others
	cdN
)

func genCLI(r *Rng, p *Plan) {
	c := p.Cfg
	c["frag"] = r.N(4)
	c["lat"] = r.Pick(1, 20, 300)
	add := func(at int, k string, a, b, cc int) { p.Ops = append(p.Ops, Op{at, k, a, b, cc}) }
	at := 0
	fault := func() int {
		if !r.P(40) {
			return 0
		}
		return r.Pick(fsErr, fsErr, fsShort, fsKill, fsKill, fsPower)*100 + r.In(1, 12)
	}
	n := r.Pick(2, 5, 10, 16)
	subs := 0
	for i := 0; i < n; i++ {
		at += 300_000
		switch r.N(8) {
		case 0, 1, 2:
			add(at, "set", r.N(5), r.N(14), fault())
		case 3:
			add(at, "config", r.N(3), r.N(2), fault())
		case 4:
			add(at, "print", 0, 0, r.Pick(0, 0, fault()))
		case 5:
			add(at, "badset", r.N(2), 0, 0)
		default:
			if subs < 3 {
				subs++
				add(at, "config", r.N(3), r.N(2), 0)
				at += 300_000
				add(at, "sub", r.Pick(cdClose, cdClose, cdFin, r.N(cdN)), r.Pick(0, 1, 3, 10, 40), subs)
			}
		}
		if r.P(50) {
			at += 300_000
			add(at, "print", 0, 0, 0)
		}
	}
	rp := NewRng(p.Seed, "paths") // unusual paths
	for i := range p.Ops {
		if p.Ops[i].Kind == "config" && rp.P(35) {
			p.Ops[i].B = rp.N(len(cliPaths))
		}
	}
}

type cliWorld struct {
	s      *Sim
	p      *Plan
	rng    *Rng
	root   string
	states []map[string]string // what the settings may be; nil: never written
	tag    int32
	out    map[int32]*strings.Builder
	code   map[int32]int
	dirty  map[string]bool
	old    map[string][]byte // content replaced by the operation under way
	hadOld map[string]bool
	nop    int
	fKind  int
	fAt    int
	hit    bool // the fault of this invocation happened
	daemon *cliDaemon
}

func runCLI(s *Sim, p *Plan) {
	w := &cliWorld{s: s, p: p, rng: NewRng(s.Seed, "cli"), out: map[int32]*strings.Builder{}, code: map[int32]int{}, dirty: map[string]bool{}, states: []map[string]string{nil}}
	w.root = fmt.Sprintf("%s/verifcli-%010d", os.TempDir(), os.Getpid())
	if err := os.Mkdir(w.root, 0700); err != nil {
		s.err = "scratch: " + err.Error()
		return
	}
	s.cleanup = func() {
		os.SimFile, os.SimOut, os.SimExit = nil, nil, nil
		os.RemoveAll(w.root)
	}
	os.SimFile = w.file
	os.SimOut = func(name string, b []byte) bool {
		t := runtime.SimTag()
		if t == 0 {
			return false
		}
		runtime.SimHold(1)
		if w.out[t] != nil {
			w.out[t].Write(b)
		}
		runtime.SimHold(-1)
		return true
	}
	os.SimExit = func(code int) bool {
		t := runtime.SimTag()
		if t == 0 {
			return false
		}
		w.code[t] = code
		runtime.Goexit()
		return true
	}
	log.SetOutput(os.Stderr)
	w.daemon = newCLIDaemon(w)
	for i := 0; i < 3; i++ {
		s.Net.Links[w.addr(i)] = &Link{LatMin: 100 * time.Microsecond, LatMax: p.D("lat") + 200*time.Microsecond, Frag: p.C("frag"), Window: 1 << 16, Coalesce: 50}
	}
	for _, o := range p.Ops {
		s.At(time.Duration(o.At) * time.Millisecond)
		s.Ev("op %s %d %d %d", o.Kind, o.A, o.B, o.C)
		w.op(o)
	}
	w.print(Op{})
	w.print(Op{})
}

func (w *cliWorld) addr(i int) string { return net.JoinHostPort("10.9.0."+itoa(i+1), "8000") }

var cliPaths = []string{"/neutrino/subscribe/ws", "/other/ws", "/x/", "/a//b", "/a/./b/../c", "/with space/\u00fc", "/q?x=1&y=2", "/p%2Fq", "/x#y", "//h/ws"}
var cliKeys = []string{"url", "path", "foo", "a b", "ключ"}
var cliVals = []string{"x", "10.9.0.1:8000", "10.9.0.2:8000", "/neutrino/subscribe/ws", "/other/ws", "a b", `"quoted"`, `{"a":1}`, "ü€", "<&>", "0", "long", "long2", "tab\tbed"}

func cliVal(i int) string {
	v := cliVals[i%len(cliVals)]
	switch v {
	case "long":
		return strings.Repeat("abcdefghij", 30)
	case "long2":
		return strings.Repeat("xyz,", 2000)
	}
	return v
}

func (w *cliWorld) op(o Op) {
	switch o.Kind {
	case "set":
		k, v := cliKeys[o.A%len(cliKeys)], cliVal(o.B)
		w.change([]string{"config", "set", k, v}, map[string]string{k: v}, o.C)
	case "config":
		u, pa := w.addr(o.A%3), cliPaths[o.B%len(cliPaths)]
		args := []string{"config", "--url", u, "--path", pa}
		if o.A%2 == 1 {
			args = []string{"config", "--path=" + pa, "--url=" + u}
		}
		w.change(args, map[string]string{"url": u, "path": pa}, o.C)
	case "badset":
		args := []string{"config", "set", "url"}[:2+o.A%2]
		_, code, fin := w.invoke(0, args, 0)
		if fin && code == 0 {
			w.s.Fail("C18", "bad-accepted", "config set without a value succeeds")
		}
	case "print":
		w.print(o)
	case "sub":
		w.sub(o)
	default:
		w.s.err = "unknown operation " + o.Kind
	}
}

// invoke runs the client as a process; fin is false if it was killed.
func (w *cliWorld) invoke(copyN int, args []string, fault int) (out string, code int, fin bool) {
	s := w.s
	w.begin(fault)
	tag := w.tag
	done := false
	s.Go(tag, func() {
		defer func() { done = true }()
		os.Args = append([]string{"neutrino"}, args...)
		theCLIs[copyN]()
	})
	if !s.Wait(60*time.Second, func() bool { return done || runtime.SimIsDead(tag) }) {
		s.Fail("C18", "hang", "neutrino %v does not end within a minute", args)
		runtime.SimKill(tag)
	}
	return w.end(tag, args, done)
}

func (w *cliWorld) begin(fault int) {
	w.tag++
	w.out[w.tag] = &strings.Builder{}
	w.nop, w.fKind, w.fAt, w.hit = 0, fault/100, fault%100, false
	w.old, w.hadOld = map[string][]byte{}, map[string]bool{}
}

func (w *cliWorld) end(tag int32, args []string, done bool) (string, int, bool) {
	s := w.s
	if runtime.SimIsDead(tag) {
		s.Net.KillTag(tag)
		if w.fKind == fsPower {
			w.powerLoss()
		}
		s.Ev("neutrino %v: killed", args)
		return "", 0, false
	}
	w.fKind = fsNone
	code := w.code[tag]
	s.Ev("neutrino %v: exit %d", args, code)
	s.State("%v %d", len(args), code)
	s.Probe("cli." + args[0] + map[bool]string{true: ".ok", false: ".error"}[code == 0])
	return w.out[tag].String(), code, done
}

// change is an invocation that changes settings.
func (w *cliWorld) change(args []string, with map[string]string, fault int) {
	s := w.s
	out, code, fin := w.invoke(0, args, fault)
	var after []map[string]string
	for _, st := range w.states {
		n := map[string]string{}
		for k, v := range st {
			n[k] = v
		}
		for k, v := range with {
			n[k] = v
		}
		after = append(after, n)
	}
	if fin && code == 0 {
		w.states = uniqStates(after)
		return
	}
	if fin && !w.hit {
		s.Fail("C18", "set-fails", "neutrino %v fails although nothing is wrong: %s", args, tail(out))
	}
	w.states = uniqStates(append(w.states, after...))
	if fin && w.hit {
		s.Probe("cli.failed-change")
	}
}

func uniqStates(l []map[string]string) (r []map[string]string) {
	for _, a := range l {
		dup := false
		for _, b := range r {
			if (a == nil) == (b == nil) && reflect.DeepEqual(a, b) {
				dup = true
			}
		}
		if !dup {
			r = append(r, a)
		}
	}
	return
}

func tail(s string) string {
	if len(s) > 200 {
		return s[len(s)-200:]
	}
	return s
}

// print lists the settings and compares them with what they may be.
func (w *cliWorld) print(o Op) {
	s := w.s
	out, code, fin := w.invoke(0, []string{"config", "print"}, o.C)
	if !fin {
		return
	}
	if code != 0 {
		for _, st := range w.states {
			if len(st) == 0 {
				return
			}
		}
		if !w.hit {
			s.Fail("C18", "settings-lost", "the settings cannot be read any more: %s", tail(out))
		}
		return
	}
	var ok []map[string]string
	for _, st := range w.states {
		if sameSettings(out, st) {
			ok = append(ok, st)
		}
	}
	if len(ok) == 0 {
		s.Fail("C18", "settings", "the settings printed (%q) are none of the %d they may be, e.g. %s", tail(out), len(w.states), describe(w.states[len(w.states)-1]))
		return
	}
	s.Probe("cli.print.checked")
	w.states = ok
}

func describe(m map[string]string) string {
	b, _ := json.Marshal(m)
	return tail(string(b))
}

func sameSettings(out string, st map[string]string) bool {
	var want, got []string
	for k, v := range st {
		want = append(want, k+": "+v)
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.TrimSpace(l) != "" {
			got = append(got, l)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	return strings.Join(want, "\n") == strings.Join(got, "\n")
}

// --- disk --------------------------------------------------------------------------

func (w *cliWorld) real(name string) string { return w.root + strings.TrimPrefix(name, simHome) }

// file is asked before every file operation of the process.
func (w *cliWorld) file(op, name string, n int) (string, int, error) {
	if !strings.HasPrefix(name, simHome) {
		return name, n, nil
	}
	tag := runtime.SimTag()
	if tag == 0 {
		return w.real(name), n, nil
	}
	runtime.SimHold(1)
	path, k, err, die := w.fileOp(tag, op, name, n)
	runtime.SimHold(-1)
	if die || op != "write" && runtime.SimIsDead(tag) {
		select {}
	}
	return path, k, err
}

func (w *cliWorld) fileOp(tag int32, op, name string, n int) (string, int, error, bool) {
	s := w.s
	path := w.real(name)
	if tag != w.tag || runtime.SimIsDead(tag) {
		return path, n, nil, runtime.SimIsDead(tag)
	}
	switch op {
	case "written":
		return path, n, nil, false
	case "renamed":
		w.dirty[path] = w.dirty[w.real(simHome+"/.moving")]
		delete(w.dirty, w.real(simHome+"/.moving"))
		return path, n, nil, false
	case "renameto": // remember what the rename replaces
		w.keep(path)
		return path, n, nil, false
	}
	w.nop++
	s.Ev("fs %s %s %d", op, filepath.Base(name), n)
	hit := w.fKind != fsNone && w.nop == w.fAt
	if hit {
		w.hit = true
		errno := []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[w.rng.N(3)]
		switch w.fKind {
		case fsErr:
			s.Fault("disk.error." + op)
			return path, 0, errno, false
		case fsShort:
			if op == "write" && n > 0 {
				s.Fault("disk.short-write")
				w.dirty[path] = true
				return path, w.rng.N(n), syscall.ENOSPC, false
			}
			s.Fault("disk.error." + op)
			return path, 0, syscall.ENOSPC, false
		default:
			s.Fault("disk.killed-at." + op)
			runtime.SimKill(tag)
			if op == "write" && n > 0 { // it stops in the middle of the write
				w.dirty[path] = true
				return path, w.rng.N(n), syscall.EIO, false
			}
			return path, 0, syscall.EIO, true
		}
	}
	switch op {
	case "trunc":
		if w.keep(path) {
			w.dirty[path] = true
		}
	case "write":
		w.dirty[path] = true
	case "sync":
		w.dirty[path] = false
	case "rename":
		w.dirty[w.real(simHome+"/.moving")] = w.dirty[path]
		delete(w.dirty, path)
	}
	return path, n, nil, false
}

// keep remembers a file as it was before this invocation replaced it.
func (w *cliWorld) keep(path string) bool {
	b, err := os.ReadFile(path)
	if _, ok := w.hadOld[path]; !ok {
		w.old[path], w.hadOld[path] = b, err == nil
	}
	return err == nil
}

// powerLoss loses what was written and not synced.
func (w *cliWorld) powerLoss() {
	s := w.s
	var l []string
	for p, d := range w.dirty {
		if d {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	for _, p := range l {
		if st, err := os.Stat(p); err == nil {
			os.Truncate(p, int64(w.rng.N(int(st.Size())+1)))
			s.Fault("disk.lost-write")
		}
		w.dirty[p] = false
	}
	l = nil
	for p := range w.hadOld {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l { // the rename itself may not have reached the disk
		if w.hadOld[p] && w.rng.P(30) {
			os.WriteFile(p, w.old[p], 0644)
			s.Fault("disk.lost-rename")
		}
	}
}

// --- the daemon ------------------------------------------------------------------------

type cliDaemon struct {
	w    *cliWorld
	kind int
	msgs [][]byte
	want []string // what has to be shown, in order
	reqs []*cliReq
	ls   []net.Listener
}

type cliReq struct {
	host, path string
	msgs       []string
	sent       int
	ended      time.Duration
	over       bool
}

func newCLIDaemon(w *cliWorld) *cliDaemon { return &cliDaemon{w: w} }

func (d *cliDaemon) listen(addr string) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		panic(err)
	}
	d.ls = append(d.ls, l)
	go (&http.Server{Handler: d}).Serve(l)
}

func (d *cliDaemon) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	s := d.w.s
	q := &cliReq{host: r.Host, path: r.URL.Path}
	d.reqs = append(d.reqs, q)
	defer func() { q.over, q.ended = true, s.Now() }()
	switch d.kind {
	case cdReject:
		s.Fault("daemon.handshake-refused")
		http.Error(rw, "no", d.w.rng.Pick(400, 404, 500, 503))
		return
	case cdMute:
		s.Fault("daemon.mute")
		time.Sleep(10 * time.Minute)
		return
	}
	up := websocket.Upgrader{}
	c, err := up.Upgrade(rw, r, nil)
	if err != nil {
		s.Ev("upgrade: %v", err)
		return
	}
	defer c.Close()
	go func() {
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			q.msgs = append(q.msgs, string(b))
		}
	}()
	s.Wait(30*time.Second, func() bool { return len(q.msgs) > 0 })
	for _, m := range d.msgs {
		if d.w.rng.P(30) {
			time.Sleep(time.Duration(d.w.rng.N(3000)) * time.Millisecond)
		}
		if err := c.WriteMessage(websocket.TextMessage, m); err != nil {
			return
		}
		q.sent++
	}
	switch d.kind {
	case cdClose, cdGarbage, cdOther:
		c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), s.time(time.Second))
		time.Sleep(5 * time.Second)
	case cdFin:
		s.Fault("daemon.connection-ends")
	case cdReset:
		s.Fault("daemon.reset")
		s.Net.ResetAll(c.LocalAddr().String(), true)
	}
}

func (s *Sim) time(d time.Duration) time.Time { return time.Now().Add(d) }

func (w *cliWorld) sub(o Op) {
	s := w.s
	w.print(Op{})
	if len(w.states) != 1 || len(s.viol) > 0 {
		return
	}
	st := w.states[0]
	d := w.daemon
	for _, l := range d.ls {
		l.Close()
	}
	d.ls, d.reqs, d.msgs, d.want = nil, nil, nil, nil
	d.kind = o.A % cdN
	r := NewRng(s.Seed, "sub"+itoa(o.At))
	cut := -1
	for i := 0; i < o.B; i++ {
		if (d.kind == cdGarbage || d.kind == cdOther) && i == o.B/2 {
			g := []string{"no json", "", "{", "[1,2]", "7", `{"txId":7}`, `"text"`, `{"message":{}}`, "\x00\xff"}[r.N(9)]
			if d.kind == cdOther {
				g = []string{"{}", `{"more":[1,2,{"x":null}]}`, "null", `{"txId":"","eventType":""}`}[r.N(4)]
			} else {
				cut = i
			}
			d.msgs = append(d.msgs, []byte(g))
			continue
		}
		if n := len(d.want); n > 0 && cut < 0 && r.P(25) { // the same again: another output of the same transaction
			k := n - 1
			if r.P(40) {
				k = r.N(n)
			}
			for _, b := range d.msgs {
				if strings.Contains(string(b), d.want[k]) {
					d.msgs, d.want = append(d.msgs, b), append(d.want, d.want[k])
					s.Probe("cli.same-again")
					break
				}
			}
			continue
		}
		var m string
		id := fmt.Sprintf("%x", r.Bytes(32))
		switch r.N(8) {
		case 0:
			m = fmt.Sprintf(`{"message":"note %s"}`, id)
		case 1:
			m = fmt.Sprintf(`{"errorMessage":"problem %s"}`, id)
		case 2:
			m = fmt.Sprintf("{\n \"txId\": \"%s\",\n \"eventType\": \"unspentUtxo\", \"extra\": \"%s\" }\n", id, strings.Repeat("y", r.Pick(0, 10, 5000, 70000)))
		default:
			m = fmt.Sprintf(`{"eventType":"unspentUtxo","txId":"%s"}`, id)
		}
		d.msgs = append(d.msgs, []byte(m))
		if cut < 0 {
			d.want = append(d.want, id)
		}
	}
	if d.kind == cdRefuse {
		s.Fault("daemon.absent")
	} else {
		for i := 0; i < 3; i++ {
			d.listen(w.addr(i))
		}
	}
	desc := fmt.Sprintf("elwpkh(%x)", r.Bytes(33))
	if r.P(30) {
		desc = "bad \"desc\" <&>\u00fc"
	}
	height := r.Pick(0, 1, 100, 1<<31-1)
	args := []string{"subscribe", "--descriptor", desc, "--block_height", itoa(height)}
	var evs []string
	for i := r.N(3); i > 0; i-- {
		e := []string{"unspentUtxo", "spentUtxo"}[i%2]
		evs = append(evs, e)
		args = append(args, "--events", e)
	}
	w.begin(0)
	tag := w.tag
	done := false
	t0 := s.Now()
	s.Go(tag, func() {
		defer func() { done = true }()
		os.Args = append([]string{"neutrino"}, args...)
		theCLIs[o.C%len(theCLIs)]()
	})
	s.Wait(200*time.Second, func() bool { return done || (len(d.reqs) > 0 && d.reqs[0].over) })
	s.Wait(30*time.Second, func() bool { return done })
	if !done {
		s.Fail("C18", "subscribe-hang", "subscribe still runs %v after it was started and 30 s after the daemon ended the connection", s.Now()-t0)
		runtime.SimKill(tag)
	}
	out, code, fin := w.end(tag, args, done)
	if !fin {
		return
	}
	if code == 0 {
		s.Fail("C18", "subscribe-success", "subscribe ended with success although the connection was lost")
	}
	s.Probe("cli.sub." + itoa(d.kind))
	target := st["url"]
	known := false
	for i := 0; i < 3; i++ {
		known = known || target == w.addr(i)
	}
	if d.kind == cdRefuse || !known {
		if len(d.reqs) > 0 {
			s.Fail("C18", "target", "subscribe connected to %s, configured is %q", d.reqs[0].host, target)
		}
		return
	}
	if len(d.reqs) != 1 {
		s.Fail("C18", "requests", "subscribe made %d requests to the daemon", len(d.reqs))
		return
	}
	q := d.reqs[0]
	if q.host != target || q.path != st["path"] {
		s.Fail("C18", "target", "subscribe asked %s%s, configured is %s%s", q.host, q.path, target, st["path"])
	}
	if d.kind == cdReject || d.kind == cdMute {
		return
	}
	if len(q.msgs) != 1 {
		s.Fail("C18", "registration", "subscribe sent %d messages", len(q.msgs))
		return
	}
	var got struct {
		ActionType       string   `json:"actionType"`
		EventTypes       []string `json:"eventTypes"`
		DescriptorWallet string   `json:"descriptorWallet"`
		StartBlockHeight int      `json:"startBlockHeight"`
	}
	if err := json.Unmarshal([]byte(q.msgs[0]), &got); err != nil || got.ActionType != "register" || got.DescriptorWallet != desc || got.StartBlockHeight != height || strings.Join(got.EventTypes, ",") != strings.Join(evs, ",") {
		s.Fail("C18", "registration", "subscribe %v sent the registration %s", args[1:], tail(q.msgs[0]))
	}
	var seen []string // what is shown, in order
	all := map[string]bool{}
	for _, id := range d.want {
		all[id] = true
	}
	for i := 0; i+64 <= len(out); {
		if id := out[i : i+64]; all[id] {
			seen = append(seen, id)
			i += 64
		} else {
			i++
		}
	}
	shown := 0
	for shown < len(seen) && shown < len(d.want) && seen[shown] == d.want[shown] {
		shown++
	}
	if shown < len(seen) {
		s.Fail("C18", "order", "the daemon sent %d messages; what is shown as number %d of %d is another one, shown too often or out of order", len(d.want), shown, len(seen))
		return
	}
	if shown < len(d.want) && d.kind != cdReset {
		s.Fail("C18", "not-shown", "message %d of %d of the daemon is not shown", shown, len(d.want))
	}
	s.Count("cli.shown", shown)
}
