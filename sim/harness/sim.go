package verifsim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

// Op is one timed step of a plan.
type Op struct {
	At   int    `json:"at"` // milliseconds of simulated time
	Kind string `json:"k"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
}

// Plan is everything a run depends on besides the code.
type Plan struct {
	Scenario string         `json:"scenario"`
	Seed     uint64         `json:"seed"`
	Profile  string         `json:"profile"`
	Cfg      map[string]int `json:"cfg"`
	Ops      []Op           `json:"ops"`
	Limit    uint64         `json:"limit,omitempty"` // scheduling noise stops after so many decisions
}

func (p *Plan) C(k string) int { return p.Cfg[k] }

func (p *Plan) D(k string) time.Duration { return time.Duration(p.Cfg[k]) * time.Millisecond }

func (p *Plan) sortOps() {
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].At < p.Ops[j].At })
}

type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	At    int64  `json:"at_ms"`
}

type Result struct {
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Viol      []Violation    `json:"viol"`
	Probes    map[string]int `json:"probes"`
	Faults    map[string]int `json:"faults"`
	Counts    map[string]int `json:"counts"`
	Ops       int            `json:"ops"`
	SimMs     int64          `json:"sim_ms"`
	Picks     uint64         `json:"picks"`
	Switches  uint64         `json:"switches"`
	Yields    uint64         `json:"yields"`
	Stalls    uint64         `json:"stalls"`
	SchedHash string         `json:"sched_hash"`
	EvHash    string         `json:"ev_hash"`
	StateHash string         `json:"state_hash"`
	Err       string         `json:"err,omitempty"`
	HeapMB    int            `json:"heap_mb"`
}

// Sim is one simulated execution.
type Sim struct {
	cleanup func()
	Seed    uint64
	Plan    *Plan
	Net     *Net
	start   time.Time
	mu      holdMutex
	probes  map[string]int
	faults  map[string]int
	counts  map[string]int
	viol    []Violation
	seen    map[string]bool
	evHash  uint64
	stHash  uint64
	trace   *bufio.Writer
	out     *os.File
	sigs    map[int32][]chan<- os.Signal
	quiet   bool
	only    map[string]bool // the only properties this run decides
	err     string
}

func (s *Sim) Now() time.Duration { return time.Since(s.start) }

func (s *Sim) ms() int64 { return int64(s.Now() / time.Millisecond) }

func (s *Sim) Probe(name string) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	s.probes[name]++
}

func (s *Sim) Fault(name string) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	s.faults[name]++
}

func (s *Sim) Count(name string, n int) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	s.counts[name] += n
}

// Ev adds an event to the run's event log.
func (s *Sim) Ev(format string, args ...interface{}) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	msg := fmt.Sprintf("%d %s", int64(s.Now()), fmt.Sprintf(format, args...))
	for i := 0; i < len(msg); i++ {
		s.evHash = (s.evHash ^ uint64(msg[i])) * 1099511628211
	}
	if s.trace != nil {
		fmt.Fprintf(s.trace, "%12.6f %s\n", s.Now().Seconds(), fmt.Sprintf(format, args...))
		s.trace.Flush()
	}
}

// State mixes a notable state into the run's state hash.
func (s *Sim) State(format string, args ...interface{}) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	msg := fmt.Sprintf(format, args...)
	for i := 0; i < len(msg); i++ {
		s.stHash = (s.stHash ^ uint64(msg[i])) * 1099511628211
	}
}

// Fail records a violation of a property.
func (s *Sim) Fail(prop, class, format string, args ...interface{}) {
	runtime.SimHold(1)
	defer runtime.SimHold(-1)
	if s.quiet || s.seen[prop+class] || (s.only != nil && !s.only[prop]) {
		return
	}
	s.seen[prop+class] = true
	v := Violation{prop, class, fmt.Sprintf(format, args...), s.ms()}
	s.viol = append(s.viol, v)
	s.Ev("VIOLATION %s %s %s", prop, class, v.Msg)
	b, _ := json.Marshal(v)
	fmt.Fprintf(s.out, "V %s\n", b)
	if os.Getenv("SIMSTACK") != "" { // for the reader of a replay
		st := make([]byte, 1<<20)
		os.Stderr.Write(st[:runtime.Stack(st, true)])
	}
}

// Go starts f in simulated process tag.
func (s *Sim) Go(tag int32, f func()) {
	go func() {
		runtime.SimSetTag(tag)
		f()
	}()
}

// Call runs f in simulated process tag and reports whether it returned within d.
func (s *Sim) Call(tag int32, d time.Duration, f func()) bool {
	done := make(chan struct{})
	s.Go(tag, func() {
		f()
		close(done)
	})
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// Wait polls cond for at most d of simulated time.
func (s *Sim) Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	step := 5 * time.Millisecond
	for {
		if cond() {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(step)
		if step < 500*time.Millisecond {
			step += step / 2
		}
	}
}

func (s *Sim) Sleep(d time.Duration) { time.Sleep(d) }

// At waits until d after the start of the run.
func (s *Sim) At(d time.Duration) {
	if w := d - s.Now(); w > 0 {
		time.Sleep(w)
	}
}

type scenario struct {
	gen func(r *Rng, p *Plan)
	run func(s *Sim, p *Plan)
}

var scenarios = map[string]*scenario{}

func schedCfg(r *Rng, p *Plan) {
	c := p.Cfg
	c["mode"] = r.Pick(0, 0, 1, 2, 3, 3)
	c["yield"] = r.Pick(0, 2000, 8000, 20000)
	c["map"] = r.Pick(0, 6000, 20000)
	c["arm"] = r.Pick(0, 0, 200, 2000)
	c["stall"] = r.Pick(0, 0, 0, 200, 2000)
	c["stallmax"] = r.Pick(1, 20, 400, 4000) // milliseconds
	c["pickcost"] = r.Pick(200, 2000, 20000)
	// points between the statements of the code under test
	q := NewRng(p.Seed, "points")
	c["pt"] = q.Pick(0, 0, 1000, 4000, 16000, 65536)
	c["ptppm"] = q.Pick(4000, 16000, 40000)
	c["ptmax"] = q.Pick(0, 100, 1000, 5000) // microseconds
}

func Generate(name, profile string, seed uint64) *Plan {
	sc := scenarios[name]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", name)
		os.Exit(3)
	}
	p := &Plan{Scenario: name, Seed: seed, Profile: profile, Cfg: map[string]int{}}
	r := NewRng(seed, "plan/"+name+"/"+profile)
	schedCfg(r, p)
	sc.gen(r, p)
	p.sortOps()
	return p
}

var (
	theDaemonMain func()
	theCLIs       []func()
)

// Main is the entry point of the simulation binary.
func Main(daemon func(), clis ...func()) {
	theDaemonMain, theCLIs = daemon, clis
	debug.SetTraceback("all")
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: sim plan SCENARIO PROFILE SEED | run SCENARIO PROFILE SEED [trace] | replay FILE [trace]")
		os.Exit(3)
	}
	die := func(err error) {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(3)
	}
	switch args[0] {
	case "plan", "run":
		if len(args) < 4 {
			die(fmt.Errorf("arguments missing"))
		}
		seed, err := strconv.ParseUint(args[3], 10, 64)
		if err != nil {
			die(err)
		}
		p := Generate(args[1], args[2], seed)
		if args[0] == "plan" {
			b, _ := json.Marshal(p)
			fmt.Println(string(b))
			os.Exit(0)
		}
		os.ReadFile(os.Getenv("SIMREPO") + "/go.mod")
		q, err := sameStart(p)
		if err != nil {
			die(err)
		}
		runPlan(q, len(args) > 4)
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			die(err)
		}
		p := &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			die(err)
		}
		q, err := sameStart(p)
		if err != nil {
			die(err)
		}
		runPlan(q, len(args) > 2)
	case "list":
		var l []string
		for k := range scenarios {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		os.Exit(0)
	default:
		die(fmt.Errorf("unknown command %q", args[0]))
	}
}

// sameStart makes a run and the replay of its plan start in the same state: the
// plan is written and read again, as this fills the caches of encoding/json, and
// a file has been read before, which starts the runtime's poller.
func sameStart(p *Plan) (*Plan, error) {
	b, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		return nil, err
	}
	if q.Cfg == nil {
		q.Cfg = map[string]int{}
	}
	return q, nil
}

const simStart = int64(1_700_000_000_000_000_000)

func runPlan(p *Plan, trace bool) {
	sc := scenarios[p.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "sim: unknown scenario", p.Scenario)
		os.Exit(3)
	}
	s := &Sim{Seed: p.Seed, Plan: p, probes: map[string]int{}, faults: map[string]int{}, counts: map[string]int{},
		seen: map[string]bool{}, out: os.Stdout, sigs: map[int32][]chan<- os.Signal{}, evHash: 14695981039346656037, stHash: 14695981039346656037}
	log.SetOutput(io.Discard)
	if trace {
		s.trace = bufio.NewWriter(os.Stderr)
		if os.Getenv("SIMLOG") != "" {
			log.SetOutput(os.Stderr)
			log.SetLevel(log.DebugLevel)
		}
	}
	limit := p.Limit
	if limit == 0 {
		limit = 1 << 62
	}
	runtime.SimStart(&runtime.SimConfig{
		Seed: p.Seed, Mode: uint32(p.C("mode")), Yield: uint64(p.C("yield")), Map: uint64(p.C("map")), Arm: uint64(p.C("arm")),
		Stall: uint64(p.C("stall")), StallMax: int64(p.C("stallmax"))*1e6 + 1, PickCost: int64(p.C("pickcost")),
		PtSel: uint64(p.C("pt")), PtPpm: uint64(p.C("ptppm")), PtMax: int64(p.C("ptmax")) * 1000,
		Limit: limit, StartTime: simStart, Trace: trace && os.Getenv("SIMPICKS") != "",
	})
	s.start = time.Now()
	s.Net = NewNet(s)
	net.SimDial = s.Net.Dial
	net.SimListen = s.Net.Listen
	signal.SimNotify = func(c chan<- os.Signal, sig ...os.Signal) {
		runtime.SimHold(1)
		defer runtime.SimHold(-1)
		t := runtime.SimTag()
		s.sigs[t] = append(s.sigs[t], c)
	}
	go s.watchdog()
	sc.run(s, p)
	s.finish()
}

// watchdog turns a run that never gets anywhere into a verdict.
func (s *Sim) watchdog() {
	for {
		time.Sleep(time.Second)
		if s.Now() > 48*time.Hour {
			s.err = "simulated time limit"
			s.finish()
		}
	}
}

// Signal delivers a process signal to simulated process tag.
func (s *Sim) Signal(tag int32, sig syscall.Signal) bool {
	ok := false
	for _, c := range s.sigs[tag] {
		select {
		case c <- sig:
			ok = true
		default:
		}
	}
	return ok
}

func (s *Sim) finish() {
	st := runtime.SimGetStats()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	r := Result{
		Scenario: s.Plan.Scenario, Seed: s.Seed, Viol: s.viol, Probes: s.probes, Faults: s.faults, Counts: s.counts,
		Ops: len(s.Plan.Ops), SimMs: s.ms(), Picks: st.Picks, Switches: st.Switches, Yields: st.Yields, Stalls: st.Stalls,
		SchedHash: fmt.Sprintf("%016x", st.Hash), EvHash: fmt.Sprintf("%016x", s.evHash), StateHash: fmt.Sprintf("%016x", s.stHash),
		Err: s.err, HeapMB: int(ms.HeapSys >> 20),
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(3)
	}
	if s.cleanup != nil {
		s.cleanup()
	}
	fmt.Fprintf(s.out, "R %s\n", b)
	if s.trace != nil {
		s.trace.Flush()
	}
	os.Exit(0)
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }

func short(b []byte) string {
	if len(b) > 12 {
		return fmt.Sprintf("%x..(%d)", b[:12], len(b))
	}
	return hexs(b)
}
