#!/usr/bin/env python3
"""Generate the patched copies of the Go standard library files that turn the
Go runtime into a deterministic simulator, plus the overlay JSON for
`go build -overlay`.

usage: mkoverlay.py GOROOT OUTDIR REPO VERIF [INSTR]

INSTR is the program built from sim/instr: with it the repository's own sources
get a scheduling point in front of every statement.

Nothing in GOROOT or in the repository is modified.  Every edit is anchored on
a text which has to occur exactly once (or an expected number of times); a
different Go version makes the build stop with a clear message instead of
silently producing a simulator with missing seams.
"""
import re
import json, os, subprocess, sys

goroot, out, repo, verif = [os.path.abspath(a) for a in sys.argv[1:5]]
src = os.path.join(goroot, "src")
replace = {}
instr = os.path.abspath(sys.argv[5]) if len(sys.argv) > 5 else None


def die(msg):
    sys.stderr.write("mkoverlay: %s\n" % msg)
    sys.exit(2)


class F:
    def __init__(self, rel):
        self.rel = rel
        with open(os.path.join(src, rel)) as f:
            self.t = f.read()

    def sub(self, old, new, count=1):
        n = self.t.count(old)
        if n != count:
            die("%s: anchor %r occurs %d times, expected %d" % (self.rel, old[:70], n, count))
        self.t = self.t.replace(old, new)
        return self

    def after(self, old, new, count=1):
        return self.sub(old, old + new, count)

    def before(self, old, new, count=1):
        return self.sub(old, new + old, count)

    def done(self):
        put(self.rel, self.t)


def put(rel, text):
    p = os.path.join(out, "go", rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    old = None
    if os.path.exists(p):
        with open(p) as f:
            old = f.read()
    if old != text:
        with open(p, "w") as f:
            f.write(text)
    replace[os.path.join(src, rel)] = p


def add(rel, name):
    """add a file kept in this directory to a standard package"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), name)) as f:
        put(rel, f.read())


# --- runtime: virtual time ------------------------------------------------
add("runtime/time_fake.go", "runtime_time_fake.go")
put("syscall/time_fake.go", """//go:build faketime

package syscall

const faketime = false

func faketimeWrite(fd int, p []byte) int { panic("not implemented") }
""")

# --- runtime: scheduler -----------------------------------------------------
add("runtime/zsim.go", "runtime_zsim.go")

f = F("runtime/proc.go")
f.sub("const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false")
f.sub("		procs = defaultGOMAXPROCS(numCPUStartup)\n", "		procs = 1\n")
f.sub("	if procresize(procs) != nil {\n		throw(\"unknown runnable goroutine during bootstrap\")",
      "	procs = 1\n	sched.customGOMAXPROCS = true\n	if procresize(procs) != nil {\n		throw(\"unknown runnable goroutine during bootstrap\")")
f.sub("	if pp.schedtick%61 == 0 && !sched.runq.empty() {\n		lock(&sched.lock)\n		gp := globrunqget()",
      "	if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {\n		lock(&sched.lock)\n		gp := globrunqget()")
f.before("	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq\n",
         "	if simOn {\n		if gp := simPick(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n")
f.sub("		if when := timeSleepUntil(); when < maxWhen {\n			faketime = when\n",
      "		if when := timeSleepUntil(); when < maxWhen {\n			if when > faketime {\n				faketime = when\n				simIdle++\n			}\n")
f.sub("	gp.preempt = false\n	gp.stackguard0 = gp.stack.lo + stackGuard\n	if !inheritTime {",
      "	gp.preempt = false\n	gp.stackguard0 = gp.stack.lo + stackGuard\n	if simOn {\n		simArm(gp)\n	}\n	if !inheritTime {")
f.sub("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simTag = callergp.simTag\n	newg.simMu = 0\n	newg.simHold = 0\n	newg.simBits = 0\n	newg.simMapW = false\n")
# with one P and the simulator choosing, spinning other Ms is never useful
f.sub("	if mp.spinning || 2*sched.nmspinning.Load() < gomaxprocs-sched.npidle.Load() {",
      "	if !simOn && (mp.spinning || 2*sched.nmspinning.Load() < gomaxprocs-sched.npidle.Load()) {")
f.done()

f = F("runtime/runtime2.go")
f.sub("	valgrindStackID uintptr\n}", "	valgrindStackID uintptr\n\n	simTag  int32 // simulated process this goroutine belongs to\n	simMu   int32 // sync mutexes held\n	simHold int32\n	simBits uint32 // scheduling priority\n	simMapW bool   // stop at the next map write\n}")
f.done()

f = F("runtime/time.go")
f.sub("			t.rand = cheaprand()\n", "			t.rand = uint32(simRandAux() >> 17)\n")
f.sub("	isSending atomic.Int32\n}", "	isSending atomic.Int32\n\n	simTag int32\n}")
f.sub("	t.modify(when, period, f, arg, 0)\n	t.init = true\n	return t", "	t.simTag = getg().simTag\n	t.modify(when, period, f, arg, 0)\n	t.init = true\n	return t")
f.sub("	f(arg, seq, delay)\n", "	simg := getg()\n	simold := simg.simTag\n	simg.simTag = t.simTag\n	f(arg, seq, delay)\n	simg.simTag = simold\n")
f.done()

f = F("runtime/rand.go")
f.sub("func rand() uint64 {\n", "func rand() uint64 {\n	if simOn {\n		return simRandAux()\n	}\n")
# cheaprand stays as it is: the runtime's own locks draw from it at moments that depend on real time
f.sub("	if len(startupRand) >= 16 &&", "	startupRand = nil\n	if true {\n		for i := range seed {\n			seed[i] = byte(i*37 + 11)\n		}\n	} else if len(startupRand) >= 16 &&")
f.done()

f = F("runtime/chan.go")
f.sub("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
      "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	if simOn {\n		simYield()\n	}\n")
f.sub("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
      "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	if simOn {\n		simYield()\n	}\n")
f.sub("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	if simOn {\n		simYield()\n	}\n")
f.done()

f = F("runtime/select.go")
f.sub("		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if simOn {\n			j = uint32(simRandAux()>>33) % uint32(norder+1)\n		}\n")
f.sub("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
      "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	if simOn {\n		simYield()\n	}\n")
f.done()

f = F("runtime/map.go")
f.sub("	it.Init(t, m)\n	it.Next()\n}\n\n// mapIterNext", "	it.Init(t, m)\n	it.Next()\n	if simOn {\n		simYieldMap()\n	}\n}\n\n// mapIterNext")
f.sub("	it.Next()\n}\n\n// mapclear", "	if simOn {\n		simYieldMap()\n	}\n	it.Next()\n}\n\n// mapclear")
f.done()

f = F("runtime/panic.go")
f.sub("func gopanic(e any) {\n", "func gopanic(e any) {\n	if simOn {\n		simDeadPark()\n	}\n")
f.sub("func maps_fatal(s string) {\n", "func maps_fatal(s string) {\n	if simOn {\n		simDeadPark()\n	}\n")
f.done()

for name, cnt in (("map.go", 3), ("runtime.go", 1), ("runtime_fast32.go", 2), ("runtime_fast64.go", 2), ("runtime_faststr.go", 1)):
    f = F("internal/runtime/maps/" + name)
    f.after("	m.writing ^= 1 // toggle, see comment on writing\n", "	simYieldMap()\n", cnt)
    f.done()
put("internal/runtime/maps/zsim.go", """package maps

import _ "unsafe"

//go:linkname simYieldMap
func simYieldMap()
""")

# --- sync: preemption points around lock operations ---------------------------
f = F("sync/mutex.go")
f.sub("func (m *Mutex) Lock() {\n	m.mu.Lock()\n}", "func (m *Mutex) Lock() {\n	runtime_simYield()\n	m.mu.Lock()\n	runtime_simMu(1)\n}")
f.sub("func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n}", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	runtime_simMu(-1)\n	runtime_simYield()\n}")
f.sub("	return m.mu.TryLock()\n", "	if m.mu.TryLock() {\n		runtime_simMu(1)\n		return true\n	}\n	return false\n")
f.done()
f = F("sync/rwmutex.go")
f.sub("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYield()\n	runtime_simMu(1)\n")
f.sub("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	runtime_simMu(-1)\n	runtime_simYield()\n")
f.done()
put("sync/zsim.go", """package sync

import _ "unsafe"

//go:linkname runtime_simYield
func runtime_simYield()

//go:linkname runtime_simMu
func runtime_simMu(d int32)
""")

# --- randomness ----------------------------------------------------------------
f = F("crypto/internal/sysrand/rand.go")
f.sub("func Read(b []byte) {\n", "func Read(b []byte) {\n	simRead(b)\n}\n\n//go:linkname simRead\nfunc simRead(b []byte)\n\nfunc realRead(b []byte) {\n")
f.done()

# --- net: dial and listen go to the simulated network ----------------------------
f = F("net/dial.go")
f.sub("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
      """func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		sctx, scancel := d.dialCtx(ctx)
		defer scancel()
		c, err := SimDial(sctx, network, address)
		if err != nil {
			return nil, &OpError{Op: "dial", Net: network, Source: nil, Addr: simAddr(address), Err: err}
		}
		return c, nil
	}
""")
f.sub("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
      """func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if SimListen != nil {
		l, err := SimListen(network, address)
		if err != nil {
			return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: simAddr(address), Err: err}
		}
		return l, nil
	}
""")
f.done()
put("net/zsim.go", """package net

import "context"

// SimDial and SimListen, when set, replace the operating system's network.
var (
	SimDial   func(ctx context.Context, network, address string) (Conn, error)
	SimListen func(network, address string) (Listener, error)
)

type simAddr string

func (simAddr) Network() string  { return "tcp" }
func (a simAddr) String() string { return string(a) }
""")

# --- os/signal: process signals are delivered by the simulator ----------------------
put("os/signal/zsim.go", """package signal

import "os"

// SimNotify, when set, replaces the delivery of operating system signals.
var SimNotify func(c chan<- os.Signal, sig ...os.Signal)
""")
f = F("os/signal/signal.go")
f.sub("func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if SimNotify != nil {\n		SimNotify(c, sig...)\n		return\n	}\n")
f.done()

# --- files, standard output and exit of simulated processes ----------------------------
put("os/user/zsim.go", """package user

func simCurrent() *User {
	return &User{Uid: "1000", Gid: "1000", Username: "sim", HomeDir: "/simhome"}
}
""")
f = F("os/user/lookup_stubs.go")
f.sub("func current() (*User, error) {\n", "func current() (*User, error) {\n	if u := simCurrent(); u != nil {\n		return u, nil\n	}\n")
f.done()
put("os/zsim.go", """package os

// SimExit, when set, decides whether Exit ends the process (false).
var SimExit func(code int) bool

// SimFile, when set, is asked before every operation on a file.  It returns the
// path to use instead of name, how many of n bytes are written, and an error.
var SimFile func(op, name string, n int) (path string, k int, err error)

// SimOut, when set, may take what is written to standard output and error.
var SimOut func(name string, b []byte) bool

func simFile(op, name string) (string, error) {
	if SimFile == nil {
		return name, nil
	}
	path, _, err := SimFile(op, name, 0)
	if err != nil {
		return name, &PathError{Op: op, Path: name, Err: err}
	}
	return path, nil
}
""")
f = F("os/proc.go")
f.sub("func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil && SimExit(code) {\n		return\n	}\n")
f.done()
f = F("os/file.go")
f.sub("	f, err := openFileNolog(name, flag, perm)\n	if err != nil {\n		return nil, err\n	}\n	f.appendMode",
      "	op := \"open\"\n	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {\n		op = \"openw\"\n	}\n	if flag&O_TRUNC != 0 {\n		op = \"trunc\"\n	}\n	path, err := simFile(op, name)\n	if err != nil {\n		return nil, err\n	}\n"
      "	f, err := openFileNolog(path, flag, perm)\n	if err != nil {\n		return nil, err\n	}\n	f.name = name\n	f.appendMode")
f.sub("	n, e := f.write(b)\n",
      "	if SimOut != nil && (f == Stdout || f == Stderr) && SimOut(f.name, b) {\n		return len(b), nil\n	}\n"
      "	if SimFile != nil {\n		_, k, err := SimFile(\"write\", f.name, len(b))\n		if k < len(b) || err != nil {\n			k, _ = f.write(b[:k])\n			SimFile(\"written\", f.name, k)\n			return k, &PathError{Op: \"write\", Path: f.name, Err: err}\n		}\n	}\n"
      "	n, e := f.write(b)\n	if SimFile != nil {\n		SimFile(\"written\", f.name, n)\n	}\n")
f.sub("	longName := fixLongPath(name)\n	e := ignoringEINTR(func() error {\n		return syscall.Mkdir(longName",
      "	path, err := simFile(\"mkdir\", name)\n	if err != nil {\n		return err\n	}\n	longName := fixLongPath(path)\n	e := ignoringEINTR(func() error {\n		return syscall.Mkdir(longName")
f.sub("	return rename(oldpath, newpath)\n",
      "	o, err := simFile(\"rename\", oldpath)\n	if err != nil {\n		return err\n	}\n	p, err := simFile(\"renameto\", newpath)\n	if err != nil {\n		return err\n	}\n"
      "	if err := rename(o, p); err != nil {\n		return err\n	}\n	simFile(\"renamed\", newpath)\n	return nil\n")
f.done()
f = F("os/file_posix.go")
f.sub("	if e := f.pfd.Fsync(); e != nil {", "	if _, err := simFile(\"sync\", f.name); err != nil {\n		return err\n	}\n	if e := f.pfd.Fsync(); e != nil {")
f.done()
f = F("os/file_unix.go")
f.sub("func Remove(name string) error {\n", "func Remove(name string) error {\n	name, err := simFile(\"remove\", name)\n	if err != nil {\n		return err\n	}\n")
f.done()
f = F("os/stat.go")
f.sub("	return statNolog(name)\n", "	path, err := simFile(\"stat\", name)\n	if err != nil {\n		return nil, err\n	}\n	return statNolog(path)\n")
f.sub("	return lstatNolog(name)\n", "	path, err := simFile(\"stat\", name)\n	if err != nil {\n		return nil, err\n	}\n	return lstatNolog(path)\n")
f.done()

# --- the harness becomes packages of the repository's own module -----------------
for root, dirs, files in os.walk(os.path.join(verif, "sim", "harness")):
    rel = os.path.relpath(root, os.path.join(verif, "sim", "harness"))
    for n in files:
        if n.endswith(".go"):
            replace[os.path.normpath(os.path.join(repo, "internal", "verifsim", rel, n))] = os.path.join(root, n)

# --- the repository's own sources, with scheduling points -----------------------
instrumented = {}
if instr:
    lst = []
    for top in ("cmd", "internal", "pkg"):
        for root, dirs, files in os.walk(os.path.join(repo, top)):
            dirs.sort()
            if "verifsim" in root:
                continue
            for n in sorted(files):
                if n.endswith(".go") and not n.endswith("_test.go"):
                    lst.append((os.path.join(root, n), os.path.join(out, "i%03d_%s" % (len(lst), n))))
    r = subprocess.run([instr], input="".join("%s\t%s\n" % x for x in lst), capture_output=True, text=True)
    if r.returncode:
        die("instr: " + r.stderr[-500:])
    for line in r.stdout.split("\n"):
        x = line.split("\t")
        if len(x) == 2 and x[0] != "sites":
            instrumented[x[0]] = x[1]
            replace[os.path.normpath(x[0])] = x[1]
        elif x[0] == "sites":
            with open(os.path.join(out, "sites"), "w") as f:
                f.write(x[1])


def source(path):
    with open(instrumented.get(path, path)) as f:
        return f.read()


# --- the daemon's main becomes an ordinary function --------------------------------
cmd = os.path.join(repo, "cmd", "neutrinod")
for n in sorted(os.listdir(cmd)):
    if n.endswith(".go") and not n.endswith("_test.go"):
        text = source(os.path.join(cmd, n))
        new = re.sub(r"(?m)^func main\(\)", "func neutrinodMain()", text)
        if new != text:
            t = os.path.join(out, "neutrinod_" + n)
            with open(t, "w") as f:
                f.write(new)
            replace[os.path.normpath(os.path.join(cmd, n))] = t
# --- the command line client becomes several packages: one fresh copy per process ---------
CLIS = 4
cli = os.path.join(repo, "cmd", "neutrino")
for k in range(CLIS):
    pkg = "verifcli%d" % k
    d = os.path.join(repo, "internal", pkg)
    for n in sorted(os.listdir(cli)):
        if n.endswith(".go") and not n.endswith("_test.go"):
            text = re.sub(r"(?m)^package main\b", "package " + pkg, source(os.path.join(cli, n)), count=1)
            t = os.path.join(out, "%s_%s" % (pkg, n))
            with open(t, "w") as f:
                f.write(text)
            replace[os.path.normpath(os.path.join(d, n))] = t
    t = os.path.join(out, pkg + "_zverif.go")
    with open(t, "w") as f:
        f.write("package %s\n\nfunc Main() { main() }\n" % pkg)
    replace[os.path.normpath(os.path.join(d, "zverif_sim.go"))] = t

zs = os.path.join(out, "zverif_sim.go")
with open(zs, "w") as f:
    f.write("""package main

import (
	"github.com/vulpemventures/neutrino-elements/internal/verifsim"
""")
    for k in range(CLIS):
        f.write('	"github.com/vulpemventures/neutrino-elements/internal/verifcli%d"\n' % k)
    f.write(""")

func main() { verifsim.Main(neutrinodMain, %s) }
""" % ", ".join("verifcli%d.Main" % k for k in range(CLIS)))
replace[os.path.normpath(os.path.join(cmd, "zverif_sim.go"))] = zs

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1, sort_keys=True)
