package runtime

import (
	"internal/runtime/atomic"
	"internal/runtime/sys"
	"unsafe"
)

// Deterministic simulation support.
//
// With simOn set the whole process is one simulation: one P, no preemption
// other than at the yield points below, virtual time (see time_fake.go), and
// a seeded pseudo-random choice of the next goroutine to run at every
// scheduling decision.

var (
	simOn   bool
	simWall int64 // wall clock minus monotonic clock (clock jumps)

	simState    uint64 // scheduling decisions
	simAux      uint64 // map iteration order, select order, math/rand seeds ...
	simRnd      uint64 // crypto/rand
	simPicks    uint64 // scheduling decisions taken
	simSwitches uint64 // decisions with more than one choice
	simYields   uint64 // voluntary preemptions
	simStalls   uint64
	simHashV    uint64
	simIdle     uint64 // times virtual time jumped because everything was idle
	simMaxQ     int
	simLimit    uint64 // after so many random decisions the schedule becomes FIFO
	simPanics   uint64

	simMode     uint32 // 0 uniform, 1 fifo with preemptions, 2 lifo-ish, 3 random priorities
	simYieldPpm uint64 // probability (1/65536) of a preemption at a yield point
	simMapPpm   uint64 // probability of a preemption inside a map operation
	simArmPpm   uint64 // probability of a preemption at the next function call
	simStallPpm uint64 // probability (1/2^24) of a stall at a yield point
	simStallMax int64
	simPickCost int64
	simDeadMask uint64
	simTrace    bool
	simT0       int64

	// points in front of the statements of the code under test
	simPtOn      bool
	simPtSel     uint64 // share (1/65536) of the points at which anything happens in this run
	simPtPpm     uint64 // probability (1/65536) that it happens
	simPtSeed    uint64
	simPtMax     uint64 // longest pause
	simPtSleeps  int
	simMapSleeps int
	simMapMax    uint64
	simMapLong   int
	simPtYields  int
	simPtHits    [1 << 14]uint16

	simQ  [1 << 16]guintptr
	simQn int
)

// a run with more scheduling decisions than any sane one takes makes no progress
const simMaxPicks = 12_000_000

// SimConfig configures the simulated scheduler.
type SimConfig struct {
	Seed      uint64
	Mode      uint32
	Yield     uint64
	Map       uint64
	Arm       uint64
	Stall     uint64
	StallMax  int64
	PickCost  int64
	Limit     uint64
	StartTime int64
	Trace     bool
	PtSel     uint64
	PtPpm     uint64
	PtMax     int64
}

type SimStats struct {
	Picks, Switches, Yields, Stalls, Hash, Idle uint64
	MaxQueue                                    int
	Now                                         int64
}

func SimStart(c *SimConfig) {
	simState = simMix(c.Seed ^ 0x9e3779b97f4a7c15)
	simAux = simMix(c.Seed ^ 0x5851f42d4c957f2d)
	simRnd = simMix(c.Seed ^ 0xd1342543de82ef95)
	simMode = c.Mode
	simYieldPpm, simMapPpm, simArmPpm = c.Yield, c.Map, c.Arm
	simStallPpm, simStallMax = c.Stall, c.StallMax
	simPickCost = c.PickCost
	simLimit = c.Limit
	simPtSel, simPtPpm, simPtMax, simPtSeed = c.PtSel, c.PtPpm, uint64(c.PtMax), simMix(c.Seed^0x2545f4914f6cdd1d)
	simPtSleeps, simPtYields = 300, 20000
	simMapLong = 20
	simMapSleeps, simMapMax = 30, uint64(simStallMax)+1
	if simMapMax > 100_000_000 {
		simMapMax = 100_000_000
	}
	simHashV = 14695981039346656037
	if c.StartTime != 0 {
		faketime = c.StartTime
	}
	simTrace, simT0 = c.Trace, faketime
	simPtOn = true
	simOn = true
}

func SimGetStats() (s SimStats) {
	s.Picks, s.Switches, s.Yields, s.Stalls, s.Hash, s.Idle = simPicks, simSwitches, simYields, simStalls, simHashV, simIdle
	s.MaxQueue = simMaxQ
	s.Now = faketime
	return
}

// SimSetTag labels the calling goroutine (and what it starts) as belonging to
// simulated process tag.
func SimSetTag(tag int32) { getg().simTag = tag }

func SimTag() int32 { return getg().simTag }

// SimWall shifts the wall clock (not the monotonic clock).
func SimWall(d int64) { simWall += d }

// SimQuiet turns scheduling noise (preemptions and stalls) off or on again.
func SimQuiet(stall uint64) { simStallPpm = stall }

// SimKill stops every goroutine of simulated process tag for ever, the way
// kill -9 does. Goroutines inside a sync critical section finish it first, so
// that process-wide locks of the standard library are not left held.
func SimKill(tag int32) { simDeadMask |= 1 << uint(tag&63) }

func SimIsDead(tag int32) bool { return tag != 0 && simDeadMask&(1<<uint(tag&63)) != 0 }

// SimCount counts live goroutines of a tag.
func SimCount(tag int32) int {
	n := 0
	forEachGRace(func(gp *g) {
		if gp.simTag == tag && readgstatus(gp)&^_Gscan != _Gdead && !isSystemGoroutine(gp, false) {
			n++
		}
	})
	return n
}

//go:nosplit
func simMix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

//go:nosplit
func simRand() uint64 {
	simState += 0x9e3779b97f4a7c15
	x := simState
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simRandAux() uint64 {
	simAux += 0x9e3779b97f4a7c15
	x := simAux
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:linkname sysrand_simRead crypto/internal/sysrand.simRead
func sysrand_simRead(b []byte) {
	for i := range b {
		if i&7 == 0 {
			simRnd = simMix(simRnd + 0x9e3779b97f4a7c15)
		}
		b[i] = byte(simRnd >> (8 * uint(i&7)))
	}
}

// simPick chooses the next goroutine to run.
func simPick(pp *p) *g {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		simEnqueue(gp)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			simEnqueue(gp)
		}
		unlock(&sched.lock)
	}
	n := simQn
	if n == 0 {
		return nil
	}
	if n > simMaxQ {
		simMaxQ = n
	}
	i := 0
	// the runtime's own goroutines go first and draw no random number
	for j := 0; j < n; j++ {
		if simQ[j].ptr().simBits&1 != 0 {
			return simTake(j)
		}
	}
	simPicks++
	if simPicks > simMaxPicks {
		print("sim: livelock\n")
		exit(97)
	}
	r := simRand()
	faketime += 1 + int64((r>>40)&0xffff)*simPickCost>>16
	if n > 1 && simSwitches < simLimit {
		simSwitches++
		switch simMode {
		case 0:
			i = int((r & 0xffffffff) * uint64(n) >> 32)
		case 1: // fifo, sometimes random
			if r&7 == 0 {
				i = int((r >> 8 & 0xffffff) * uint64(n) >> 24)
			}
		case 2: // most recently woken first, sometimes random
			i = n - 1
			if r&3 == 0 {
				i = int((r >> 8 & 0xffffff) * uint64(n) >> 24)
			}
		case 3: // random priorities, redrawn now and then
			best := uint32(0)
			for j := 0; j < n; j++ {
				gp := simQ[j].ptr()
				if gp.simBits == 0 {
					gp.simBits = (uint32(simRand()) | 2) &^ 1
				}
				if gp.simBits > best {
					best = gp.simBits
					i = j
				}
			}
			if r&31 == 0 {
				gp := simQ[i].ptr()
				gp.simBits = (uint32(simRand()) | 2) &^ 1
			}
			if r>>8&63 == 0 { // no starvation for ever
				i = 0
			}
		}
	}
	gp := simTake(i)
	simHashV = (simHashV ^ gp.goid) * 1099511628211
	if simTrace {
		print("pick ", simPicks, " g", gp.goid, " of ", n, " at ", faketime-simT0, " rnd ", simState&0xffff, " aux ", simAux&0xffff, "\n")
	}
	return gp
}

func simEnqueue(gp *g) {
	if simQn == len(simQ) {
		throw("simulator: run queue overflow")
	}
	if gp.simBits == 0 && isSystemGoroutine(gp, false) {
		gp.simBits = 1
	}
	simQ[simQn].set(gp)
	simQn++
}

func simTake(i int) *g {
	gp := simQ[i].ptr()
	copy(simQ[i:simQn-1], simQ[i+1:simQn])
	simQn--
	simQ[simQn] = 0
	return gp
}

// simArm makes the goroutine about to run stop at its next function call.
func simArm(gp *g) {
	if simArmPpm == 0 || gp.simTag == 0 || gp.simHold != 0 || simSwitches >= simLimit {
		return
	}
	if simRand()&0xffff < simArmPpm {
		gp.preempt = true
		gp.stackguard0 = stackPreempt
	}
}

func simCanYield() bool {
	gp := getg()
	mp := gp.m
	if mp.curg != gp || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.dying != 0 || mp.p == 0 {
		return false
	}
	return gp.simBits&1 == 0 && gp.simHold == 0
}

// SimHold keeps the calling goroutine from being preempted (but not from
// blocking) until the matching SimHold(-1): the simulator's own bookkeeping.
func SimHold(d int32) { getg().simHold += d }

func simParkForever(gp *g, _ unsafe.Pointer) bool { return true }

// simDeadPark parks the goroutine for ever if its process was killed.
func simDeadPark() {
	gp := getg()
	if SimIsDead(gp.simTag) && simCanYield() {
		for {
			gopark(simParkForever, nil, waitReasonZero, traceBlockForever, 1)
		}
	}
}

func simYield() {
	if !simCanYield() {
		return
	}
	gp := getg()
	if gp.simMu <= 0 && SimIsDead(gp.simTag) {
		simDeadPark()
	}
	if simSwitches >= simLimit {
		return
	}
	r := simRand()
	if gp.simTag != 0 && simStallPpm != 0 && r>>40 < simStallPpm {
		simStalls++
		timeSleep(1000 + int64(simRand()%uint64(simStallMax)))
		return
	}
	if r&0xffff < simYieldPpm {
		simYields++
		Gosched()
	}
}

// SimPoint is in front of every statement of the code under test.
func SimPoint(site int) {
	if simPtOn {
		simPoint(uint64(site))
	}
}

// SimPointMap is in front of a statement that writes to a map of the code under
// test: in some runs the writer stops there for a while.
func SimPointMap(site int) {
	SimPoint(site)
	if simPtOn && getg().simTag != 0 && simPtSel != 0 && simMix(simPtSeed-uint64(site)*0x9e3779b97f4a7c15)&3 == 0 {
		getg().simMapW = true
	}
}

// SimVal is between the computation of a new value of a field and its assignment.
func SimVal[T any](site int, v T) T {
	SimPoint(site)
	return v
}

func simPoint(site uint64) {
	gp := getg()
	if gp.simTag == 0 {
		return
	}
	gp.simMapW = false
	if simDeadMask != 0 && gp.simMu <= 0 {
		simDeadPark()
	}
	if simPtSel == 0 || simMix(simPtSeed+site*0x9e3779b97f4a7c15)&0xffff >= simPtSel {
		return
	}
	n := &simPtHits[site%uint64(len(simPtHits))]
	*n++
	if *n > 100 && *n%64 != 0 || simSwitches >= simLimit || !simCanYield() {
		return
	}
	r := simRand()
	if r&0xffff >= simPtPpm {
		return
	}
	if r>>16&7 == 0 && simPtMax > 0 && simPtSleeps > 0 {
		simPtSleeps--
		simStalls++
		timeSleep(1000 + int64((r>>20)%simPtMax))
	} else if simPtYields > 0 {
		simPtYields--
		simYields++
		Gosched()
	}
}

func simYieldMap() {
	if gp := getg(); gp.simMapW {
		gp.simMapW = false
		if simMapLong > 0 && simSwitches < simLimit && simCanYield() {
			simMapLong--
			simStalls++
			timeSleep(1000 + int64(simRand()%300_000_000))
			return
		}
	}
	if !simOn || simMapPpm == 0 || !simCanYield() || getg().simTag == 0 || simSwitches >= simLimit {
		return
	}
	if r := simRand(); r&0xffff < simMapPpm {
		simYields++
		// a longer stop makes a window of what is done without a lock
		if r>>16&15 == 0 && simMapSleeps > 0 {
			simMapSleeps--
			simStalls++
			timeSleep(1000 + int64((r>>20)%simMapMax))
			return
		}
		Gosched()
	}
}

// SimYield is a yield point for simulated devices.
func SimYield() {
	if simOn {
		simYield()
	}
}

//go:linkname maps_simYieldMap internal/runtime/maps.simYieldMap
func maps_simYieldMap() {
	if simOn {
		simYieldMap()
	}
}

//go:linkname sync_simYield sync.runtime_simYield
func sync_simYield() {
	if simOn {
		simYield()
	}
}

//go:linkname sync_simMu sync.runtime_simMu
func sync_simMu(d int32) {
	getg().simMu += d
}

var _ = atomic.Load
var _ = sys.GetCallerPC
