// Deterministic-simulation extension of the Go runtime (added by overlay; it is
// never part of a shipped zinx binary).  One P, no sysmon, no wall clock: the
// only sources of order, time and randomness in the process are the ones below.

package runtime

import "unsafe"

const (
	simMaxReady = 1 << 14
	simMaxStall = 1 << 8
	simHotBits  = 1 << 16
	simNever    = int64(1) << 62
)

// Strategy of the seeded scheduler.
const (
	SimFIFO   = 0 // oldest ready goroutine first
	SimRandom = 1 // uniformly random ready goroutine
	SimPrio   = 2 // random priorities, highest first (PCT-like)
	SimLIFO   = 3 // newest ready goroutine first
)

// Deviation kinds in the decision log.
const (
	simDevPreempt = 1 // at yield step N, put the running goroutine back
	simDevPick    = 2 // at pick N, take ready[value] rather than ready[0]
	simDevStall   = 3 // at yield step N, freeze the running goroutine for value ns
	simDevLate    = 4 // at idle jump N, overshoot the next timer by value ns
)

type simStalledG struct {
	g     guintptr
	until int64
}

// SimConfig configures the scheduler of one simulated run.
type SimConfig struct {
	Seed      uint64
	Strategy  int
	Preempt   int   // mean number of yield points between preemptions (0: never)
	HotProb   int   // 1/HotProb chance to act at a hot site (0: no hot sites)
	HotMod    int   // a site is hot when hash(seed,site)%HotMod==0
	RareProb  int   // 1/RareProb chance to act at a site visited seldom so far (0: not)
	StallProb int   // 1/StallProb chance that a preemption becomes a freeze
	StallMax  int64 // longest freeze, ns of simulated time (0: none)
	StallCnt  int   // most freezes in a run
	LateProb  int   // 1/LateProb chance that an idle jump overshoots
	LateMax   int64 // longest overshoot
	StepNs    int64 // simulated cost of one yield point
	MaxSteps  uint64
	WallBase  int64 // unix nanoseconds at monotonic 0
	Replay    bool  // take decisions from the log, not from the PRNG
}

var sim struct {
	on       bool
	now      int64
	wallOff  int64
	rndUser  uint64
	rndRT    uint64
	rndMisc  uint64
	rndSched uint64
	cfg      SimConfig

	steps       uint64
	nextPreempt uint64
	hotOn       bool
	sinceSwitch uint64
	picks       uint64
	preempts    uint64
	stalls      uint64
	jumps       uint64
	lates       uint64
	hash        uint64
	maxReady    int
	stallCnt    int
	stallFrom   uint64 // no freeze before this step
	visits      [simHotBits]uint8

	ready  [simMaxReady]guintptr
	nready int

	stalled  [simMaxStall]simStalledG
	nstalled int

	killed uint64 // bit set of killed goroutine groups

	// decision log, in memory shared with the parent process
	logHdr *[64]uint64
	log    *[1 << 28]uint64
	logCap int
	logLen int

	// replay cursor
	rep    *[1 << 28]uint64
	repLen int
	repCur [3]int

	sites [simHotBits / 64]uint64 // sites executed
}

func simInit() {
	if sim.now == 0 {
		sim.now = 1_000_000_000
		sim.wallOff = 1_700_000_000_000_000_000
		sim.rndUser = 0x9e3779b97f4a7c15
		sim.nextPreempt = ^uint64(0)
	}
}

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simNext(&sim.rndUser) }

// SimRandFor returns element n of the stream named key: a pure function, so
// what one component draws never depends on what another one did.
func SimRandFor(key, n uint64) uint64 {
	s := key ^ (n * 0xd1342543de82ef95)
	simNext(&s)
	return simNext(&s)
}

func simSchedN(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	return simNext(&sim.rndSched) % n
}

// SimStart switches the seeded scheduler on.
func SimStart(c SimConfig) {
	sim.cfg = c
	m := c.Seed
	simNext(&m)
	m ^= simNext(&m)
	sim.rndSched = simNext(&m) ^ 0x1234567
	sim.rndUser = simNext(&m) ^ 0x7654321
	sim.rndRT = simNext(&m) ^ 0x1111111
	if c.WallBase != 0 {
		sim.wallOff = c.WallBase
	}
	sim.hotOn = (c.HotProb > 0 || c.RareProb > 0) && !c.Replay
	sim.steps = 0
	sim.on = true
	simPlanStall()
	simPlanPreempt()
}

// simPlanStall spreads the freezes over the run: gaps are log-uniform.
func simPlanStall() {
	if sim.cfg.StallMax > 0 && !sim.cfg.Replay {
		sim.stallFrom = sim.steps + simSchedN(1<<(2+simSchedN(14)))
	}
}

func SimStop() { sim.on = false; sim.nextPreempt = ^uint64(0); sim.hotOn = false }

// SimSetLog gives the scheduler memory shared with the parent: a header of
// counters that is always current, and the decision log.
func SimSetLog(p unsafe.Pointer, n uintptr) {
	sim.logHdr = (*[64]uint64)(p)
	sim.log = (*[1 << 28]uint64)(unsafe.Add(p, 16384))
	sim.logCap = int((n - 16384) / 8)
}

// SimSetReplay gives the decision log to follow.
func SimSetReplay(p []uint64) {
	if len(p) > 0 {
		sim.rep = (*[1 << 28]uint64)(unsafe.Pointer(&p[0]))
	}
	sim.repLen = len(p)
	sim.repCur = [3]int{}
}

// SimPublish copies the counters to the shared header.
func SimPublish() {
	h := sim.logHdr
	if h == nil {
		return
	}
	h[0] = 0x53494d31
	h[1] = sim.steps
	h[2] = sim.picks
	h[3] = sim.preempts
	h[4] = sim.hash
	h[5] = uint64(sim.now)
	h[6] = uint64(sim.logLen)
	h[7] = sim.stalls
	h[8] = sim.lates
	h[9] = uint64(sim.maxReady)
	h[10] = sim.jumps
	h[11] = uint64(sim.nready)
}

func simLogDev(kind, at, val uint64) {
	if sim.log == nil || sim.logLen+2 > sim.logCap {
		return
	}
	sim.log[sim.logLen] = kind<<56 | at
	sim.log[sim.logLen+1] = val
	sim.logLen += 2
}

// simRepTake reports whether the replay log holds a deviation of the class at
// position at, and consumes it.  Class 0: preempt and stall (keyed by step),
// 1: pick, 2: late.
func simRepTake(class int, at uint64) (kind, val uint64, ok bool) {
	for i := sim.repCur[class]; i+1 < sim.repLen; i += 2 {
		k, a := sim.rep[i]>>56, sim.rep[i]&(1<<56-1)
		if simClass(k) != class || a < at {
			continue
		}
		sim.repCur[class] = i
		if a == at {
			sim.repCur[class] = i + 2
			return k, sim.rep[i+1], true
		}
		return 0, 0, false
	}
	sim.repCur[class] = sim.repLen
	return 0, 0, false
}

func simClass(k uint64) int {
	switch k {
	case simDevPick:
		return 1
	case simDevLate:
		return 2
	}
	return 0
}

func simPlanPreempt() {
	if !sim.on {
		sim.nextPreempt = ^uint64(0)
		return
	}
	if sim.cfg.Replay {
		sim.nextPreempt = sim.steps + 30000
		for i := sim.repCur[0]; i+1 < sim.repLen; i += 2 {
			k, a := sim.rep[i]>>56, sim.rep[i]&(1<<56-1)
			if simClass(k) == 0 && a > sim.steps {
				if a < sim.nextPreempt {
					sim.nextPreempt = a
				}
				break
			}
		}
		return
	}
	sim.nextPreempt = sim.steps + 30000
	if sim.cfg.Preempt > 0 {
		d := 1 + simSchedN(uint64(2*sim.cfg.Preempt))
		if d < 30000 {
			sim.nextPreempt = sim.steps + d
		}
	}
}

// SimYield is a scheduling point.
func SimYield(site uint32) {
	sim.steps++
	sim.now += sim.cfg.StepNs
	sim.sites[(site&(simHotBits-1))>>6] |= 1 << (site & 63)
	if sim.steps >= sim.nextPreempt {
		simYieldSlow()
		return
	}
	if sim.hotOn {
		simHot(site)
	}
}

func simHot(site uint32) {
	if sim.cfg.RareProb > 0 {
		v := &sim.visits[site&(simHotBits-1)]
		if *v < 6 {
			*v++
			if simSchedN(uint64(sim.cfg.RareProb)) == 0 {
				simYieldSlow()
				return
			}
		}
	}
	if sim.cfg.HotProb == 0 {
		return
	}
	x := (uint64(site) + 1) * (sim.cfg.Seed | 1) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	if x%uint64(sim.cfg.HotMod) != 0 {
		return
	}
	if simSchedN(uint64(sim.cfg.HotProb)) == 0 {
		simYieldSlow()
	}
}

func simYieldSlow() {
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.gsignal == gp || mp.lockedg != 0 {
		return
	}
	if sim.cfg.MaxSteps != 0 && sim.steps > sim.cfg.MaxSteps {
		SimPublish()
		exit(97)
	}
	if gcController.heapLive.Load() > 1200<<20 {
		SimPublish()
		exit(95)
	}
	stall := int64(0)
	if sim.cfg.Replay {
		if k, v, ok := simRepTake(0, sim.steps); ok && k == simDevStall {
			stall = int64(v)
		}
	} else if sim.cfg.StallMax > 0 && sim.stallCnt < sim.cfg.StallCnt && sim.steps >= sim.stallFrom && simSchedN(uint64(sim.cfg.StallProb)) == 0 {
		stall = 1 + int64(simSchedN(uint64(sim.cfg.StallMax)))
		if simSchedN(2) == 0 {
			stall = 1 + stall/64
		}
		sim.stallCnt++
		simPlanStall()
	}
	if stall > 0 && sim.nstalled < simMaxStall {
		sim.stalls++
		simLogDev(simDevStall, sim.steps, uint64(stall))
		gp.simStall = sim.now + stall
	} else {
		simLogDev(simDevPreempt, sim.steps, 0)
	}
	sim.preempts++
	simPlanPreempt()
	mcall(gosched_m)
}

// simDrain moves everything the runtime made runnable into the ready list.
func simDrain(pp *p) {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			if sched.runq.empty() {
				break
			}
			lock(&sched.lock)
			gp = globrunqget()
			unlock(&sched.lock)
			if gp == nil {
				break
			}
		}
		if sim.killed != 0 && sim.killed&(1<<(gp.simGroup&63)) != 0 {
			continue // this goroutine's process has crashed
		}
		if gp.simStall != 0 {
			until := gp.simStall
			gp.simStall = 0
			if sim.nstalled < simMaxStall {
				sim.stalled[sim.nstalled].g.set(gp)
				sim.stalled[sim.nstalled].until = until
				sim.nstalled++
				continue
			}
		}
		if sim.nready >= simMaxReady {
			throw("sim: too many ready goroutines")
		}
		sim.ready[sim.nready].set(gp)
		sim.nready++
	}
	// thaw
	for i := 0; i < sim.nstalled; {
		if sim.stalled[i].until <= sim.now {
			sim.ready[sim.nready] = sim.stalled[i].g
			sim.nready++
			sim.nstalled--
			sim.stalled[i] = sim.stalled[sim.nstalled]
			sim.stalled[sim.nstalled].g = 0
			continue
		}
		i++
	}
}

func simPick() *g {
	n := sim.nready
	if n == 0 {
		return nil
	}
	if n > sim.maxReady {
		sim.maxReady = n
	}
	sim.picks++
	idx := 0
	if sim.on && n > 1 {
		if sim.cfg.Replay {
			if _, v, ok := simRepTake(1, sim.picks); ok {
				idx = int(v) % n
			}
		} else {
			switch sim.cfg.Strategy {
			case SimRandom:
				idx = int(simSchedN(uint64(n)))
			case SimLIFO:
				if simSchedN(8) != 0 {
					idx = n - 1
				}
			case SimPrio:
				best := uint64(0)
				// priority: a hash of goid and an epoch that changes now and then
				ep := sim.picks >> 7
				for i := 0; i < n; i++ {
					gp := sim.ready[i].ptr()
					pr := (gp.goid*0x9e3779b97f4a7c15 ^ ep*0xbf58476d1ce4e5b9 ^ sim.cfg.Seed) * 0x94d049bb133111eb
					if pr >= best {
						best = pr
						idx = i
					}
				}
				if simSchedN(64) == 0 {
					idx = int(simSchedN(uint64(n)))
				}
			default:
				if simSchedN(16) == 0 {
					idx = int(simSchedN(uint64(n)))
				}
			}
		}
		if idx != 0 {
			simLogDev(simDevPick, sim.picks, uint64(idx))
		}
	}
	gp := sim.ready[idx].ptr()
	for i := idx; i < n-1; i++ {
		sim.ready[i] = sim.ready[i+1]
	}
	sim.ready[n-1] = 0
	sim.nready--
	sim.hash = (sim.hash ^ (gp.goid<<40 | sim.steps)) * 0x100000001b3
	sim.hash ^= sim.hash >> 31
	SimPublish()
	return gp
}

// simFind is the whole scheduler: run due timers, collect ready goroutines,
// choose one; if there is none, jump the clock to the next event.
func simFind(pp *p) *g {
	for {
		pp.timers.check(sim.now, nil)
		simDrain(pp)
		if gp := simPick(); gp != nil {
			return gp
		}
		w := pp.timers.wakeTime()
		for i := 0; i < sim.nstalled; i++ {
			if w == 0 || sim.stalled[i].until < w {
				w = sim.stalled[i].until
			}
		}
		if w == 0 {
			SimPublish()
			return nil
		}
		sim.jumps++
		if w > sim.now {
			sim.now = w
		}
		if sim.on && sim.cfg.LateMax > 0 {
			if sim.cfg.Replay {
				if _, v, ok := simRepTake(2, sim.jumps); ok {
					sim.now += int64(v)
					sim.lates++
				}
			} else if simSchedN(uint64(sim.cfg.LateProb)) == 0 {
				d := 1 + simSchedN(uint64(sim.cfg.LateMax))
				sim.now += int64(d)
				sim.lates++
				simLogDev(simDevLate, sim.jumps, d)
			}
		}
	}
}

// SimSites returns the bitmap of the sites executed.
func SimSites() []uint64 { return sim.sites[:] }

// SimNow is the simulated monotonic clock.
func SimNow() int64 { return sim.now }

// SimSteps is the number of yield points executed.
func SimSteps() uint64 { return sim.steps }

// SimHash identifies the interleaving so far.
func SimHash() uint64 { return sim.hash }

// SimWallAdd steps the wall clock (not the monotonic clock).
func SimWallAdd(d int64) { sim.wallOff += d }

// SimGoid is the running goroutine's id.
func SimGoid() uint64 { return getg().m.curg.goid }

// SimSetGroup puts the running goroutine, and those it starts, in a group.
func SimSetGroup(n int) { getg().m.curg.simGroup = uint8(n) }

// SimGroup is the running goroutine's group.
func SimGroup() int { return int(getg().m.curg.simGroup) }

// SimKill crashes a group: its goroutines never run again.
func SimKill(n int) {
	if n <= 0 || n > 63 {
		return
	}
	sim.killed |= 1 << uint(n)
	j := 0
	for i := 0; i < sim.nready; i++ {
		if gp := sim.ready[i].ptr(); gp.simGroup == uint8(n) {
			continue
		}
		sim.ready[j] = sim.ready[i]
		j++
	}
	for i := j; i < sim.nready; i++ {
		sim.ready[i] = 0
	}
	sim.nready = j
	for i := 0; i < sim.nstalled; {
		if sim.stalled[i].g.ptr().simGroup == uint8(n) {
			sim.nstalled--
			sim.stalled[i] = sim.stalled[sim.nstalled]
			continue
		}
		i++
	}
}

// SimKilled reports whether the running goroutine belongs to a killed group.
func SimKilled(n int) bool { return sim.killed&(1<<uint(n&63)) != 0 }

// SimAlive counts goroutines of a group that have not exited.
func SimAlive(n int) int {
	c := 0
	forEachG(func(gp *g) {
		if gp.simGroup == uint8(n) && readgstatus(gp)&^_Gscan != _Gdead {
			c++
		}
	})
	return c
}

//go:linkname simMapYield internal/runtime/maps.simMapYield
func simMapYield() {
	if sim.on {
		SimYield(65535)
	}
}
