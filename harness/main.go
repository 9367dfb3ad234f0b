// The simulated process: zinx's real packages plus scripted peers, under the
// seeded scheduler (package runtime) and the simulated network (package net).
// One process is one run; everything in it follows from the arguments.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
)

const (
	shmSize = 16384 + (8 << 20)
	siteOff = 4096
	siteLen = 8192
)

type violation struct {
	Prop string `json:"property"`
	Sig  string `json:"signature"`
	Msg  string `json:"message"`
}

type result struct {
	Scen       string            `json:"scenario"`
	Violations []violation       `json:"violations"`
	Counters   map[string]uint64 `json:"counters"`
	Ops        int               `json:"ops"`
	Faults     []string          `json:"faults"`
	Trace      []string          `json:"trace"`
	Shape      string            `json:"shape"`
	SimNs      int64             `json:"sim_ns"`
	Note       string            `json:"note"`
}

// scenario is one way of exercising a property.
type scenario struct {
	name   string
	weight int
	// limits of scheduling faults the scenario's bounds are stated for
	stall time.Duration // longest freeze of a goroutine (0: none)
	late  time.Duration // longest late wake-up
	step  int64         // most simulated ns per yield point (0: 1000)
	max   uint64        // step limit (0: default)
	run   func(*Ctx)
}

var props = map[string][]scenario{}

// Ctx is the state of the run.
type Ctx struct {
	Prop    string
	R       *rng // workload
	F       *rng // faults
	Stall   time.Duration
	Late    time.Duration
	NStall  int
	dir     string
	res     result
	drop    map[int]bool
	nofault map[string]bool
	faults  map[string]bool
	verbose bool
	shape   []string
	shm     []byte
	t0      int64
	ended   bool
	counts  table[string, uint64]
}

func (c *Ctx) Fail(sig, f string, a ...any) {
	if len(c.res.Violations) < 6 {
		m := fmt.Sprintf(f, a...)
		c.res.Violations = append(c.res.Violations, violation{c.Prop, sig, m})
		c.Logf("VIOLATION [%s] %s", sig, m)
	}
}

func (c *Ctx) Failed() bool { return len(c.res.Violations) > 0 }

// Op numbers one workload operation and says whether the minimiser kept it.
// Draw the operation's parameters before calling it.
func (c *Ctx) Op() bool {
	i := c.res.Ops
	c.res.Ops++
	return !c.drop[i]
}

// Fault draws whether fault class f is on in this run (p per 1000).
func (c *Ctx) Fault(f string, p int) bool {
	on := c.F.n(1000) < p
	if !on || c.nofault[f] {
		return false
	}
	c.faults[f] = true
	return true
}

func (c *Ctx) Count(k string, n int) { *c.counts.at(k) += uint64(n) }

func (c *Ctx) Shape(f string, a ...any) { c.shape = append(c.shape, fmt.Sprintf(f, a...)) }

func (c *Ctx) Logf(f string, a ...any) {
	if c.verbose && len(c.res.Trace) < 4000 {
		c.res.Trace = append(c.res.Trace, fmt.Sprintf("%10.6f %s", float64(runtime.SimNow()-c.t0)/1e9, fmt.Sprintf(f, a...)))
	}
}

func (c *Ctx) Now() time.Duration { return time.Duration(runtime.SimNow() - c.t0) }

// until polls cond in simulated time.
func (c *Ctx) until(d time.Duration, cond func() bool) bool {
	end := c.Now() + d
	step := 500 * time.Microsecond
	for !cond() {
		if c.Now() >= end {
			return cond()
		}
		time.Sleep(step)
		if step < 50*time.Millisecond {
			step = step * 3 / 2
		}
	}
	return true
}

// within runs f in its own goroutine and waits for it, in simulated time.
func (c *Ctx) within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// finish writes the result and ends the process.
func (c *Ctx) finish() {
	if c.ended {
		select {}
	}
	c.ended = true
	os.SimFSExit = nil
	runtime.SimStop()
	if c.verbose && c.Failed() {
		b := make([]byte, 1<<20)
		c.res.Trace = append(c.res.Trace, "goroutines at the end:\n"+string(b[:runtime.Stack(b, true)]))
	}
	runtime.SimPublish()
	s := runtime.SimSites()
	copy(c.shm[siteOff:siteOff+siteLen], unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), siteLen))
	st := net.SimNetStats()
	for k, v := range map[string]uint64{"net.refused_dials": st.Refused, "net.accept_errors": st.AcceptErrs, "net.resets": st.Resets, "net.short_reads": st.ShortReads,
		"net.segments": st.Segments, "net.lost": st.Lost, "net.duplicated": st.Duped, "net.reordered": st.Reordered, "net.writer_blocked": st.WriterBlocked,
		"net.rst_on_close": st.RSTOnClose, "net.syn_dropped": st.SynDropped, "net.queue_drop": st.QueueDrop} {
		if v > 0 {
			c.res.Counters[k] += v
		}
	}
	c.res.Counters["conns"] += st.Conns
	for i, k := range c.counts.ks {
		c.res.Counters[k] += *c.counts.vs[i]
	}
	for f := range c.faults {
		c.res.Faults = append(c.res.Faults, f)
	}
	sort.Strings(c.res.Faults)
	c.res.Shape = strings.Join(c.shape, " ")
	c.res.SimNs = runtime.SimNow() - c.t0
	j, err := json.Marshal(&c.res)
	if err != nil {
		os.Exit(98)
	}
	f := os.NewFile(3, "result")
	f.Write(j)
	os.Exit(0)
}

// stdLogger is the logger zinx has by default.
var stdLogger ziface.ILogger

type nolog struct{}

func (nolog) InfoF(string, ...interface{})  {}
func (nolog) ErrorF(string, ...interface{}) {}
func (nolog) DebugF(string, ...interface{}) {}

func (nolog) InfoFX(context.Context, string, ...interface{})  {}
func (nolog) ErrorFX(context.Context, string, ...interface{}) {}
func (nolog) DebugFX(context.Context, string, ...interface{}) {}

func main() {
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	sseed := fs.Uint64("sseed", 1, "")
	shm := fs.String("shm", "", "")
	dir := fs.String("dir", "", "")
	scen := fs.String("scen", "", "")
	drop := fs.String("drop", "", "")
	nofault := fs.String("nofault", "", "")
	replay := fs.String("replay", "", "")
	verbose := fs.Bool("v", false, "")
	list := fs.Bool("list", false, "")
	fs.Parse(os.Args[1:])
	if *list {
		for p, l := range props {
			for _, s := range l {
				fmt.Println(p, s.name)
			}
		}
		return
	}
	ss := props[*prop]
	if len(ss) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(96)
	}
	c := &Ctx{Prop: *prop, R: newRng(*seed, 1), F: newRng(*seed, 2), dir: *dir, drop: map[int]bool{}, nofault: map[string]bool{}, faults: map[string]bool{}, verbose: *verbose}
	c.res.Counters = map[string]uint64{}
	for _, d := range strings.Split(*drop, ",") {
		if n, err := strconv.Atoi(d); err == nil {
			c.drop[n] = true
		}
	}
	for _, f := range strings.Split(*nofault, ",") {
		c.nofault[f] = true
	}
	total := 0
	for _, s := range ss {
		total += s.weight
	}
	pick := newRng(*seed, 3).n(total)
	sc := ss[0]
	for _, s := range ss {
		if *scen != "" {
			if s.name == *scen {
				sc = s
				break
			}
			continue
		}
		if pick < s.weight {
			sc = s
			break
		}
		pick -= s.weight
	}
	c.res.Scen = sc.name

	fd, err := syscall.Open(*shm, syscall.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "shm:", err)
		os.Exit(96)
	}
	c.shm, err = syscall.Mmap(fd, 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mmap:", err)
		os.Exit(96)
	}
	syscall.Close(fd)
	runtime.SimSetLog(unsafe.Pointer(&c.shm[0]), shmSize)
	stdLogger = zlog.Ins()
	zlog.SetLogger(nolog{})

	cfg := schedule(c, sc, *sseed)
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			os.Exit(96)
		}
		var w []uint64
		for i := 0; i+8 <= len(data); i += 8 {
			var v uint64
			for k := 7; k >= 0; k-- {
				v = v<<8 | uint64(data[i+k])
			}
			w = append(w, v)
		}
		runtime.SimSetReplay(w)
		cfg.Replay = true
	}
	runtime.SimStart(cfg)
	c.t0 = runtime.SimNow()
	sc.run(c)
	c.finish()
}

// schedule draws the shape of this run's scheduler: strategy, how often running
// code is preempted and where, how long goroutines freeze, how late timers are.
func schedule(c *Ctx, sc scenario, sseed uint64) runtime.SimConfig {
	r := newRng(sseed, 4)
	cfg := runtime.SimConfig{Seed: sseed, MaxSteps: 40_000_000, WallBase: 1_700_000_000_000_000_000}
	if sc.max > 0 {
		cfg.MaxSteps = sc.max
	}
	switch k := r.n(100); {
	case k < 20:
		cfg.Strategy = runtime.SimFIFO
	case k < 62:
		cfg.Strategy = runtime.SimRandom
	case k < 90:
		cfg.Strategy = runtime.SimPrio
	default:
		cfg.Strategy = runtime.SimLIFO
	}
	cfg.Preempt = []int{0, 6, 15, 40, 40, 120, 400, 1500}[r.n(8)]
	if r.n(100) < 60 {
		cfg.HotMod = []int{8, 20, 60, 200}[r.n(4)]
		cfg.HotProb = []int{1, 2, 4, 10}[r.n(4)]
	}
	if r.n(100) < 40 {
		cfg.RareProb = []int{2, 5, 15, 40}[r.n(4)]
	}
	stepMax := sc.step
	if stepMax == 0 {
		stepMax = 1000
	}
	cfg.StepNs = []int64{10, 100, 1000}[r.n(3)]
	if cfg.StepNs > stepMax {
		cfg.StepNs = stepMax
	}
	a, b, d, e := r.n(100), r.n(3), r.n(100), r.n(3)
	if sc.stall > 0 && a < 50 {
		cfg.StallMax = int64(sc.stall) / []int64{1, 5, 50}[b]
		cfg.StallProb = []int{1, 3, 10}[r.n(3)]
		cfg.StallCnt = []int{1, 3, 8}[r.n(3)]
	}
	if sc.late > 0 && d < 40 {
		cfg.LateMax = int64(sc.late) / []int64{1, 5, 50}[e]
		cfg.LateProb = []int{2, 6, 20}[r.n(3)]
	}
	c.Stall, c.Late, c.NStall = time.Duration(cfg.StallMax), time.Duration(cfg.LateMax), cfg.StallCnt
	return cfg
}
