package main

import (
	"time"

	"github.com/aceld/zinx/ztimer"
)

// C12: timers fire once, on time, never after being cancelled.

func init() {
	props["C12"] = []scenario{
		{name: "seconds", weight: 20, stall: 30 * ms, late: ms, run: func(c *Ctx) { c12Timers(c, 0) }},
		{name: "minutes", weight: 20, stall: 30 * ms, late: ms, run: func(c *Ctx) { c12Timers(c, 1) }},
		{name: "hours", weight: 4, stall: 30 * ms, late: ms, max: 400_000_000, run: func(c *Ctx) { c12Timers(c, 2) }},
		{name: "days", weight: 1, stall: 0, late: 0, step: 100, max: 4_000_000_000, run: func(c *Ctx) { c12Timers(c, 3) }},
		{name: "ticks", weight: 40, stall: 5 * ms, late: 0, run: c12Ticks},
		{name: "burst", weight: 3, stall: 10 * ms, late: ms, step: 100, run: c12Burst},
	}
}

type c12Timer struct {
	n        int
	tid      uint32
	made     time.Duration
	due      time.Duration // as far as the harness can tell
	dueMax   time.Duration // due time if the call was slow
	fired    []time.Duration
	canceled time.Duration // CancelTimer had returned (0: no)
	cancelAt time.Duration // CancelTimer was called
	panics   bool
}

// c12Span draws delays around the edges of the wheels.
func c12Span(r *rng, scale int) time.Duration {
	var d time.Duration
	switch r.n(9) {
	case 0:
		d = time.Duration(r.n(120)) * ms
	case 1:
		d = time.Duration(r.n(3000)) * ms
	case 2:
		d = time.Duration(r.rng(1, 5))*sec + time.Duration(r.rng(-3, 3))*ms
	default:
		unit, most := sec, 59
		switch {
		case scale >= 3 && r.p(400):
			unit, most = time.Hour, 30
		case scale == 2 && r.p(500):
			unit, most = time.Hour, 2
		case scale >= 1 && r.p(700):
			unit, most = time.Minute, 4
			if scale >= 2 {
				most = 75
			}
		}
		d = time.Duration(r.n(most+1)) * unit
		switch r.n(4) {
		case 0:
			d += time.Duration(r.rng(-3, 3)) * ms
		case 1:
			d += time.Duration(r.n(int(unit/ms))) * ms
		case 2:
			d += time.Duration(r.rng(-1500, 1500)) * ms
		}
	}
	return max(d, 0)
}

func (t *c12Timer) judge(c *Ctx, slack time.Duration) {
	early := 100*ms + ms
	if len(t.fired) > 1 {
		c.Fail("twice", "timer %d (delay %v) ran %d times: %v", t.n, t.due-t.made, len(t.fired), t.fired)
		return
	}
	if t.canceled != 0 && t.canceled < t.due-early {
		if len(t.fired) > 0 {
			c.Fail("after-cancel", "timer %d due at %v was cancelled at %v and ran at %v", t.n, t.due, t.canceled, t.fired[0])
		}
		return
	}
	if len(t.fired) == 0 {
		if t.cancelAt != 0 && t.cancelAt <= t.dueMax+slack {
			return
		}
		c.Fail("lost", "timer %d made at %v, due at %v has not run by %v", t.n, t.made, t.due, c.Now())
		return
	}
	if at := t.fired[0]; at < t.due-early {
		c.Fail("early", "timer %d made at %v, due at %v ran at %v, %v early", t.n, t.made, t.due, at, t.due-at)
	} else if at > t.dueMax+slack {
		c.Fail("late", "timer %d made at %v, due at %v ran at %v, %v late (bound %v)", t.n, t.made, t.dueMax, at, at-t.dueMax, slack)
	}
}

func c12Timers(c *Ctx, scale int) {
	r := c.R
	slack := 150*ms + 130*c.Late + time.Duration(c.NStall+1)*c.Stall
	var ts *ztimer.TimerScheduler
	manual := r.p(250)
	if manual {
		ts = ztimer.NewTimerScheduler()
		ts.Start()
		go func() {
			for df := range ts.GetTriggerChan() {
				df.Call()
			}
		}()
	} else {
		ts = ztimer.NewAutoExecTimerScheduler()
	}
	c.Shape("scale=%d manual=%v", scale, manual)
	var all []*c12Timer
	base := time.Now() // wall and harness time advance together
	b0 := c.Now()
	mk := func(d time.Duration, how int, panics bool, again func()) *c12Timer {
		t := &c12Timer{n: len(all), panics: panics}
		all = append(all, t)
		df := ztimer.NewDelayFunc(func(v ...interface{}) {
			t.fired = append(t.fired, c.Now())
			if len(v) != 1 || v[0] != any(t) {
				c.Fail("args", "timer %d is called with other arguments than its own: %v", t.n, v)
			}
			if again != nil {
				again()
			}
			if t.panics {
				panic("timer")
			}
		}, []interface{}{t})
		var err error
		t.made = c.Now()
		switch how {
		case 0:
			t.due = c.Now() + d
			t.tid, err = ts.CreateTimerAfter(df, d)
			t.dueMax = c.Now() + d
		case 1:
			t.due = b0 + d // an absolute time, maybe past
			if t.due < c.Now() {
				t.due = c.Now()
			}
			t.tid, err = ts.CreateTimerAt(df, base.Add(d).UnixNano())
			t.dueMax = max(t.due, c.Now())
		case 2: // without the scheduler
			t.due = c.Now() + d
			ztimer.NewTimerAfter(df, d).Run()
			t.dueMax = c.Now() + d
		}
		if err != nil {
			c.Fail("create", "a timer cannot be created: %v", err)
		}
		return t
	}
	callers := r.rng(1, 3)
	done, ops := 0, 0
	span := []time.Duration{5 * sec, 90 * sec, 40 * time.Minute, 3 * time.Hour}[scale]
	last := time.Duration(0)
	for g := 0; g < callers; g++ {
		pr := r.fork()
		n := pr.rng(1, 12)
		type op struct {
			wait, d, cancel time.Duration
			how             int
			panics, again   bool
			d2              time.Duration
		}
		var plan []op
		for i := 0; i < n; i++ {
			x := op{d: c12Span(pr, scale), how: pr.pick(0, 0, 0, 1, 2), panics: pr.p(80), again: pr.p(100)}
			x.d2 = c12Span(pr, min(scale, 1))
			switch pr.n(4) {
			case 0:
				x.wait = time.Duration(pr.n(int(span/time.Duration(n)))) & (1<<62 - 1)
			case 1:
				x.wait = time.Duration(pr.n(3000)) * time.Microsecond
			case 2:
				x.wait = time.Duration(pr.n(2000)) * ms
			}
			if pr.p(300) && x.how != 2 {
				switch pr.n(3) {
				case 0:
					x.cancel = time.Duration(pr.u() % uint64(x.d+1))
				case 1:
					x.cancel = x.d - time.Duration(pr.n(400))*ms
				case 2:
					x.cancel = x.d + time.Duration(pr.n(200))*ms
				}
				x.cancel = max(x.cancel, 1)
			}
			if c.Op() {
				plan = append(plan, x)
				ops++
			}
		}
		go func() {
			for _, x := range plan {
				time.Sleep(x.wait)
				var again func()
				if x.again {
					again = func() {
						t := mk(x.d2, 0, false, nil)
						last = max(last, t.dueMax)
					}
				}
				t := mk(x.d, x.how, x.panics, again)
				last = max(last, t.dueMax)
				if x.cancel > 0 {
					go func() {
						time.Sleep(x.cancel)
						t.cancelAt = c.Now()
						ts.CancelTimer(t.tid)
						t.canceled = c.Now()
						c.Count("cancelled", 1)
					}()
				}
				done++
			}
		}()
	}
	for c.Now() < last+slack+sec || done < ops {
		time.Sleep(50 * ms)
		if t := last - c.Now(); t > sec {
			time.Sleep(t)
		}
	}
	for i, t := range all {
		t.judge(c, slack)
		for _, u := range all[:i] {
			if u.tid == t.tid && u.tid != 0 {
				c.Fail("same-id", "two timers have the id %d", t.tid)
			}
		}
	}
	c.Count("timers", len(all))
}

// c12Burst: more timers due together than the trigger queue holds.
func c12Burst(c *Ctx) {
	r := c.R
	slack := sec + 130*c.Late + time.Duration(c.NStall+1)*c.Stall
	ts := ztimer.NewAutoExecTimerScheduler()
	n := r.pick(300, 2100, 4500)
	d := time.Duration(r.pick(0, 700, 1500, 3000)) * ms
	c.Shape("n=%d", n)
	cnt := make([]int, n)
	var dueMin, dueMax, lo, hi time.Duration
	dueMin, lo = c.Now()+d, 1<<62
	for i := 0; i < n; i++ {
		_, err := ts.CreateTimerAfter(ztimer.NewDelayFunc(func(...interface{}) {
			cnt[i]++
			lo, hi = min(lo, c.Now()), max(hi, c.Now())
		}, nil), d)
		if err != nil {
			c.Fail("create", "a timer cannot be created: %v", err)
		}
	}
	dueMax = c.Now() + d
	time.Sleep(d + slack + 2*sec)
	for i, k := range cnt {
		if k != 1 {
			c.Fail("burst", "of %d timers due together number %d ran %d times", n, i, k)
			break
		}
	}
	if lo < dueMin-101*ms || hi > dueMax+slack {
		c.Fail("burst-time", "%d timers due between %v and %v ran between %v and %v", n, dueMin, dueMax, lo, hi)
	}
	c.Count("timers", n)
}

// c12Ticks: adding and cancelling while the wheels turn.
func c12Ticks(c *Ctx) {
	r := c.R
	slack := 200*ms + time.Duration(c.NStall+1)*c.Stall
	ts := ztimer.NewAutoExecTimerScheduler()
	t0 := c.Now()
	var all []*c12Timer
	mk := func(d time.Duration) *c12Timer {
		t := &c12Timer{n: len(all), made: c.Now(), due: c.Now() + d}
		all = append(all, t)
		id, err := ts.CreateTimerAfter(ztimer.NewDelayFunc(func(...interface{}) { t.fired = append(t.fired, c.Now()) }, nil), d)
		if err != nil {
			c.Fail("create", "a timer cannot be created: %v", err)
		}
		t.tid, t.dueMax = id, c.Now()+d
		return t
	}
	cancel := func(t *c12Timer) {
		if t.cancelAt != 0 || t.tid == 0 {
			return
		}
		t.cancelAt = c.Now()
		ts.CancelTimer(t.tid)
		t.canceled = c.Now()
		c.Count("cancelled", 1)
	}
	at := time.Duration(r.pick(1, 1, 2, 3, 60, 60, 120))
	minute := at >= 60
	c.Shape("at=%d", at)
	// timers that the tick is going to move
	n := r.rng(1, 10)
	var early []*c12Timer
	for i := 0; i < n; i++ {
		d := at*sec + time.Duration(r.pick(0, 200, 900, 1000, 1500, 2500))*ms + time.Duration(r.n(20))*ms
		if minute && r.p(300) {
			d += 60 * sec
		}
		if c.Op() {
			early = append(early, mk(d))
		}
	}
	time.Sleep(t0 + at*sec - c.Now() - ms)
	// the wheel turns within the next millisecond or so
	done, ops := 0, 0
	for g := 0; g < r.rng(1, 3); g++ {
		pr := r.fork()
		var plan [][3]int
		for i := 0; i < pr.rng(1, 6); i++ {
			x := [3]int{pr.n(3), pr.n(1000), pr.pick(0, 10, 300, 999, 1000, 1001, 2000, 2500)}
			if i == 0 {
				x[1] += 1000 // us to the tick
			} else {
				x[1] = pr.pick(0, 0, 3, 20, 100)
			}
			if c.Op() {
				plan = append(plan, x)
			}
		}
		ops++
		go func() {
			for i, x := range plan {
				if i == 0 {
					x[1] = 900 + pr.n(200)
				}
				time.Sleep(time.Duration(x[1]) * time.Microsecond)
				switch {
				case x[0] == 0:
					mk(time.Duration(x[2]) * ms)
				case x[0] == 1 && len(early) > 0:
					cancel(early[pr.n(len(early))])
				case len(all) > 0:
					cancel(all[pr.n(len(all))])
				}
			}
			done++
		}()
	}
	for done < ops {
		time.Sleep(100 * ms)
	}
	last := time.Duration(0)
	for _, t := range all {
		last = max(last, t.dueMax)
	}
	time.Sleep(last - c.Now() + slack + 500*ms)
	for _, t := range all {
		t.judge(c, slack)
	}
	c.Count("timers", len(all))
}
