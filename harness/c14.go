package main

import (
	"runtime"
	"slices"
	"time"

	"github.com/aceld/zinx/zutils"
)

// C14: generated ids are unique and increasing, also when the clock jumps.

func init() {
	props["C14"] = []scenario{
		{name: "bursts", weight: 3, stall: 3 * ms, late: ms, run: func(c *Ctx) { c14Ids(c, false) }},
		{name: "overflow", weight: 1, stall: 3 * ms, late: ms, run: func(c *Ctx) { c14Ids(c, true) }},
	}
}

func c14Ids(c *Ctx, overflow bool) {
	r := c.R
	// the sequence space of one millisecond is left only when the clock stands
	// nearly still, as on a fast machine or while it is being slewed
	wids := []int64{0, 1, 1023, 512, int64(r.n(1024))}
	nw := r.rng(1, 3)
	if overflow {
		nw = 1
	}
	type wk struct {
		w      *zutils.IDWorker
		maxRet int64
		n      int
	}
	var ws []*wk
	used := map[int64]bool{}
	for i := 0; i < nw; i++ {
		id := wids[r.n(len(wids))]
		if used[id] {
			continue
		}
		used[id] = true
		w, err := zutils.NewIDWorker(id)
		if err != nil {
			c.Fail("worker", "worker id %d is rejected: %v", id, err)
			return
		}
		ws = append(ws, &wk{w: w, maxRet: -1})
	}
	for _, bad := range []int64{-1, 1024, 1 << 40} {
		if _, err := zutils.NewIDWorker(bad); err == nil {
			c.Fail("worker-range", "worker id %d is accepted", bad)
		}
	}
	var ids []int64
	wall := func() int64 { return time.Now().UnixNano() }
	peak, jumps := int64(0), 0
	backs := c.Fault("clock-back", 600)
	fwds := c.Fault("clock-forward", 400)
	still := overflow && c.Fault("clock-slow", 700)
	ng := r.rng(1, 4)
	done, ops, running := 0, 0, 0
	errs, over := 0, false
	var lastWall int64
	next := func(k *wk) {
		if still { // hold the wall clock
			w := wall()
			if lastWall != 0 && w > lastWall && w-lastWall < int64(50*ms) && running > 0 {
				if w/1e6 == lastWall/1e6 {
					runtime.SimWallAdd(lastWall - w)
				} else {
					lastWall = w
				}
			} else {
				lastWall = w
			}
		}
		before, j0, w0, p0, t0 := k.maxRet, jumps, wall(), peak, c.Now()
		running++
		id, err := k.w.NextID()
		running--
		if d := c.Now() - t0; d > sec+time.Duration(ng*(c.NStall+1))*c.Stall && jumps > 0 {
			c.Fail("blocked", "NextID returned after %v (the clock had gone back)", d)
		}
		if err != nil {
			errs++
			if j0 == jumps && w0 >= p0 && !still {
				c.Fail("error", "NextID fails although the clock has not gone back: %v", err)
			}
			return
		}
		k.n++
		ids = append(ids, id)
		if id <= before {
			c.Fail("order", "the id %d was returned after %d", id, before)
		}
		k.maxRet = max(k.maxRet, id)
	}
	per := r.pick(20, 100, 300)
	if overflow {
		per = r.pick(2500, 4500, 9000) / ng
	}
	c.Shape("workers=%d callers=%d per=%d back=%v fwd=%v still=%v", len(ws), ng, per, backs, fwds, still)
	for g := 0; g < ng; g++ {
		pr := r.fork()
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			pause := pr.pick(0, 0, 7, 50)
			for i := 0; i < per && !c.Failed(); i++ {
				next(ws[pr.n(len(ws))])
				if pause > 0 && i%pause == pause-1 {
					time.Sleep(time.Duration(pr.pick(1, 300, 1500)) * time.Microsecond)
				}
			}
		}()
	}
	if backs || fwds {
		jr := r.fork()
		go func() {
			for !over {
				time.Sleep(time.Duration(jr.pick(3, 50, 200, 800, 3000)) * time.Microsecond)
				if over || jumps > 30 {
					return
				}
				d := int64(jr.pick(1, 500, 1000, 1500, 5000, 300000)) * int64(time.Microsecond)
				if jr.p(50) {
					d = int64(time.Hour)
				}
				if backs && (!fwds || jr.p(500)) {
					peak = max(peak, wall())
					jumps++
					runtime.SimWallAdd(-d)
				} else {
					jumps++
					runtime.SimWallAdd(d)
					peak = max(peak, wall())
				}
			}
		}()
	}
	if !c.until(120*sec, func() bool { return done == ops || c.Failed() }) {
		c.Fail("blocked", "callers of NextID do not finish (%d of %d), %d clock jumps", done, ops, jumps)
		return
	}
	over = true
	// once the clock has caught up, ids come again
	still = false
	time.Sleep(5 * ms)
	if d := peak - wall(); d > 0 {
		time.Sleep(time.Duration(d) + 2*ms)
	}
	for _, k := range ws {
		n := k.n
		next(k)
		if k.n == n && !c.Failed() {
			c.Fail("error", "the clock has caught up, NextID still fails")
		}
	}
	n, full := len(ids), 0
	slices.Sort(ids)
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			c.Fail("duplicate", "the id %d (worker %d, sequence %d) was returned twice (%d ids, %d clock jumps)", id, id>>12&1023, id&4095, n, jumps)
		}
		if id&4095 == 4095 {
			full++
		}
	}
	c.Count("full_milliseconds", full)
	c.Count("ids", n)
	c.Count("clock_errors", errs)
	c.Count("clock_jumps", jumps)
}
