package main

import (
	"runtime"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/ziface"
)

// C11: asynchronous operations run in order, their completion callbacks once,
// on the worker of the connection.

func init() {
	props["C11"] = []scenario{
		{name: "handlers", weight: 3, stall: 20 * ms, late: 5 * ms, run: c11Handlers},
		{name: "flood", weight: 1, stall: 5 * ms, late: ms, run: c11Flood},
		{name: "results", weight: 1, stall: 5 * ms, late: ms, run: c11Results},
	}
}

// asyncRec is one submitted operation.
type asyncRec struct {
	id         int
	call, ret  int // ticks of the Process call
	start, end int // ticks of the operation
	runs       int
	panics     bool
}

// asyncLog judges the operations: one at a time per id, in order, once.
type asyncLog struct {
	c    *Ctx
	tick int
	ops  []*asyncRec
	busy table[int, int]
}

func (l *asyncLog) now() int { l.tick++; return l.tick }

func (l *asyncLog) process(id int, d time.Duration, panics bool, f func()) {
	a := &asyncRec{id: id, panics: panics}
	l.ops = append(l.ops, a)
	a.call = l.now()
	zasync_op.Process(id, func() {
		a.start = l.now()
		a.runs++
		b := l.busy.at(id)
		*b++
		if *b > 1 {
			l.c.Fail("op-overlap", "two operations of id %d run at the same time", id)
		}
		if d > 0 {
			time.Sleep(d)
		} else {
			runtime.Gosched()
		}
		defer func() {
			*b--
			a.end = l.now()
		}()
		f()
		if panics {
			panic("operation")
		}
	})
	a.ret = l.now()
}

func (l *asyncLog) done() bool {
	for _, a := range l.ops {
		if a.end == 0 {
			return false
		}
	}
	return true
}

func (l *asyncLog) judge() {
	for _, a := range l.ops {
		if a.runs != 1 {
			l.c.Fail("op-once", "an operation of id %d ran %d times", a.id, a.runs)
		}
		for _, b := range l.ops {
			if a.id == b.id && a.runs > 0 && b.runs > 0 && a.ret < b.call && a.start > b.start {
				l.c.Fail("op-order", "of two operations of id %d the one submitted second ran first", a.id)
			}
		}
	}
	l.c.Count("async_operations", len(l.ops))
}

// completion is one result with its callback.
type completion struct {
	cn      *c11Conn
	val     int
	set, on bool // both calls were made
	calls   int
	block   bool // a call on the result is under way
}

type c11Conn struct {
	cn      ziface.IConnection
	in      int // handlers and callbacks running
	gid     uint64
	handled int
	closed  bool
}

func c11Handlers(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = "tlv"
	if o.mode == "kcp" && r.p(700) {
		o.mode = "tcp"
	}
	o.taskLen = r.pick(1, 1, 2, 8, 64)
	weather(c, o.mode, nil)
	w := newWorld(c, o)
	lg := &asyncLog{c: c}
	var conns []*c11Conn
	var comps []*completion
	find := func(cn ziface.IConnection) *c11Conn {
		for _, x := range conns {
			if x.cn == cn {
				return x
			}
		}
		x := &c11Conn{cn: cn}
		conns = append(conns, x)
		return x
	}
	w.onStop = func(x *wconn) { find(x.cn).closed = true }
	ids := []int{r.n(3000), -r.n(3000), r.n(1 << 20), 5}
	hr := r.fork()
	var make1 func(x *c11Conn, depth int)
	enter := func(x *c11Conn, what string) func() {
		x.in++
		if x.in > 1 && !x.closed && x.cn.Context().Err() == nil {
			c.Fail("overlap", "a %s runs while another handler or callback of the connection runs", what)
		}
		g := runtime.SimGoid()
		if x.gid == 0 {
			x.gid = g
		} else if x.gid != g && !x.closed && x.cn.Context().Err() == nil {
			c.Fail("other-worker", "a %s runs on another goroutine than the connection's worker", what)
		}
		return func() { x.in-- }
	}
	// make1 starts an operation and registers its completion, in one of the
	// orders an application may use
	make1 = func(x *c11Conn, depth int) {
		q := &completion{cn: x, val: len(comps) + 1}
		comps = append(comps, q)
		res := zasync_op.NewAsyncOpResult(x.cn)
		id, dur, pan, order, wait := ids[hr.n(len(ids))], time.Duration(hr.pick(0, 0, 50, 500, 3000))*time.Microsecond, hr.p(100), hr.n(3), time.Duration(hr.pick(0, 20, 300, 2000))*time.Microsecond
		var val interface{} = q.val
		if hr.p(100) {
			val = nil // no result is a result, too
		}
		again := hr.p(100) // reported twice
		nest, hold := depth < 1 && hr.p(150), time.Duration(hr.pick(0, 0, 30, 700))*time.Microsecond
		cb := func() {
			defer enter(x, "completion callback")()
			q.calls++
			if q.calls > 1 {
				c.Fail("callback-twice", "a completion callback ran %d times", q.calls)
			}
			if v := res.GetReturnedObj(); v != val && !q.cn.closed {
				c.Fail("result", "the completion callback sees the result %v, %v was set", v, val)
			}
			if nest {
				make1(x, depth+1)
			}
			if hold > 0 {
				time.Sleep(hold)
			}
		}
		set := func() {
			q.set = true
			res.SetReturnedObj(val)
			if again {
				res.SetReturnedObj("again")
			}
		}
		more := hr.p(100)
		register := func() {
			res.OnComplete(cb)
			if more {
				res.OnComplete(func() { c.Fail("callback-again", "a second completion callback of the same operation runs") })
			}
		}
		if order == 0 { // callback first
			register()
			q.on = true
			lg.process(id, dur, pan, set)
			return
		}
		lg.process(id, dur, pan, set)
		if order == 2 && wait > 0 {
			time.Sleep(wait)
		}
		q.on = true
		register()
	}
	handler := func(q ziface.IRequest) {
		x := find(q.GetConnection())
		defer enter(x, "handler")()
		x.handled++
		n, d := hr.pick(0, 1, 1, 2), time.Duration(hr.pick(0, 0, 100, 1000))*time.Microsecond
		for i := 0; i < n; i++ {
			make1(x, 0)
		}
		if d > 0 {
			time.Sleep(d)
		}
	}
	route(w.s, o, 1, handler)
	if r.p(300) { // operations begun by the start hook
		w.onStart = func(x *wconn) {
			for i := hr.rng(1, 2); i > 0; i-- {
				make1(find(x.cn), 0)
			}
		}
	}
	c.start(w.s, o)
	np := min(r.rng(1, 4), o.maxConn)
	c.Shape("%v peers=%d", o, np)
	done, ops := 0, 0
	closing := 0
	type pplan struct {
		n, gap int
		close  string
	}
	want := 0
	stay := []*peer{}
	for i := 0; i < np; i++ {
		pl := pplan{n: r.rng(1, 12), gap: r.pick(0, 0, 0, 300, 3000)}
		if i > 0 && r.p(350) {
			pl.close = r.picks("close", "reset", "stop")
		}
		if !c.Op() {
			continue
		}
		ops++
		p := c.mustDial(o.mode, o.codec)
		p.recv()
		if pl.close == "" {
			want += pl.n
			stay = append(stay, p)
		}
		go func() {
			defer func() { done++ }()
			for k := 0; k < pl.n; k++ {
				p.send(1, tag(i, k, 20))
				if pl.gap > 0 {
					time.Sleep(time.Duration(pl.gap) * time.Microsecond)
				}
			}
			if pl.close != "" {
				closing++
				if x := w.by(p); pl.close == "stop" && x != nil {
					w.stop(x)
				}
				w.gone(p, pl.close)
			}
		}()
	}
	lim := 60*sec + time.Duration(c.NStall)*c.Stall
	sum := func() int {
		n := 0
		for _, x := range conns {
			for _, p := range stay {
				if x.cn.RemoteAddrString() == p.addr() {
					n += x.handled
				}
			}
		}
		return n
	}
	if !c.until(lim, func() bool { return done == ops && sum() >= want }) {
		c.Fail("stuck", "%d of %d messages of open connections are handled in %v (%d of %d peers are through)", sum(), want, lim, done, ops)
		return
	}
	missing := func() int {
		n := 0
		for _, q := range comps {
			if !q.cn.closed && q.cn.cn.Context().Err() == nil && q.set && q.on && q.calls == 0 {
				n++
			}
		}
		return n
	}
	seen, at := -1, time.Duration(0) // nothing new for a while
	if !c.until(lim, func() bool {
		if seen != len(lg.ops)+len(comps) || !lg.done() || missing() > 0 {
			seen, at = len(lg.ops)+len(comps), c.Now()
			return false
		}
		return c.Now() > at+200*ms+2*c.Stall
	}) {
		if !lg.done() {
			c.Fail("op-lost", "submitted operations have not run within %v", lim)
		} else {
			c.Fail("callback-lost", "%d completion callbacks of open connections have not run within %v", missing(), lim)
		}
		return
	}
	lg.judge()
	for _, q := range comps {
		if q.calls > 1 {
			c.Fail("callback-twice", "a completion callback ran %d times", q.calls)
		}
	}
	c.Count("completions", len(comps))
	c.Count("closed_meanwhile", closing)
}

// c11Flood: more operations of one id than its queue holds wait behind a slow
// one; they still all run, once and in order.
func c11Flood(c *Ctx) {
	r := c.R
	weather(c, "tcp", nil)
	n, id := r.pick(50, 2040, 2050, 2100, 2300), r.n(5000)
	hold := time.Duration(r.pick(1, 20, 300)) * ms
	np := r.pick(1, 1, 2)
	c.Shape("n=%d producers=%d", n, np)
	started, ended := 0, 0
	last := make([]int, np)
	out := 0
	for g := 0; g < np; g++ {
		go func() {
			for i := 1; i <= n; i++ {
				zasync_op.Process(id, func() {
					started++
					if started == 1 {
						time.Sleep(hold)
					}
					if last[g] != i-1 {
						c.Fail("op-order", "operation %d of id %d runs after operation %d of the same goroutine", i, id, last[g])
					}
					last[g] = i
					ended++
					if ended != started {
						c.Fail("op-overlap", "two operations of id %d run at the same time", id)
					}
				})
			}
			out++
		}()
	}
	if !c.until(60*sec, func() bool { return out == np && ended == n*np }) {
		c.Fail("op-lost", "%d of %d operations have run in 60s (%d of %d producers are through)", ended, n*np, out, np)
	}
	c.Count("async_operations", ended)
}

// c11Results: one connection; result and callback meet in every way, from
// goroutines of the application.
func c11Results(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec, o.mode = "tlv", r.picks("tcp", "tcp", "websocket")
	o.taskLen = r.pick(1, 2, 64)
	weather(c, o.mode, nil)
	w := newWorld(c, o)
	x := &c11Conn{}
	route(w.s, o, 1, func(q ziface.IRequest) {
		x.cn, x.gid = q.GetConnection(), runtime.SimGoid()
		x.handled++
	})
	c.start(w.s, o)
	p := c.mustDial(o.mode, o.codec)
	p.recv()
	p.send(1, tag(0, 0, 20))
	if !c.until(20*sec, func() bool { return x.handled == 1 }) {
		c.Fail("stuck", "a message is not handled in 20s")
		return
	}
	n := r.rng(1, 12)
	c.Shape("%v n=%d", o, n)
	got := make([]int, n)
	kept := make([]bool, n)
	for i := 0; i < n; i++ {
		a, b := r.pick(0, 0, 1, 40), r.pick(0, 0, 1, 40)
		gap := r.pick(0, 100)
		again := r.n(4) // set once more: 1 the result, 2 the callback, 3 both
		if !c.Op() {
			continue
		}
		kept[i] = true
		res := zasync_op.NewAsyncOpResult(x.cn)
		go func() {
			time.Sleep(time.Duration(a) * time.Microsecond)
			res.SetReturnedObj(i + 1)
			if again&1 != 0 {
				res.SetReturnedObj(-i - 1)
			}
		}()
		go func() {
			time.Sleep(time.Duration(b) * time.Microsecond)
			res.OnComplete(func() {
				got[i]++
				if x.gid != runtime.SimGoid() {
					c.Fail("other-worker", "a completion callback runs on another goroutine than the connection's worker")
				}
				if v, _ := res.GetReturnedObj().(int); v != i+1 {
					c.Fail("result", "the completion callback sees the result %v, %d was set (first)", res.GetReturnedObj(), i+1)
				}
			})
			if again&2 != 0 {
				res.OnComplete(func() {
					c.Fail("callback-twice", "a second completion callback runs, the first one is what was registered")
				})
			}
		}()
		if gap > 0 {
			time.Sleep(time.Duration(gap) * time.Microsecond)
		}
	}
	if !c.until(20*sec, func() bool {
		for i := range got {
			if kept[i] && got[i] == 0 {
				return false
			}
		}
		return true
	}) {
		c.Fail("callback-lost", "a completion callback of an open connection has not run in 20s")
		return
	}
	time.Sleep(10 * ms)
	for i := range got {
		if got[i] > 1 {
			c.Fail("callback-twice", "a completion callback ran %d times", got[i])
		}
	}
	c.Count("completions", n)
}
