package main

import (
	"fmt"
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C04: for every accepted connection the start hook once and first, the stop
// hook once and after it, close callbacks once and in order, teardown bounded.

func init() {
	props["C04"] = []scenario{
		{name: "lifecycle", weight: 4, stall: 40 * ms, late: 5 * ms, run: c04Life},
		{name: "callbacks", weight: 1, stall: 40 * ms, late: 5 * ms, run: c04Callbacks},
	}
}

type c04cb struct {
	k       int
	added   bool // before any cause of closing
	removed bool // before any cause of closing
	maybe   bool // added or removed while closing
	ran     int
	at      int // order of running
	t0, t1  int // when the call that adds it began and returned
}

func c04Life(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.taskLen = max(o.taskLen, 8)
	if r.p(150) {
		o.pool, o.workerMode = 0, ""
	}
	hb := r.p(350)
	hbInt := time.Duration(r.pick(50, 200, 1000)) * ms
	o.hbMax = 2
	weather(c, o.mode, func(n *net.SimNetConfig) {
		if n.Cap > 4096 && r.p(500) {
			n.Cap = 4096
		}
	})
	w := newWorld(c, o)
	hr := r.fork()
	order, stamp := 0, 0
	var busyEnd time.Duration // a handler that may hold its worker has returned, for the last time
	var cbs table[*wconn, []*c04cb]
	startDelay, stopDelay := r.pick(0, 0, 1, 20), r.pick(0, 0, 1, 20)
	add := func(x *wconn, n int) {
		for i := 0; i < n; i++ {
			l := cbs.at(x)
			stamp++
			b := &c04cb{k: len(*l), t0: stamp, t1: 1 << 60}
			*l = append(*l, b)
			x.cn.AddCloseCallback(x, b.k, func() {
				b.ran++
				order++
				b.at = order
			})
			if x.caused || x.cn.Context().Err() != nil {
				b.maybe = true
			}
			b.added = true
			stamp++
			b.t1 = stamp
		}
	}
	remove := func(x *wconn) {
		l := *cbs.at(x)
		if len(l) == 0 {
			return
		}
		b := l[hr.n(len(l))]
		if !b.added {
			return // being added by another goroutine
		}
		x.cn.RemoveCloseCallback(x, b.k)
		b.removed = true
		if x.caused || x.cn.Context().Err() != nil {
			b.maybe = true
		}
	}
	w.onStart = func(x *wconn) {
		k := hr.n(1000)
		if startDelay > 0 && hr.p(500) {
			time.Sleep(time.Duration(hr.n(startDelay*1000)) * time.Microsecond)
		}
		add(x, hr.n(4))
		if k < 60 {
			c.Logf("stop in the start hook: connection %d", x.id)
			w.stop(x)
		}
		if k >= 60 && k < 300 {
			remove(x)
		}
		if k > 900 && o.mode != "kcp" { // a KCP peer with a full window would block the hook itself
			x.cn.SendMsg(9, tag(9, 9, 30))
		}
		if hr.p(200) {
			d := time.Duration(hr.n(30000)) * time.Microsecond
			go func() { time.Sleep(d); w.stop(x) }()
		}
	}
	w.onStop = func(x *wconn) {
		if !x.started {
			c.Fail("stop-before-start", "%s: the stop hook runs before the start hook has returned", w.name(x))
		}
		if stopDelay > 0 && hr.p(500) {
			time.Sleep(time.Duration(hr.n(stopDelay*1000)) * time.Microsecond)
		}
		if hr.p(200) {
			x.cn.Stop()
		}
		if hr.p(200) {
			x.cn.SendMsg(9, tag(9, 9, 30))
			x.cn.SendBuffMsg(9, tag(9, 9, 30))
		}
	}
	enter := func(q ziface.IRequest) *wconn {
		x := w.of(q.GetConnection())
		if x == nil || !x.started {
			c.Fail("handler-before-start", "a message of connection %d is handled before its start hook has returned", q.GetConnection().GetConnID())
			return nil
		}
		x.handled++
		return x
	}
	route(w.s, o, 1, func(q ziface.IRequest) { enter(q) })
	route(w.s, o, 2, func(q ziface.IRequest) {
		if x := enter(q); x != nil {
			c.Logf("stop in a handler: connection %d", x.id)
			w.stop(x)
		}
	})
	route(w.s, o, 3, func(q ziface.IRequest) { // several causes at about the same moment
		x := enter(q)
		if x == nil {
			return
		}
		for i := 0; i < 3; i++ {
			go func() { w.stop(x) }()
		}
	})
	route(w.s, o, 4, func(q ziface.IRequest) { // push against the peer; blocks when it does not read
		x := enter(q)
		if x == nil {
			return
		}
		defer func() { busyEnd = c.Now() }()
		for i := 0; i < 40; i++ {
			if x.cn.SendMsg(8, make([]byte, 2000)) != nil {
				return
			}
		}
	})
	route(w.s, o, 5, func(q ziface.IRequest) {
		x := enter(q)
		if x == nil {
			return
		}
		for i := 0; i < 40; i++ {
			if x.cn.SendBuffMsg(8, make([]byte, 2000)) != nil {
				return
			}
		}
	})
	route(w.s, o, 6, func(q ziface.IRequest) {
		x := enter(q)
		if x == nil {
			return
		}
		if hr.p(500) {
			add(x, 1)
		} else {
			remove(x)
		}
	})
	if hb {
		w.s.StartHeartBeat(hbInt)
	}
	c.start(w.s, o)
	c.Shape("%v hb=%v", o, b2s(hb, hbInt.String()))
	n := r.rng(1, 5)
	done := 0
	var peers []*peer
	for i := 0; i < n; i++ {
		type act struct {
			id  uint32
			gap time.Duration
		}
		var as []act
		for k, m := 0, r.rng(1, 8); k < m; k++ {
			a := act{uint32(r.pick(1, 1, 1, 2, 3, 4, 5, 6, 6)), time.Duration(r.pick(0, 0, 200, 5000)) * time.Microsecond}
			if c.Op() {
				as = append(as, a)
			}
		}
		mute := c.Fault("peer-stops-reading", 300)
		how := r.picks("close", "close", "reset", "abrupt", "stay", "stay")
		first := r.p(100) // goes away at once
		wait := time.Duration(r.n(30000)) * time.Microsecond
		twice := r.p(300)
		go func() {
			defer func() { done++ }()
			p := c.mustDial(o.mode, o.codec)
			peers = append(peers, p)
			p.pause = mute
			p.recv()
			if first && o.mode != "kcp" {
				w.gone(p, "close")
				return
			}
			for _, a := range as {
				if p.send(a.id, tag(i, 0, 20)) != nil {
					break
				}
				if a.gap > 0 {
					time.Sleep(a.gap)
				}
			}
			time.Sleep(wait)
			x := w.by(p)
			if twice && x != nil { // both sides at once
				go w.stop(x)
			}
			if o.mode == "kcp" {
				return
			}
			if how != "stay" {
				w.gone(p, how)
			}
		}()
	}
	// a handler that sends to a peer that does not read may hold its worker, and with it other peers, until the end
	c.until(20*sec, func() bool { return done == n })
	time.Sleep(time.Duration(r.n(200)) * ms)
	if o.mode == "kcp" { // retransmissions of an open peer would bring up new sessions for ever
		for _, p := range peers {
			p.close()
		}
		time.Sleep(3 * sec)
	}
	if o.mode != "kcp" && !c.until(20*sec, func() bool { return len(w.conns) >= len(peers) }) {
		c.Fail("no-start", "%d peers connected, %d start hooks ran", len(peers), len(w.conns))
		return
	}
	accepted := len(w.conns)
	// now everything left is ended from the server side, some of them twice
	for _, x := range w.conns {
		if hr.p(300) {
			go x.cn.Stop()
		}
		w.stop(x)
	}
	limit := c.Now()
	over := func() bool {
		for _, x := range w.conns {
			if !w.over(x) || x.stops == 0 {
				return false
			}
			if _, err := w.s.GetConnMgr().Get(x.id); err == nil {
				return false
			}
		}
		return true
	}
	bound := 5 * sec
	if o.tls {
		bound += 5 * sec // crypto/tls tries that long to say goodbye to a peer that does not read
	}
	c.until(bound, over)
	_ = limit
	time.Sleep(50 * ms) // a second hook or callback would run now
	for _, x := range w.conns {
		if x.cn.Context().Err() == nil {
			c.Fail("context", "%s was stopped, its context is not done", w.name(x))
		}
		if x.stops == 0 {
			c.Fail("teardown", "%s was told to end %v ago, its stop hook has not run", w.name(x), c.Now()-x.causeAt)
		} else if !w.over(x) {
			c.Fail("teardown", "%s was told to end %v ago, its teardown has not finished", w.name(x), c.Now()-x.causeAt)
		} else if _, err := w.s.GetConnMgr().Get(x.id); err == nil {
			c.Fail("manager", "%s has ended and is still in the connection manager", w.name(x))
		}
		if x.stops == 1 && x.stopAt-max(x.causeAt, busyEnd) > bound {
			c.Fail("teardown", "%s ended %v after the cause", w.name(x), x.stopAt-x.causeAt)
		}
	}
	for _, x := range w.conns { // an ended connection refuses every send, at once
		if x.stops == 0 || !w.over(x) {
			continue
		}
		if x.cn.IsAlive() {
			c.Fail("alive-after-end", "%s has ended, it says it is alive", w.name(x))
		}
		for op := 0; op < len(opName); op++ {
			err := error(nil)
			if !c.within(sec, func() { err = doSend(x.cn, o.codec, op, 9, tag(9, 9, 30)) }) {
				c.Fail("send-after-end", "%s has ended, %s does not return", w.name(x), opName[op])
			} else if err == nil {
				c.Fail("send-after-end", "%s has ended, %s reports success", w.name(x), opName[op])
			}
		}
	}
	if o.mode != "kcp" && !c.until(20*sec, func() bool { return done == n }) {
		c.Fail("peers", "all connections have been ended, peers are still connected")
		return
	}
	w.checkHooks(false)
	// sockets
	for _, p := range peers {
		if p.tc != nil && w.by(p) != nil && !net.SimNetPeerClosed(p.tc) {
			c.Fail("socket", "%s has ended, its socket is still open", w.name(w.by(p)))
		}
	}
	c04Judge(c, w, &cbs)
	c.Count("connections", accepted)
	c.Count("callbacks", order)
	for _, x := range w.conns {
		c.Count("messages_handled", x.handled)
	}
}

func c04Judge(c *Ctx, w *world, cbs *table[*wconn, []*c04cb]) {
	for i, x := range cbs.ks {
		for _, b := range *cbs.vs[i] {
			if b.ran > 1 {
				c.Fail("callback-twice", "%s: close callback %d ran %d times", w.name(x), b.k, b.ran)
			}
			if !b.maybe && b.added && !b.removed && b.ran == 0 && x.ended {
				c.Fail("callback-lost", "%s: close callback %d of %d did not run", w.name(x), b.k, len(*cbs.vs[i]))
			}
			if !b.maybe && b.removed && b.ran > 0 {
				c.Fail("callback-removed", "%s: close callback %d ran though it had been removed", w.name(x), b.k)
			}
			for _, d := range *cbs.vs[i] {
				if b.ran > 0 && d.ran > 0 && d.t1 < b.t0 && b.at < d.at {
					c.Fail("callback-order", "%s: close callback %d ran before callback %d, which was added earlier", w.name(x), b.k, d.k)
				}
			}
		}
	}
}

// c04Callbacks: many goroutines add and remove callbacks, then one cause.
func c04Callbacks(c *Ctx) {
	r := c.R
	o := drawServer(r)
	weather(c, o.mode, nil)
	w := newWorld(c, o)
	route(w.s, o, 1, func(ziface.IRequest) {})
	c.start(w.s, o)
	p := c.mustDial(o.mode, o.codec)
	p.recv()
	p.send(1, []byte("hello"))
	if !c.until(60*sec, func() bool { return w.by(p) != nil && w.by(p).started }) {
		c.Fail("no-start", "the connection was not started")
		return
	}
	x := w.by(p)
	type key struct{ g, k int }
	type cb struct {
		key
		h    string // the handler it is added with
		mark key    // the key it is added with
		keep bool
		ran  int
		at   int
		seq  int // order of Add returning within the goroutine
	}
	var all []*cb
	order := 0
	ng := r.rng(1, 4)
	done := 0
	// with few keys, a goroutine adds several callbacks with the same handler
	// and key: each is a callback of its own, and removing takes one of them away
	few := r.p(400)
	c.Shape("%v callbacks g=%d few=%v", o, ng, few)
	for g := 0; g < ng; g++ {
		type act struct{ rm bool }
		var as []bool
		gr := r.fork()
		for k, m := 0, r.rng(1, 12); k < m; k++ {
			rm := r.p(400)
			if c.Op() {
				as = append(as, rm)
			}
		}
		go func() {
			defer func() { done++ }()
			var mine []*cb
			for k, rm := range as {
				if rm && len(mine) > 0 {
					j := gr.n(len(mine))
					x.cn.RemoveCloseCallback(mine[j].h, mine[j].mark)
					mine[j].keep = false
					mine = append(mine[:j:j], mine[j+1:]...)
					continue
				}
				switch gr.n(12) {
				case 0: // adds nothing
					x.cn.AddCloseCallback("h", key{g, k}, nil)
				case 1: // not there
					x.cn.RemoveCloseCallback("g", key{g, k})
				}
				b := &cb{key: key{g, k}, h: "h", mark: key{g, k}, keep: true, seq: k}
				if few {
					b.h, b.mark.k = [2]string{"h", "i"}[gr.n(2)], gr.n(2)
				}
				all = append(all, b)
				x.cn.AddCloseCallback(b.h, b.mark, func() {
					b.ran++
					order++
					b.at = order
				})
				mine = append(mine, b)
			}
		}()
	}
	if !c.until(20*sec, func() bool { return done == ng }) {
		c.Fail("callback-blocked", "adding or removing a close callback blocks")
		return
	}
	causes := r.rng(1, 3)
	for i := 0; i < causes; i++ {
		if i == 1 && o.mode != "kcp" {
			go w.gone(p, r.picks("close", "reset"))
		} else {
			go w.stop(x)
		}
	}
	c.until(5*sec, func() bool { return x.ended })
	time.Sleep(100 * ms)
	if !x.ended || x.stops != 1 {
		c.Fail("teardown", "%s: the teardown has not finished in 5s (stop hook ran %d times)", w.name(x), x.stops)
		return
	}
	for _, b := range all {
		name := fmt.Sprintf("%s: close callback %d of goroutine %d", w.name(x), b.k, b.g)
		if few {
			kept, ran := 0, 0
			for _, d := range all {
				if d.h == b.h && d.mark == b.mark {
					kept, ran = kept+b2i(d.keep, 1, 0), ran+d.ran
				}
			}
			if kept != ran {
				c.Fail("callback-lost", "%s: %d close callbacks were left under handler %s and key %v, %d of them ran", w.name(x), kept, b.h, b.mark, ran)
			}
		}
		switch {
		case few && b.ran <= 1:
		case b.keep && b.ran == 0:
			c.Fail("callback-lost", "%s did not run", name)
		case !b.keep && b.ran > 0:
			c.Fail("callback-removed", "%s ran though it had been removed", name)
		case b.ran > 1:
			c.Fail("callback-twice", "%s ran %d times", name, b.ran)
		}
		for _, d := range all {
			if d.g == b.g && d.ran > 0 && b.ran > 0 && d.seq > b.seq && d.at < b.at {
				c.Fail("callback-order", "%s ran after callback %d of the same goroutine, which was added later", name, d.k)
			}
		}
	}
	c.Count("callbacks", order)
}
