package main

import (
	"fmt"
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znotify"
)

// C17: notifications reach exactly the registered connections. Every id has
// one writer, so the intervals during which it may, or must, stand for a
// connection are known; every notification carries a payload of its own, and
// what arrives at each peer is counted against those intervals.

func init() {
	props["C17"] = []scenario{
		{name: "notify", weight: 3, stall: 400 * time.Microsecond, late: ms, run: func(c *Ctx) { c17Notify(c, false) }},
		{name: "stalled-peer", weight: 2, stall: 400 * time.Microsecond, late: ms, run: func(c *Ctx) { c17Notify(c, true) }},
	}
}

type ntrans struct {
	inv, ret time.Duration // ret < 0: not returned
	to       *wconn        // nil: deleted
}

type nreg struct {
	id   uint64
	hist []*ntrans
}

// may: the id may stand for x (nil: for nothing) at some moment of [a,b].
func (g *nreg) may(x *wconn, a, b time.Duration) bool {
	if x == nil && (len(g.hist) == 0 || g.hist[0].ret < 0 || g.hist[0].ret >= a) {
		return true
	}
	for k, t := range g.hist {
		if t.to == x && t.inv <= b && (k+1 == len(g.hist) || g.hist[k+1].ret < 0 || g.hist[k+1].ret >= a) {
			return true
		}
	}
	return false
}

// must: it stands for x all through [a,b].
func (g *nreg) must(x *wconn, a, b time.Duration) bool {
	if x == nil && (len(g.hist) == 0 || g.hist[0].inv > b) {
		return true
	}
	for k, t := range g.hist {
		if t.to == x && t.ret >= 0 && t.ret < a && (k+1 == len(g.hist) || g.hist[k+1].inv > b) {
			return true
		}
	}
	return false
}

type nsend struct {
	n, by    int
	all      bool
	buff     bool
	reg      *nreg
	size     int
	inv, ret time.Duration
	err      error
}

func (s *nsend) String() string {
	k := "direct"
	if s.buff {
		k = "buffered"
	}
	if s.all {
		return fmt.Sprintf("%s broadcast %d", k, s.n)
	}
	return fmt.Sprintf("%s notification %d to id %d", k, s.n, s.reg.id)
}

func c17Notify(c *Ctx, stall bool) {
	r := c.R
	o := drawServer(r)
	o.codec = "tlv"
	o.maxConn = 64
	if o.workerMode == "Bind" {
		o.pool = 64
	}
	o.chanLen = 1024
	var capN int
	if stall {
		capN = r.pick(256, 2048, 8192)
	}
	weather(c, o.mode, func(n *net.SimNetConfig) {
		n.Loss = min(n.Loss, 100)
		if stall {
			n.Cap = capN
		}
	})
	w := newWorld(c, o)
	route(w.s, o, 1, func(q ziface.IRequest) {})
	c.start(w.s, o)
	ntf := znotify.NewZNotify()

	type np struct {
		p     *peer
		x     *wconn
		stall bool
		gone  bool // ended, or about to
	}
	nc := r.rng(1, 5)
	ps := make([]*np, nc)
	for i := range ps {
		n := &np{p: c.mustDial(o.mode, o.codec)}
		n.stall = stall && (i == 0 || r.p(200))
		n.p.pause = n.stall
		n.p.send(1, []byte("hi"))
		n.p.recv()
		ps[i] = n
		if !c.until(60*sec, func() bool { n.x = w.by(n.p); return n.x != nil && n.x.started }) {
			c.Fail("no-start", "a connection was not started")
			return
		}
	}
	nid := r.rng(1, 8)
	base := uint64(r.pick(0, 1, 1000, 1<<40))
	regs := make([]*nreg, nid)
	for i := range regs {
		id := base + uint64(i*r.rng(1, 9))
		for j := 0; j < i; j++ {
			if regs[j].id == id {
				id, j = id+1, -1
			}
		}
		regs[i] = &nreg{id: id}
	}
	c.Shape("%v conns=%d ids=%d stall=%v", o, nc, nid, stall)
	brief := 500*ms + time.Duration(c.NStall+1)*c.Stall + 20*c.Late
	timed := func(what string, t time.Duration, lim time.Duration) {
		if d := c.Now() - t; d > lim {
			c.Fail("slow", "%s took %v", what, d)
		}
	}
	busy := table[string, int]{}
	set := func(g *nreg, x *wconn) {
		t := &ntrans{inv: c.Now(), ret: -1, to: x}
		g.hist = append(g.hist, t)
		*busy.at("registrations")++
		if x == nil {
			ntf.DelNotifyByID(g.id)
			c.Logf("delete %d", g.id)
		} else {
			ntf.SetNotifyID(g.id, x.cn)
			c.Logf("set %d to connection %d", g.id, x.id)
		}
		*busy.at("registrations")--
		timed("a registration", t.inv, brief)
		t.ret = c.Now()
	}
	var sends []*nsend
	notify := func(by int, all, buff bool, g *nreg, size int) {
		s := &nsend{n: len(sends), by: by, all: all, buff: buff, reg: g, size: size, inv: c.Now(), ret: -1}
		sends = append(sends, s)
		data := tag(s.n, 0, size)
		id := uint32(100 + s.n)
		kind := "direct notifications"
		if buff {
			kind = "buffered notifications"
		}
		*busy.at(kind)++
		switch {
		case all && buff:
			s.err = ntf.NotifyBuffAll(id, data)
		case all:
			s.err = ntf.NotifyAll(id, data)
		case buff:
			s.err = ntf.NotifyBuffToConnByID(g.id, id, data)
		default:
			s.err = ntf.NotifyToConnByID(g.id, id, data)
		}
		s.ret = c.Now()
		*busy.at(kind)--
		c.Logf("%v: %v", s, s.err)
		if buff {
			timed("a "+s.String(), s.inv, brief+time.Duration(nid)*20*ms)
		}
	}
	look := func(g *nreg) {
		t := c.Now()
		*busy.at("lookups")++
		defer func() { *busy.at("lookups")-- }()
		has := ntf.HasIdConn(g.id)
		t1 := c.Now()
		if has && g.must(nil, t, t1) {
			c.Fail("lookup", "HasIdConn(%d) is true, nothing is registered under it", g.id)
		}
		if !has && !g.may(nil, t, t1) {
			c.Fail("lookup", "HasIdConn(%d) is false, a connection is registered under it", g.id)
		}
		t = c.Now()
		cn, err := ntf.GetNotifyByID(g.id)
		t1 = c.Now()
		if err != nil && !g.may(nil, t, t1) {
			c.Fail("lookup", "GetNotifyByID(%d) reports %v, a connection is registered under it", g.id, err)
		}
		if err == nil && (w.of(cn) == nil || !g.may(w.of(cn), t, t1)) {
			c.Fail("lookup", "GetNotifyByID(%d) returned a connection not registered under it at that time", g.id)
		}
		t = c.Now()
		n := ntf.ConnNums()
		t1 = c.Now()
		lo, hi := 0, 0
		for _, q := range regs {
			if !q.may(nil, t, t1) {
				lo++
			}
			if !q.must(nil, t, t1) {
				hi++
			}
		}
		if n < lo || n > hi {
			c.Fail("lookup", "ConnNums returned %d with %d to %d ids registered", n, lo, hi)
		}
		timed("a lookup", t, brief)
	}
	// initial registrations
	for _, g := range regs {
		if k := r.n(nc + 1); k < nc {
			set(g, ps[k].x)
		}
	}
	if stall && len(regs[0].hist) == 0 {
		set(regs[0], ps[0].x)
	}
	running, open := 0, 0
	big := 60
	if stall && o.mode != "kcp" {
		big = r.pick(60, 600, 3000)
	}
	// registrars
	for _, g := range regs {
		gr := r.fork()
		n := gr.pick(0, 0, 2, 6, 20)
		if n == 0 {
			continue
		}
		type act struct {
			k    int
			wait time.Duration
			keep bool
		}
		as := make([]act, n)
		for i := range as {
			as[i] = act{gr.n(nc + 2), time.Duration(gr.pick(0, 0, 20, 300, 3000)) * time.Microsecond, c.Op()}
		}
		running++
		go func() {
			for _, a := range as {
				if !a.keep {
					continue
				}
				if a.k < nc {
					set(g, ps[a.k].x)
				} else {
					set(g, nil)
				}
				if a.wait > 0 {
					time.Sleep(a.wait)
				}
			}
			running--
		}()
	}
	// notifiers
	nn := r.rng(1, 4)
	for i := 0; i < nn; i++ {
		gr := r.fork()
		n := gr.rng(2, 12)
		type act struct {
			what int
			g    *nreg
			size int
			wait time.Duration
			keep bool
		}
		as := make([]act, n)
		for j := range as {
			as[j] = act{gr.n(5), regs[gr.n(nid)], gr.pick(12, 40, big), time.Duration(gr.pick(0, 0, 20, 300, 3000)) * time.Microsecond, c.Op()}
		}
		running++
		go func() {
			for _, a := range as {
				if !a.keep {
					continue
				}
				switch a.what {
				case 0, 1:
					notify(i, true, a.what == 1, nil, a.size)
				case 2, 3:
					notify(i, false, a.what == 3, a.g, a.size)
				default:
					look(a.g)
				}
				if a.wait > 0 {
					time.Sleep(a.wait)
				}
			}
			running--
		}()
	}
	if stall { // one that only uses the buffered operations
		n, size := r.rng(4, 12), r.pick(40, big)
		open++
		go func() {
			for j := 0; j < n; j++ {
				notify(99, true, true, nil, size)
				look(regs[j%nid])
				time.Sleep(2 * ms)
			}
			open--
		}()
	}
	// connections that end
	for _, n := range ps[1:] {
		if r.p(250) {
			d, how := time.Duration(r.n(6000))*time.Microsecond, r.picks("close", "reset", "stop")
			if !c.Op() {
				continue
			}
			n.gone = true
			running++
			go func() {
				time.Sleep(d)
				if how == "stop" || o.mode == "kcp" {
					w.stop(n.x)
				} else {
					w.gone(n.p, how)
				}
				running--
			}()
		}
	}
	long := 20*sec + 2*brief
	if o.mode == "kcp" {
		long = 200 * sec
	}
	got := func(p *peer, s *nsend) int {
		k := 0
		for _, f := range p.frames {
			if f.id == uint32(100+s.n) {
				k++
			}
		}
		return k
	}
	end := func(s *nsend) time.Duration {
		if s.ret < 0 {
			return c.Now()
		}
		return s.ret
	}
	// owed counts what a peer must still get of s
	bounds := func(n *np, s *nsend) (lo, hi int) {
		if !s.all {
			if s.reg.may(n.x, s.inv, end(s)) {
				hi = 1
				if s.ret >= 0 && s.err == nil && s.reg.must(n.x, s.inv, s.ret) && !n.gone {
					lo = 1
				}
			}
			return
		}
		for _, g := range regs {
			if g.may(n.x, s.inv, end(s)) {
				hi++
			}
			if s.ret >= 0 && g.must(n.x, s.inv, s.ret) && !n.gone && !(s.buff && n.stall) {
				lo++
			}
		}
		return
	}
	settled := func(only func(*np, *nsend) bool) (bool, string) {
		for _, s := range sends {
			for i, n := range ps {
				if !only(n, s) {
					continue
				}
				if lo, _ := bounds(n, s); got(n.p, s) < lo {
					return false, fmt.Sprintf("%v: peer %d, registered throughout under %d ids, got it %d times", s, i, lo, got(n.p, s))
				}
			}
		}
		return true, ""
	}
	// patient waits for f as long as bytes keep arriving somewhere
	patient := func(f func() bool) bool {
		for k := 0; k < 40; k++ {
			rx := 0
			for _, n := range ps {
				rx += n.p.rxN
			}
			if c.until(long, f) {
				return true
			}
			for _, n := range ps {
				rx -= n.p.rxN
			}
			if rx == 0 {
				break
			}
		}
		return false
	}
	if stall {
		// as long as some peers do not read, the buffered operations and the
		// registrations complete, and what they send arrives elsewhere
		c.until(long, func() bool { return open == 0 })
		for _, k := range []string{"registrations", "buffered notifications", "lookups"} {
			n := 0
			if !c.until(brief, func() bool { n = *busy.at(k); return n == 0 || running == 0 }) && n > 0 {
				m := *busy.at(k)
				time.Sleep(3 * sec)
				if *busy.at(k) >= m && m > 0 {
					c.Fail("blocked", "%d %s wait while a connection's peer does not read", m, k)
				}
			}
		}
		if open > 0 {
			c.Fail("blocked", "the buffered operations wait while a connection's peer does not read")
		}
		why := ""
		if !patient(func() bool {
			var ok bool
			ok, why = settled(func(n *np, s *nsend) bool { return s.buff && !n.stall })
			return ok
		}) && !c.Failed() {
			c.Fail("others", "while another peer does not read: %s", why)
		}
		if c.Failed() {
			return
		}
		for _, n := range ps {
			if n.p.pause {
				talk(n.p, new(bool))
			}
			n.p.pause = false
		}
	}
	if !patient(func() bool { return running == 0 }) {
		c.Fail("blocked", "%d goroutines that register or notify are blocked though the peers read", running)
		return
	}
	why := ""
	if !patient(func() bool {
		var ok bool
		ok, why = settled(func(*np, *nsend) bool { return true })
		return ok
	}) {
		c.Fail("missed", "%s", why)
	}
	time.Sleep(50 * ms)
	for i, n := range ps {
		if !n.gone && n.p.eof {
			c.Fail("closed", "peer %d was disconnected: %v", i, n.p.eofErr)
		}
		for _, f := range n.p.frames {
			k := int(f.id) - 100
			if who, _, ok := untag(f.data); !ok || k < 0 || k >= len(sends) || who != k {
				c.Fail("foreign", "peer %d got a frame that is no notification: id %d, %s", i, f.id, short(f.data))
			}
		}
		if c.Failed() {
			return
		}
		for by := 0; by < 100; by++ {
			last := [2]int{-1, -1}
			for _, f := range n.p.frames {
				s := sends[int(f.id)-100]
				if s.by != by {
					continue
				}
				k := 0
				if s.buff {
					k = 1
				}
				if s.n < last[k] {
					c.Fail("order", "%v reached peer %d after notification %d, which the same goroutine sent later", s, i, last[k])
				}
				last[k] = s.n
			}
		}
		for _, s := range sends {
			if _, hi := bounds(n, s); got(n.p, s) > hi {
				c.Fail("too-many", "%v: peer %d got it %d times, it was registered under at most %d ids", s, i, got(n.p, s), hi)
			}
		}
	}
	for _, s := range sends {
		if s.all {
			if s.err != nil {
				c.Fail("error", "%v returned %v", s, s.err)
			}
			continue
		}
		if s.err == nil && s.reg.must(nil, s.inv, s.ret) {
			c.Fail("error", "%v reports success, nothing is registered under the id", s)
		}
		for _, n := range ps {
			if s.err != nil && s.reg.must(n.x, s.inv, s.ret) && !n.gone && !(s.buff && n.stall) {
				c.Fail("error", "%v reports %v, an open connection is registered under the id", s, s.err)
			}
		}
	}
	for _, g := range regs {
		look(g)
	}
	c.Count("notifications", len(sends))
}
