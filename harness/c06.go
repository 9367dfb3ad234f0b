package main

import (
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C06: never more connections than MaxConn; capacity comes back.

func init() {
	props["C06"] = []scenario{
		{name: "bursts", weight: 1, stall: 40 * ms, late: 5 * ms, run: c06Bursts},
	}
}

func c06Bursts(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(500) {
		o.mode = ""
	}
	o.tls = false // its handshake would wait for a place
	o.maxConn = r.pick(1, 2, 3, 5)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	weather(c, map[bool]string{true: "tcp", false: o.mode}[o.mode == ""], func(n *net.SimNetConfig) { n.CloseRST = false })
	w := newWorld(c, o)
	mgr := w.s.GetConnMgr()
	look := func() {
		if w.live > o.maxConn {
			c.Fail("over-limit", "%d connections are served at once, the maximum is %d (mode %q)", w.live, o.maxConn, o.mode)
		}
	}
	startDelay := r.pick(0, 0, 5)
	hr := r.fork()
	w.onStart = func(x *wconn) {
		look()
		if startDelay > 0 {
			time.Sleep(time.Duration(hr.n(startDelay*1000)) * time.Microsecond)
			look()
		}
	}
	w.onStop = func(x *wconn) { look() }
	handled := table[string, int]{}
	route(w.s, o, 1, func(q ziface.IRequest) {
		look()
		*handled.at(q.GetConnection().RemoteAddrString())++
		x := w.of(q.GetConnection())
		if x == nil {
			c.Fail("not-admitted", "a message of a connection that was not admitted is handled")
			return
		}
		q.GetConnection().SendMsg(2, q.GetData())
	})
	route(w.s, o, 3, func(q ziface.IRequest) {
		if x := w.of(q.GetConnection()); x != nil {
			w.stop(x)
		}
	})
	c.start(w.s, o)
	mode := func(k int) string {
		if o.mode == "" {
			return []string{"tcp", "websocket"}[k&1]
		}
		return o.mode
	}
	// phase 1: bursts of peers, more than fit, staying for a while
	n := r.rng(o.maxConn, o.maxConn*2+3)
	c.Shape("%v peers=%d", o, n)
	over := false
	go func() {
		for !over {
			look()
			time.Sleep(time.Duration(hr.pick(3, 50, 1000)) * time.Microsecond)
		}
	}()
	kcpAddrs := 0
	done, ops := 0, 0
	spread := r.pick(0, 0, 200, 5000)
	for i := 0; i < n; i++ {
		pr := r.fork()
		lives := r.rng(1, 3)
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			for l := 0; l < lives; l++ {
				if spread > 0 {
					time.Sleep(time.Duration(pr.n(spread)) * time.Microsecond)
				}
				p, err := c.dial(mode(i+l), o.codec)
				if err != nil {
					time.Sleep(time.Duration(pr.n(20)) * ms)
					continue // a WebSocket peer over the limit
				}
				p.recv()
				p.send(1, tag(i, l, 30))
				stay := time.Duration(pr.n(60)) * ms
				if p.mode == "kcp" {
					// waits until it is served, then asks to be closed
					if c.until(60*sec, func() bool { return len(p.frames) > 0 }) {
						time.Sleep(stay)
					}
					p.close()
					kcpAddrs++
					time.Sleep(1500 * ms)
					if x := w.by(p); x != nil {
						w.stop(x)
					}
					continue
				}
				if pr.p(500) { // stays until it has been served or turned away
					c.until(20*sec, func() bool { return len(p.frames) > 0 || p.eof })
				}
				time.Sleep(stay)
				w.gone(p, pr.picks("close", "reset", "abrupt"))
			}
		}()
	}
	if !c.until(600*sec, func() bool { return done == ops }) {
		c.Fail("stuck", "peers cannot finish: %d of %d did", done, ops)
		return
	}
	// everything that was admitted has been closed: capacity is back
	if o.mode == "kcp" {
		end := c.Now() + 30*sec
		c.until(30*sec, func() bool {
			for _, x := range w.conns {
				if x.stops == 0 {
					w.stop(x)
				}
			}
			return c.Now() > end-28*sec && mgr.Len() == 0
		})
	}
	if !c.until(20*sec, func() bool { return mgr.Len() == 0 && w.live == 0 }) {
		c.Fail("leak", "all peers have closed, the server still counts %d connections (%d live)", mgr.Len(), w.live)
		return
	}
	// phase 2: exactly MaxConn peers are served together
	var ps []*peer
	t := c.Now()
	for i := 0; i < o.maxConn; i++ {
		var p *peer
		if !c.until(20*sec, func() bool {
			q, err := c.dial(mode(i), o.codec)
			p = q
			return err == nil
		}) {
			c.Fail("capacity", "with %d of %d connections a peer cannot connect in 20s", i, o.maxConn)
			return
		}
		ps = append(ps, p)
		p.recv()
		p.send(1, tag(100+i, 0, 30))
	}
	lim := 20 * sec
	if o.mode == "kcp" {
		lim = 90 * sec
	}
	if !c.until(lim, func() bool {
		all := true
		for i, p := range ps {
			if len(p.frames) > 0 {
				continue
			}
			all = false
			// a peer of the first phase that gave up while it waited to be accepted may
			// have held a place for a moment: whoever was turned away tries again
			if p.eof && o.mode != "kcp" {
				if q, err := c.dial(mode(i), o.codec); err == nil {
					ps[i] = q
					q.recv()
					q.send(1, tag(100+i, 0, 30))
					time.Sleep(20 * ms)
				}
			}
		}
		return all
	}) {
		k := 0
		for _, p := range ps {
			if len(p.frames) > 0 {
				k++
			}
		}
		c.Fail("capacity", "after the churn only %d of %d peers are served in %v", k, o.maxConn, c.Now()-t)
		return
	}
	over = true
	// phase 3: full; one more is not served, until a place becomes free
	if o.mode != "kcp" {
		m, full := mode(r.n(2)), time.Duration(r.pick(3, 3, 70, 200))*sec
		p, err := c.dial(m, o.codec)
		if err == nil {
			p.recv()
			p.send(1, tag(500, 0, 30))
			time.Sleep(full) // a server may stay at its limit for long
			if len(p.frames) > 0 || *handled.at(p.addr()) > 0 {
				c.Fail("over-limit", "a peer beyond the maximum of %d is served (%s)", o.maxConn, m)
			}
			w.gone(ps[0], "close")
			if m == "tcp" && !p.eof && !c.until(20*sec, func() bool { return len(p.frames) > 0 || p.eof }) {
				c.Fail("waiting", "a place has become free, the waiting peer is neither served nor closed in 20s")
			}
			if p.eof {
				c.Count("turned_away", 1)
			}
		} else {
			c.Count("refused", 1)
		}
	}
	c.Count("connections", len(w.conns))
	if w.maxLv == o.maxConn {
		c.Count("runs_at_limit", 1)
	}
}
