package main

import (
	"net"
	"syscall"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C21: the server outlives accept errors.

func init() {
	props["C21"] = []scenario{
		{name: "accept-errors", weight: 1, stall: 40 * ms, late: 5 * ms, run: c21Accept},
	}
}

var acceptErrs = []error{syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.ENOBUFS, syscall.EPROTO, syscall.ENETDOWN, syscall.EPERM, syscall.EHOSTUNREACH}

func c21Accept(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode = r.picks("tcp", "tcp", "websocket", "", "")
	o.codec = "tlv"
	o.maxConn = r.pick(2, 3, 64)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	weather(c, "tcp", nil)
	w := newWorld(c, o)
	route(w.s, o, 1, func(q ziface.IRequest) { q.GetConnection().SendMsg(2, q.GetData()) })
	c.start(w.s, o)
	ports := []int{tcpPort, wsPort}
	if o.mode == "tcp" {
		ports = ports[:1]
	} else if o.mode == "websocket" {
		ports = ports[1:]
	}
	mode := func(port int) string {
		if port == wsPort {
			return "websocket"
		}
		return "tcp"
	}
	slack := 3*sec + time.Duration(c.NStall+1)*c.Stall + 20*c.Late
	c.Shape("%v", o)
	// a connection that is there all along
	var old *peer
	oldSeq := 0
	if o.maxConn > 2 || r.p(500) {
		old = c.mustDial(mode(ports[0]), o.codec)
		old.recv()
		oldSeq++
		old.send(1, tag(999, oldSeq, 40))
		if !c.until(slack, func() bool { return len(old.frames) >= oldSeq }) {
			c.Fail("not-served", "a peer is not served within %v", slack)
			return
		}
	}
	var accepts []int64
	calm := c.Now() // when errors and the shortage of places were last over
	echo := func() {
		if old == nil {
			return
		}
		oldSeq++
		old.send(1, tag(999, oldSeq, 40))
		if !c.until(slack, func() bool { return len(old.frames) >= oldSeq }) {
			c.Fail("old-connection", "while accepts fail, a connection established before is not served within %v", slack)
		}
	}
	// served waits until peer i is served, dialling again when it is turned away
	attempt := func(i int, port int, until time.Duration) (*peer, bool) {
		for k := 0; ; k++ {
			p, err := c.dial(mode(port), o.codec)
			if err == nil {
				p.recv()
				go p.send(1, tag(i, k, 40)) // over TLS it waits to be accepted
				c.until(max(until-c.Now(), 0), func() bool { return len(p.frames) > 0 || p.eof })
				if len(p.frames) > 0 {
					return p, true
				}
				p.close()
			}
			if c.Now() >= until {
				return nil, false
			}
			time.Sleep(20 * ms)
		}
	}
	episodes := r.rng(1, 4)
	for e := 0; e < episodes && !c.Failed(); e++ {
		port := ports[r.n(len(ports))]
		err := acceptErrs[r.n(len(acceptErrs))]
		kind := r.pick(0, 0, 0, 1, 1)
		nerr := r.pick(1, 2, 5, 9, 12)
		dur := time.Duration(r.pick(3, 50, 700, 4000, 15000)) * ms
		npeers := r.rng(1, 4)
		other := r.p(400)
		pause := time.Duration(r.pick(0, 1, 30, 900)) * ms
		if !c.Op() {
			continue
		}
		c.Fault("accept-error", 1000)
		c.Logf("episode %d: %v on port %d, kind %d, %d errors / %v, %d peers", e, err, port, kind, nerr, dur, npeers)
		if kind == 0 {
			net.SimNetAcceptFault(port, err)
		} else {
			es := make([]error, nerr)
			for k := range es {
				es[k] = acceptErrs[r.n(len(acceptErrs))]
			}
			net.SimNetAcceptErrors(port, es...)
		}
		// peers that dial meanwhile: the backlog completes their handshakes
		type waiting struct {
			p    *peer
			ok   bool
			done bool
		}
		ws := make([]waiting, npeers)
		free := o.maxConn - w.live
		for i := range ws {
			x := &ws[i]
			go func() {
				time.Sleep(time.Duration(i) * pause / 4)
				x.p, x.ok = attempt(e*10+i, port, c.Now()+60*sec)
				x.done = true
			}()
		}
		if other && len(ports) > 1 {
			op := ports[0] + ports[1] - port
			t := c.Now()
			lim := slack
			if free <= npeers {
				lim = 0
			}
			if p, ok := attempt(500+e, op, t+lim); ok {
				p.close()
			} else if lim > 0 {
				c.Fail("other-listener", "while accepts fail on port %d, a peer of port %d is not served within %v", port, op, lim)
			}
		}
		echo()
		if kind == 0 {
			time.Sleep(dur)
			net.SimNetAcceptFault(port, nil)
		} else if !c.until(time.Duration(nerr)*1100*ms+slack, func() bool { return len(net.SimNetAcceptFaults(port)) > 0 && net.SimNetAcceptErrorsLeft(port) == 0 }) {
			c.Fail("gave-up", "after an accept error on port %d (%v) accept is not tried again: %d of %d errors are left", port, err, net.SimNetAcceptErrorsLeft(port), nerr)
			break
		}
		calm = c.Now()
		// once errors stop, as many are served as there is room for; those
		// leave, the next ones take their places
		for left := npeers; left > 0 && !c.Failed(); {
			n := 0
			if !c.until(slack, func() bool {
				n = 0
				for i := range ws {
					if ws[i].done && ws[i].ok && ws[i].p != nil {
						n++
					}
				}
				return n > 0
			}) {
				c.Fail("not-served", "%v after the last accept error on port %d (%v), with %d of %d connections, a peer is still not served (%d waiting)", c.Now()-calm, port, err, w.live, o.maxConn, left)
				break
			}
			for i := range ws {
				if x := &ws[i]; x.done && x.ok && x.p != nil {
					w.gone(x.p, "close")
					x.p = nil
					left--
				}
			}
			calm = c.Now()
		}
		c.Count("episodes", 1)
	}
	for _, x := range w.conns {
		accepts = append(accepts, c.t0+int64(x.startAt))
	}
	// attempts per second
	for _, port := range ports {
		ts := net.SimNetAcceptFaults(port)
		c.Count("accept_attempts_failed", len(ts))
		for i, j := 0, 0; j < len(ts); j++ {
			for ts[j]-ts[i] > int64(sec) {
				i++
			}
			lim := 50
			for _, a := range accepts {
				if a >= ts[i]-int64(sec) && a <= ts[j]+int64(100*ms) {
					lim += 10
				}
			}
			if j-i+1 > lim {
				c.Fail("spin", "accept was tried %d times within %v while it failed (port %d)", j-i+1, time.Duration(ts[j]-ts[i]), port)
				break
			}
		}
	}
	w.checkHooks(false)
}
