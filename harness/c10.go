package main

import (
	"fmt"
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C10: Stop ends every connection and listener, whatever is going on.

func init() {
	props["C10"] = []scenario{
		{name: "stop", weight: 1, stall: 40 * ms, late: 5 * ms, run: c10Stop},
		{name: "servers", weight: 1, stall: 40 * ms, late: 5 * ms, max: 40000000, run: c10Servers},
	}
}

func c10Stop(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(250) {
		o.mode = ""
	}
	o.maxConn = r.pick(64, 64, 3, 8)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	o.hbMax = 60
	wm := o.mode
	if wm == "" {
		wm = "tcp"
	}
	weather(c, wm, nil)
	w := newWorld(c, o)
	hr := r.fork()
	stopCalled, stopped := false, false
	var stoppedAt time.Duration
	startDelay, stopDelay := r.pick(0, 0, 1, 15), r.pick(0, 0, 1, 15)
	w.onStart = func(x *wconn) {
		if startDelay > 0 && hr.p(500) {
			time.Sleep(time.Duration(hr.n(startDelay*1000)) * time.Microsecond)
		}
	}
	w.onStop = func(x *wconn) {
		if stopDelay > 0 && hr.p(500) {
			time.Sleep(time.Duration(hr.n(stopDelay*1000)) * time.Microsecond)
		}
	}
	var late table[string, bool] // addresses of peers that dialled after Stop had returned
	handled := 0
	route(w.s, o, 1, func(q ziface.IRequest) {
		handled++
		if *late.at(q.GetConnection().RemoteAddrString()) {
			c.Fail("served-after-stop", "a message of a connection made after Stop returned is handled")
		}
		q.GetConnection().SendMsg(2, q.GetData())
	})
	route(w.s, o, 3, func(q ziface.IRequest) { time.Sleep(time.Duration(hr.n(30)) * ms) })
	route(w.s, o, 4, func(q ziface.IRequest) { q.GetConnection().SendBuffMsg(2, q.GetData()) })
	var doStop func()
	route(w.s, o, 5, func(q ziface.IRequest) { doStop() })
	if r.p(300) {
		w.s.StartHeartBeat(time.Duration(r.pick(3, 20, 100)) * ms)
	}
	bound := 5*sec + 4*time.Duration(max(c.NStall, 1))*c.Stall
	if o.tls {
		bound += 5 * sec // crypto/tls tries that long to say goodbye to a peer that does not read
	}
	doStop = func() {
		if stopCalled {
			return
		}
		stopCalled = true
		c.Logf("Stop, %d connections", len(w.conns))
		t := c.Now()
		w.s.Stop()
		stopped, stoppedAt = true, c.Now()
		c.Logf("Stop has returned")
		if stoppedAt-t > bound {
			c.Fail("stop-slow", "Stop took %v", stoppedAt-t)
		}
	}
	c.Shape("%v", o)
	early := r.p(60) // before anybody listens
	if early {
		w.s.Start()
	} else {
		c.start(w.s, o)
	}
	mode := func(k int) string {
		if o.mode == "" {
			return []string{"tcp", "websocket"}[k%2]
		}
		return o.mode
	}
	inHandler := !early && r.p(150)
	inHook := !early && r.p(60)
	if inHook {
		nth, k := r.rng(1, 3), 0
		old := w.onStart
		w.onStart = func(x *wconn) {
			old(x)
			if k++; k == nth {
				doStop()
			}
		}
	}
	var peers []*peer
	n := r.rng(0, 7)
	for i := 0; i < n; i++ {
		pr := r.fork()
		mute := c.Fault("peer-stops-reading", 200)
		quits := c.Fault("peer-disconnect", 200)
		if !c.Op() {
			continue
		}
		go func() {
			time.Sleep(time.Duration(pr.n(12000)) * time.Microsecond)
			p, err := c.dial(mode(i), o.codec)
			if err != nil {
				return
			}
			peers = append(peers, p)
			if !mute {
				p.recv()
			}
			size := pr.pick(20, 20, 3000)
			for k := pr.rng(1, 30); k > 0; k-- {
				id := uint32(pr.pick(1, 1, 3, 4))
				if mute {
					id = uint32(pr.pick(1, 4))
				}
				if p.send(id, tag(i, k, size)) != nil {
					break
				}
				if pr.p(300) {
					time.Sleep(time.Duration(pr.n(3000)) * time.Microsecond)
				}
			}
			if inHandler && i == 0 {
				p.send(5, nil)
			}
			if quits {
				time.Sleep(time.Duration(pr.n(20000)) * time.Microsecond)
				w.gone(p, pr.picks("close", "reset", "abrupt"))
			}
		}()
	}
	// peers that keep dialling, also after Stop
	dialEnd := false
	for g := 0; g < r.rng(1, 2); g++ {
		pr := r.fork()
		if !c.Op() {
			continue
		}
		go func() {
			for k := 0; !dialEnd && k < 60; k++ {
				was := stopped
				p, err := c.dial(mode(k), o.codec)
				if err == nil {
					if was && p.mode != "kcp" {
						*late.at(p.addr()) = true
					}
					if was && p.mode == "kcp" {
						*late.at(p.addr()) = true
					}
					peers = append(peers, p)
					p.recv()
					p.send(1, tag(100, k, 30))
				} else {
					c.Count("dials_refused", 1)
				}
				time.Sleep(time.Duration(pr.n(6000)) * time.Microsecond)
			}
		}()
	}
	if early {
		time.Sleep(time.Duration(r.n(200)) * time.Microsecond)
	} else {
		time.Sleep(time.Duration(r.n(r.pick(1000, 5000, 20000, 60000))) * time.Microsecond)
	}
	if inHandler || inHook {
		c.until(200*ms, func() bool { return stopCalled })
	}
	go doStop()
	if !c.until(bound+sec, func() bool { return stopped }) {
		c.Fail("stop-blocked", "Stop has not returned after %v", bound+sec)
		return
	}
	time.Sleep(bound)
	dialEnd = true
	for _, x := range w.conns {
		if x.stops == 0 {
			c.Fail("not-ended", "%s has not ended %v after Stop (started %v before Stop returned)", w.name(x), c.Now()-stoppedAt, stoppedAt-x.startAt)
		}
	}
	w.checkHooks(false)
	if k := w.s.GetConnMgr().Len(); k != 0 {
		c.Fail("not-empty", "the connection manager still holds %d connections %v after Stop", k, bound)
	}
	for _, p := range peers {
		if p.tc != nil && !net.SimNetPeerClosed(p.tc) {
			c.Fail("socket", "the socket of a peer is still open %v after Stop", bound)
		}
	}
	try := func(f func() error) {
		if err := f(); err != nil {
			c.Fail("port", "a port is not released %v after Stop: %v", bound, err)
		}
	}
	if o.mode == "tcp" || o.mode == "" {
		try(func() error { l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", tcpPort)); closeIf(l); return err })
	}
	if o.mode == "websocket" || o.mode == "" {
		try(func() error { l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", wsPort)); closeIf(l); return err })
	}
	if o.mode == "kcp" {
		try(func() error {
			l, err := net.ListenPacket("udp", fmt.Sprint("127.0.0.1:", kcpPort))
			closeIf(l)
			return err
		})
	}
	h, s := handled, len(w.conns)
	time.Sleep(2 * sec)
	if handled != h || len(w.conns) != s {
		c.Fail("served-after-stop", "%d messages handled, %d connections started long after Stop", handled-h, len(w.conns)-s)
	}
	c.Count("connections", len(w.conns))
	c.Count("messages", handled)
}

func closeIf(l interface{ Close() error }) {
	switch x := l.(type) {
	case net.Listener:
		if x != nil {
			x.Close()
		}
	case net.PacketConn:
		if x != nil {
			x.Close()
		}
	}
}

// c10Servers: several servers in one process, some stopped and started again.

type c10srv struct {
	w       *world
	o       srvOpt
	k       int
	handled int
	foreign bool
}

func c10Servers(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(200) {
		o.mode = ""
	}
	o.maxConn, o.hbMax = 64, 60
	o.readBuf = max(o.readBuf, 64)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	wm := o.mode
	if wm == "" {
		wm = "tcp"
	}
	weather(c, wm, nil)
	n := r.rng(1, 3)
	rounds := r.rng(1, 3)
	steady := n > 1 && r.p(600) // the last one is never stopped
	c.Shape("%v servers=%d rounds=%d steady=%v", o, n, rounds, steady)
	bound := 5*sec + 4*time.Duration(max(c.NStall, 1))*c.Stall
	if o.tls {
		bound += 5 * sec
	}
	patience := 30 * sec
	if o.mode == "kcp" {
		patience = 120 * sec
	}
	var srv []*c10srv
	for i := 0; i < n; i++ {
		v := &c10srv{o: o, k: i}
		v.o.off = 100 * i
		v.w = newWorld(c, v.o)
		route(v.w.s, v.o, 1, func(q ziface.IRequest) {
			v.handled++
			if who, _, ok := untag(q.GetData()); !ok || who/1000 != v.k {
				c.Fail("foreign-message", "server %d handles a message that was sent to server %d (intact: %v)", v.k, who/1000, ok)
			}
			q.GetConnection().SendMsg(uint32(10+v.k), q.GetData())
		})
		srv = append(srv, v)
	}
	mode := func(k int) string {
		if o.mode == "" {
			return []string{"tcp", "websocket"}[k%2]
		}
		return o.mode
	}
	// talk makes one peer of v echo msgs messages, one at a time
	talk := func(v *c10srv, who, msgs, size int, gap time.Duration, over func() bool) *peer {
		var p *peer
		for i := 0; p == nil; i++ {
			q, err := c.dialAt(mode(who), o.codec, v.o.off)
			if err == nil {
				p = q
			} else if over() {
				return nil
			} else if i > 20 {
				c.Fail("dial", "a peer cannot connect to server %d, which listens: %v", v.k, err)
				return nil
			} else {
				time.Sleep(time.Duration(5*(i+1)) * ms)
			}
		}
		p.recv()
		id := v.k*1000 + who
		for k := 0; k < msgs; k++ {
			if err := p.send(1, tag(id, k, size)); err != nil {
				if !over() {
					c.Fail("cut-off", "server %d has ended a connection nobody had asked to end (%v)", v.k, err)
				}
				return p
			}
			ok := c.until(patience, func() bool { return len(p.frames) > k || p.eof || p.bad != "" || over() })
			if len(p.frames) <= k {
				if over() {
					return p
				}
				c.Fail("unserved", "server %d does not answer message %d of a peer within %v (answered so far %d, ended %v, bound to end %v)", v.k, k, patience, len(p.frames), p.eof, ok)
				return p
			}
			f := p.frames[k]
			if w2, s2, ok := untag(f.data); f.id != uint32(10+v.k) || !ok || w2 != id || s2 != k {
				c.Fail("wrong-answer", "a peer of server %d gets message %d with %s as answer to its message %d", v.k, f.id, short(f.data), k)
				return p
			}
			if gap > 0 {
				time.Sleep(gap)
			}
		}
		return p
	}
	var steadyPeers []*peer
	steadyEnd, steadyDone, steadyN := false, 0, 0
	if steady {
		v := srv[n-1]
		c.start(v.w.s, v.o)
		for j := 0; j < r.rng(1, 2); j++ {
			gap := time.Duration(r.rng(1, 8)) * ms
			size := r.pick(20, 20, 250)
			if !c.Op() {
				continue
			}
			steadyN++
			go func() {
				for q := 0; ; q++ {
					p := talk(v, 900+j*10+q%10, 20, size, gap, func() bool { return false })
					steadyPeers = append(steadyPeers, p)
					if steadyEnd || p == nil || len(p.frames) < 20 {
						break
					}
					p.close()
				}
				steadyDone++
			}()
		}
	}
	if steady {
		n--
	}
	fin := 0
	for i := 0; i < n; i++ {
		v, pr := srv[i], r.fork()
		go func() {
			c10Rounds(c, v, pr, rounds, bound, talk)
			fin++
		}()
	}
	if !c.until(time.Duration(rounds)*(4*bound+2*patience)+10*sec, func() bool { return fin == n }) {
		c.Fail("stuck", "a round of start, traffic and stop does not end")
		return
	}
	steadyEnd = true
	if !c.until(40*patience, func() bool { return steadyDone == steadyN }) {
		c.Fail("stuck", "the server nobody stopped does not answer")
		return
	}
	if steady && o.mode != "kcp" {
		for _, p := range steadyPeers {
			if p != nil && p.eof && len(p.frames) < 20 {
				c.Fail("disturbed", "stopping another server ends a connection of server %d", n)
			}
		}
	}
	tot := 0
	for _, v := range srv {
		tot += v.handled
		v.w.checkHooks(false)
		for a, x := range v.w.conns {
			for _, y := range v.w.conns[:a] {
				if x.id == y.id {
					c.Fail("id-reused", "two connections of server %d have the id %d", v.k, x.id)
				}
			}
		}
	}
	c.Count("messages", tot)
	c.Count("servers", len(srv))
}

func c10Rounds(c *Ctx, v *c10srv, r *rng, rounds int, bound time.Duration, talk func(*c10srv, int, int, int, time.Duration, func() bool) *peer) {
	for q := 0; q < rounds; q++ {
		np, hasty, twice := r.rng(0, 3), r.p(400), r.pick(0, 0, 1, 2)
		prompt := q < rounds-1 && v.o.mode != "kcp" && r.p(300) // it is started again at once
		pause := time.Duration(r.n(20000)) * time.Microsecond
		var pp []*rng
		for j := 0; j < np; j++ {
			pp = append(pp, r.fork())
		}
		idle := time.Duration(r.n(20000)) * time.Microsecond
		if !c.Op() {
			continue
		}
		c.Logf("server %d, round %d: Start", v.k, q)
		c.start(v.w.s, v.o)
		stopping := false
		var peers []*peer
		done, want := 0, 0
		for j, pr := range pp {
			if !c.Op() {
				continue
			}
			want++
			msgs, size, gap := pr.rng(1, 8), pr.pick(20, 20, 250), time.Duration(pr.n(3000))*time.Microsecond
			go func() {
				p := talk(v, q*10+j, msgs, size, gap, func() bool { return stopping })
				if p != nil {
					peers = append(peers, p)
				}
				done++
			}()
		}
		if hasty {
			time.Sleep(pause)
		} else {
			c.until(200*sec, func() bool { return done == want })
		}
		c.Logf("server %d, round %d: Stop", v.k, q)
		stopping = true
		returned, calls := 0, 1
		stop := func() {
			v.w.s.Stop()
			returned++
		}
		go stop()
		if twice == 2 { // at the same time
			calls++
			go stop()
		}
		if !c.until(bound, func() bool { return returned == calls }) {
			c.Fail("stop-blocked", "Stop of server %d, called %d times, has returned %d times after %v", v.k, calls, returned, bound)
			return
		}
		if prompt {
			twice = 0
			for _, p := range peers {
				p.close()
			}
			c.Count("prompt_restarts", 1)
			continue
		}
		gone := func() bool {
			for _, x := range v.w.conns {
				if x.stops == 0 {
					return false
				}
			}
			free := !listening("tcp", v.o.off) && !listening("websocket", v.o.off) && !listening("kcp", v.o.off)
			return free && v.w.s.GetConnMgr().Len() == 0 && done == want
		}
		if !c.until(2*bound, gone) {
			for _, x := range v.w.conns {
				if x.stops == 0 {
					c.Fail("not-ended", "%s of server %d has not ended %v after Stop", v.w.name(x), v.k, 2*bound)
				}
			}
			c.Fail("not-ended", "%v after Stop of server %d: it listens for tcp %v, websocket %v, kcp %v, its manager holds %d connections, %d of %d peers are done",
				2*bound, v.k, listening("tcp", v.o.off), listening("websocket", v.o.off), listening("kcp", v.o.off), v.w.s.GetConnMgr().Len(), done, want)
			return
		}
		for _, p := range peers {
			p.close()
		}
		if twice == 1 { // once more
			v.w.s.Stop()
		}
		time.Sleep(idle)
	}
}
