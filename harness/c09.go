package main

import (
	"bytes"
	"errors"
	"net"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C09: panics of user code and malformed input stay in the connection that
// caused them.

func init() {
	props["C09"] = []scenario{
		{name: "chaos", weight: 1, stall: 20 * ms, late: 3 * ms, run: c09Chaos},
	}
}

var errUser = errors.New("user error")

// boom panics with a value of one of the kinds user code panics with.
func boom(k int) {
	switch k % 5 {
	case 0:
		panic("user panic")
	case 1:
		panic(errUser)
	case 2:
		var m map[int]int
		m[1] = 1
	case 3:
		var p *srvOpt
		_ = p.pool
	}
	var s []int
	_ = s[k]
}

type stepRouter struct {
	znet.BaseRouter
	pre, h, post func(ziface.IRequest)
}

func (r *stepRouter) PreHandle(q ziface.IRequest)  { r.pre(q) }
func (r *stepRouter) Handle(q ziface.IRequest)     { r.h(q) }
func (r *stepRouter) PostHandle(q ziface.IRequest) { r.post(q) }

type interceptFunc func(ziface.IChain) ziface.IcResp

func (f interceptFunc) Intercept(ch ziface.IChain) ziface.IcResp { return f(ch) }

// garbage draws bytes a broken or hostile peer sends.
func garbage(r *rng, codec string) []byte {
	switch r.n(7) {
	case 0: // noise
		b := make([]byte, r.rng(1, 300))
		for i := range b {
			b[i] = byte(r.u())
		}
		return b
	case 1: // a valid frame, some bytes changed
		b := encode(codec, uint32(r.pick(1, 3, 9)), tag(900, 0, r.rng(12, 200)))
		for k := r.rng(1, 4); k > 0; k-- {
			b[r.n(min(len(b), 16))] = byte(r.pick(0, 255, 128, 127, r.n(256)))
		}
		return b
	case 2: // an extreme length
		b := encode(codec, 1, tag(900, 0, 40))
		v := byte(r.pick(0, 255, 127, 128))
		for i := 0; i < min(8, len(b)); i++ {
			if i >= r.n(8) {
				b[i] = v
			}
		}
		return b
	case 3: // cut short
		b := encode(codec, 1, tag(900, 0, 100))
		return b[:r.rng(1, len(b)-1)]
	case 4: // unknown message id
		return encode(codec, uint32(r.pick(77, 200, 250)), tag(900, 0, 60))
	case 5: // empty and tiny frames
		b := encode(codec, 1, nil)
		return append(b, encode(codec, 77, []byte{1})...)
	}
	b := make([]byte, r.pick(1, 8, 4096, 70000)) // zeroes
	if r.p(500) {
		for i := range b {
			b[i] = 0xff
		}
	}
	return b
}

func c09Chaos(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = r.picks("tlv", "tlv", "ltv", "htlv")
	o.hbMax = 60
	o.maxConn = 64
	if o.workerMode == "Bind" {
		o.pool = 64
	}
	o.taskLen = max(o.taskLen, 8)
	weather(c, o.mode, func(n *net.SimNetConfig) { n.Loss = min(n.Loss, 100) })
	w := newWorld(c, o)
	badConn := func(cn ziface.IConnection) bool { v, err := cn.GetProperty("bad"); return err == nil && v == true }

	// which user functions panic in this run
	pHandler := c.Fault("panic-handler", 600)
	pStart := c.Fault("panic-start-hook", 300)
	pStop := c.Fault("panic-stop-hook", 300)
	pClose := c.Fault("panic-close-callback", 300)
	pInter := c.Fault("panic-interceptor", 300)
	pBeat := c.Fault("panic-heartbeat", 300)
	pDead := !pBeat && c.Fault("panic-not-alive", 300)
	pAsync := c.Fault("panic-async", 300)
	bytesBad := c.Fault("malformed-input", 600)
	kinds := newRng(c.F.u(), 3)
	kind := func() int { return kinds.n(5) }

	// every handled message is noted, then panics if it says so
	type got struct{ pre, h, post int }
	var seen table[[2]int, got]
	note := func(q ziface.IRequest, f func(*got)) (who, seq int) {
		d := q.GetData()
		if o.codec == "htlv" && len(d) > 5 { // handlers get the whole frame
			d = d[3 : len(d)-2]
		}
		who, seq, ok := untag(d)
		if ok && who < 800 {
			f(seen.at([2]int{who, seq}))
		}
		return who, seq
	}
	steps := func(at int) (pre, h, post func(ziface.IRequest)) {
		pre = func(q ziface.IRequest) {
			note(q, func(g *got) { g.pre++ })
			if at == 1 {
				boom(kind())
			}
		}
		h = func(q ziface.IRequest) {
			note(q, func(g *got) { g.h++ })
			if at == 2 {
				boom(kind())
			}
			if at == 0 {
				// answers show that the connection is served in full
				q.GetConnection().SendMsg(50, q.GetData())
			}
		}
		post = func(q ziface.IRequest) {
			note(q, func(g *got) { g.post++ })
			if at == 3 {
				boom(kind())
			}
		}
		return
	}
	for at := 0; at <= 3; at++ {
		pre, h, post := steps(at)
		if o.slices {
			w.s.AddRouterSlices(uint32(1+at), pre, h, post)
		} else {
			w.s.AddRouter(uint32(1+at), &stepRouter{pre: pre, h: h, post: post})
		}
	}
	route(w.s, o, 9, func(q ziface.IRequest) { q.GetConnection().Stop() })
	route(w.s, o, 11, func(q ziface.IRequest) { // asynchronous operation and completion callback
		res := zasync_op.NewAsyncOpResult(q.GetConnection())
		c.Count("fault.panics_async", 1)
		res.OnComplete(func() { boom(kind()) })
		zasync_op.Process(7, func() {
			res.SetReturnedObj(1)
			boom(kind())
		})
	})
	if pInter {
		w.s.AddInterceptor(interceptFunc(func(ch ziface.IChain) ziface.IcResp {
			q, ok := ch.Request().(ziface.IRequest)
			if ok && bytes.Contains(q.GetData(), []byte("BOOM!")) {
				c.Count("fault.panics_interceptor", 1)
				boom(kind())
			}
			return ch.Proceed(ch.Request())
		}))
	}
	nth := 0
	w.onStart = func(x *wconn) {
		nth++
		bad := false
		for k := 0; k < 1; k++ {
			bad = nth%2 == 0
		}
		if bad {
			x.cn.SetProperty("bad", true)
		}
		if pClose && nth%3 == 0 {
			x.cn.AddCloseCallback("boom", nth, func() { c.Count("fault.panics_callback", 1); boom(kind()) })
		}
		if pStart && nth%4 == 1 {
			c.Count("fault.panics_start", 1)
			x.noCb = true
			boom(kind())
		}
	}
	w.onStop = func(x *wconn) {
		if pStop && x.n%3 == 0 {
			w.live--
			c.Count("fault.panics_stop", 1)
			boom(kind())
		}
	}
	if pBeat {
		byFunc := r.p(500)
		w.s.StartHeartBeatWithOption(time.Duration(r.pick(5, 40, 300))*ms, &ziface.HeartBeatOption{MakeMsg: func(cn ziface.IConnection) []byte {
			if !byFunc && badConn(cn) {
				c.Count("fault.panics_beat", 1)
				boom(kind())
			}
			return []byte("beat")
		}})
		if byFunc {
			w.s.GetHeartBeat().SetHeartbeatFunc(func(cn ziface.IConnection) error {
				if badConn(cn) {
					c.Count("fault.panics_beat", 1)
					boom(kind())
				}
				return nil
			})
		}
	}
	if pDead {
		o.hbMax = 1
		setConf(o)
		w.s.StartHeartBeatWithOption(time.Duration(r.pick(100, 300))*ms, &ziface.HeartBeatOption{OnRemoteNotAlive: func(cn ziface.IConnection) {
			if badConn(cn) {
				c.Count("fault.panics_dead", 1)
				boom(kind())
			}
		}})
	}
	c.start(w.s, o)
	c.Shape("%v", o)
	bound := 20 * sec
	if o.mode == "kcp" {
		bound = 90 * sec
	}

	nGood, nBad := r.rng(1, 3), r.rng(1, 4)
	done, ops := 0, 0
	badDone, badOps := 0, 0
	var all []*peer
	// serve runs one well-behaved peer: every message must be handled and answered
	serve := func(who int, pr *rng) {
		p := c.mustDial(o.mode, o.codec)
		p.recv()
		all = append(all, p)
		n := pr.rng(1, 12)
		var want []int
		var at []int
		for i := 0; i < n; i++ {
			k := 0
			if pHandler && pr.p(300) {
				k = pr.rng(1, 3)
				c.Count("fault.panics_handler", 1)
			}
			if p.send(uint32(1+k), tag(who, i, pr.rng(12, 200))) != nil {
				break // its start or stop hook may have panicked: see below
			}
			want, at = append(want, i), append(at, k)
			if pAsync && pr.p(300) {
				p.send(11, nil)
			}
			if pr.p(400) {
				time.Sleep(time.Duration(pr.n(4000)) * time.Microsecond)
			}
		}
		miss := func() int {
			for j, i := range want {
				g := *seen.at([2]int{who, i})
				ok := g.pre == 1 && (at[j] == 1 || g.h == 1) && (at[j] == 1 || at[j] == 2 || g.post == 1)
				if !ok {
					return i
				}
			}
			return -1
		}
		exempt := func() bool {
			// a connection whose own start hook panicked may be closed instead of served
			a := p.addr()
			for _, x := range w.conns {
				if pStart && x.addr == a && x.starts == 1 && !x.started {
					return true
				}
			}
			return false
		}
		if !c.until(bound, func() bool { return exempt() || miss() < 0 }) {
			x := w.by(p)
			if x == nil {
				c.Fail("not-served", "a connection was not started, though only others misbehave (%s)", o.mode)
			} else {
				c.Fail("unhandled", "%s: message %d was not handled (panic kinds of its messages: %v)", w.name(x), miss(), at)
			}
			return
		}
		if exempt() {
			return
		}
		ans := 0
		for _, k := range at {
			if k == 0 {
				ans++
			}
		}
		cnt := func() int {
			k := 0
			for _, f := range p.frames {
				if f.id == 50 {
					k++
				}
			}
			return k
		}
		if o.codec != "htlv" && !c.until(bound, func() bool { return exempt() || cnt() >= ans }) && !exempt() {
			c.Fail("unanswered", "connection of peer %d: %d of %d answers arrived", who, cnt(), ans)
		}
		c.Count("messages", n)
	}
	for i := 0; i < nGood; i++ {
		pr := r.fork()
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			time.Sleep(time.Duration(pr.n(5000)) * time.Microsecond)
			serve(i, pr)
		}()
	}
	for i := 0; i < nBad; i++ {
		pr := r.fork()
		what := pr.n(6)
		if !c.Op() {
			continue
		}
		badOps++
		go func() {
			defer func() { badDone++ }()
			time.Sleep(time.Duration(pr.n(5000)) * time.Microsecond)
			if o.mode == "websocket" && what == 5 && bytesBad { // not even a handshake
				t, err := net.Dial("tcp", "127.0.0.1:9000")
				if err == nil {
					t.SetWriteDeadline(time.Now().Add(5 * sec)) // it does not read what it is told
					t.Write(garbage(pr, o.codec))
					time.Sleep(time.Duration(pr.n(30)) * ms)
					t.Close()
				}
				return
			}
			if o.mode == "kcp" && what == 5 && bytesBad { // datagrams that are not KCP
				t, err := net.Dial("udp", "127.0.0.1:9001")
				if err == nil {
					for k := pr.rng(1, 6); k > 0; k-- {
						t.Write(garbage(pr, o.codec)[:1])
						b := garbage(pr, o.codec)
						t.Write(b[:min(len(b), 1400)])
						time.Sleep(time.Duration(pr.n(20)) * ms)
					}
					t.Close()
				}
				return
			}
			p := c.mustDial(o.mode, o.codec)
			p.recv()
			all = append(all, p)
			if p.kc != nil {
				p.kc.SetWriteDeadline(time.Now().Add(10 * sec)) // its session may be gone
			} else {
				p.tc.SetWriteDeadline(time.Now().Add(10 * sec))
			}
			n := pr.rng(1, 8)
			for k := 0; k < n; k++ {
				switch {
				case bytesBad && pr.p(700):
					c.Count("fault.malformed", 1)
					if p.ws != nil && pr.p(300) {
						if pr.p(500) {
							p.ws.WriteMessage(1, garbage(pr, o.codec))
						} else {
							p.tc.Write(garbage(pr, o.codec)) // not a WebSocket frame
						}
					} else {
						p.write(garbage(pr, o.codec))
					}
				case pAsync && pr.p(400):
					p.send(11, nil)
				case pInter:
					p.send(20, []byte("it goes BOOM! in the interceptor"))
				default:
					p.send(uint32(pr.rng(1, 4)), tag(900, k, 40))
				}
				time.Sleep(time.Duration(pr.n(6000)) * time.Microsecond)
			}
			if pr.p(300) {
				p.send(9, nil)
			}
		}()
	}
	if !c.until(3*bound, func() bool { return done == ops }) {
		c.Fail("stuck", "peers cannot finish")
		return
	}
	c.until(bound, func() bool { return badDone == badOps }) // a slow wire may take longer, no matter
	if pBeat || pDead {
		time.Sleep(1500 * ms) // let checkers tick
	}
	// a newcomer is served
	if c.Op() && !c.Failed() {
		serve(700, r.fork())
	}
	if c.Failed() {
		return
	}
	// nothing leaks
	for _, p := range all {
		p.close()
	}
	if o.mode == "kcp" {
		time.Sleep(3 * sec)
		for _, x := range w.conns {
			x.cn.Stop()
		}
	}
	mgr := w.s.GetConnMgr()
	if !c.until(10*sec, func() bool { return mgr.Len() == 0 }) {
		if o.mode == "kcp" { // sessions made by late datagrams
			mgr.ClearConn()
			if c.until(10*sec, func() bool { return mgr.Len() == 0 }) {
				return
			}
		}
		c.Fail("leak", "all peers have gone, the server still holds %d connections %v", mgr.Len(), mgr.GetAllConnID())
	}
	for _, x := range w.conns {
		if x.stops > 1 || x.starts != 1 {
			c.Fail("hooks", "%s: start hook ran %d times, stop hook %d times", w.name(x), x.starts, x.stops)
		}
		if x.stops == 0 && o.mode != "kcp" {
			c.Fail("hooks", "%s: its stop hook did not run", w.name(x))
		}
	}
}
