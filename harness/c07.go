package main

import (
	"bytes"
	"fmt"
	"net"
	"runtime"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/gorilla/websocket"
)

// C07: a silent peer is reported in time, a live one never; heartbeats once per
// interval; nothing after the end.

func init() {
	props["C07"] = []scenario{
		{name: "server", weight: 4, stall: 40 * ms, late: 3 * ms, run: c07Server},
		{name: "client", weight: 1, stall: 40 * ms, late: 3 * ms, run: c07Client},
	}
}

const hbOwnID = 4242

// hbWatch is what is known of one connection with a heartbeat checker.
type hbWatch struct {
	reports  []time.Duration
	beats    []time.Duration
	lateBeat time.Duration
}

func c07Server(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.taskLen = max(o.taskLen, 8)
	o.hbMax = r.pick(1, 1, 2, 5)
	maxD := time.Duration(o.hbMax) * sec
	interval := time.Duration(r.pick(2, 15, 50, 200, 700, 1500, 4000)) * ms
	weather(c, o.mode, func(n *net.SimNetConfig) { n.Loss = 0; n.CloseRST = false })
	w := newWorld(c, o)
	route(w.s, o, 1, func(ziface.IRequest) {})
	ownFunc := r.p(300) // user's not-alive handler only records
	own := r.p(400)     // user's message and id
	beatFn := r.p(200)  // user's beat function
	var hw table[ziface.IConnection, hbWatch]
	note := func(cn ziface.IConnection) {
		x := w.of(cn)
		h := hw.at(cn)
		h.reports = append(h.reports, c.Now())
		c.Logf("not alive: connection %d", cn.GetConnID())
		if x != nil && x.ended {
			c.Fail("report-after-end", "%s has ended, its heartbeat checker still reports it", w.name(x))
		}
	}
	opt := &ziface.HeartBeatOption{}
	opt.OnRemoteNotAlive = func(cn ziface.IConnection) {
		note(cn)
		if !ownFunc {
			if x := w.of(cn); x != nil {
				w.cause(x)
			}
			cn.Stop()
		}
	}
	var gotHB table[ziface.IConnection, int]
	if own {
		opt.MakeMsg = func(cn ziface.IConnection) []byte { return []byte("own beat") }
		opt.HeartBeatMsgID = hbOwnID
		opt.Router = &routerFunc{f: func(q ziface.IRequest) { *gotHB.at(q.GetConnection())++ }}
		opt.RouterSlices = []ziface.RouterHandler{func(q ziface.IRequest) { *gotHB.at(q.GetConnection())++ }}
	}
	simple := !own && !ownFunc && r.p(400)
	if simple {
		w.s.StartHeartBeat(interval)
	} else {
		w.s.StartHeartBeatWithOption(interval, opt)
	}
	var beats table[ziface.IConnection, []time.Duration]
	if beatFn {
		w.s.GetHeartBeat().SetHeartbeatFunc(func(cn ziface.IConnection) error {
			x := w.of(cn)
			*beats.at(cn) = append(*beats.at(cn), c.Now())
			if x != nil && x.ended && c.Now()-x.endedAt > 200*ms {
				c.Fail("beat-after-end", "%s has ended %v ago, its heartbeat function is called", w.name(x), c.Now()-x.endedAt)
			}
			return cn.SendMsg(hbOwnID, []byte("own beat"))
		})
	}
	wantID := uint32(ziface.HeartBeatDefaultMsgID)
	if own || beatFn {
		wantID = hbOwnID
	}
	c.start(w.s, o)
	slack := 2*c.Stall*time.Duration(max(c.NStall, 1)) + 10*c.Late + 150*ms
	if o.mode == "kcp" {
		slack += 500 * ms
	}
	n := r.rng(1, 4)
	c.Shape("%v max=%v int=%v own=%v/%v/%v", o, maxD, interval, own, ownFunc, beatFn)
	if c.Fault("clock-step", 300) {
		cr := newRng(c.F.u(), 9)
		go func() {
			for k := 0; k < 4; k++ {
				time.Sleep(time.Duration(cr.n(3000)) * ms)
				d := []int64{-3600, 3600, -1, 86400, -86400}[cr.n(5)]
				runtime.SimWallAdd(d * 1e9)
				c.Count("fault.clock_steps", 1)
			}
		}()
	}
	done, ops := 0, 0
	for i := 0; i < n; i++ {
		pr := r.fork()
		kind := r.n(10)
		alive := time.Duration(pr.rng(1, 4)) * maxD / 2
		gap := maxD - slack - 100*ms - time.Duration(pr.n(200))*ms
		if gap < 30*ms {
			gap = maxD / 3
		}
		gap = gap * time.Duration(pr.pick(100, 100, 50, 10)) / 100
		mute := c.Fault("peer-stops-reading", 250)
		// the reader answers a ping, and waits up to a second for a peer that does not read
		ping := o.mode == "websocket" && pr.p(250) && !(mute && kind >= 4)
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			time.Sleep(time.Duration(pr.n(300)) * ms)
			p := c.mustDial(o.mode, o.codec)
			p.recv()
			if mute && kind >= 4 {
				p.pause = true
			}
			lastSend := c.Now()
			p.send(1, []byte("hello"))
			if !c.until(30*sec, func() bool { return w.by(p) != nil && w.by(p).started }) {
				c.Fail("no-start", "the connection was not started")
				return
			}
			x := w.by(p)
			lastSend = max(lastSend, x.startAt)
			end := c.Now() + alive
			hbSent := 0
			for c.Now() < end {
				time.Sleep(gap)
				var err error
				switch {
				case ping:
					err = p.ws.WriteControl(websocket.PingMessage, []byte("x"), time.Time{})
				case pr.p(200):
					if err = p.send(wantID, []byte("beat")); err == nil {
						hbSent++
					}
				case pr.p(300): // less than a frame is activity too
					b := encode(o.codec, 1, tag(i, 1, 40))
					cut := pr.pick(1, 1, 5, 12)
					err = p.write(b[:cut])
					if err == nil {
						lastSend = c.Now()
						time.Sleep(gap / 2)
						err = p.write(b[cut:])
					}
				default:
					err = p.send(1, tag(i, 0, 40))
				}
				if err != nil {
					break
				}
				if d := c.Now() - lastSend; gap+slack < maxD && d < maxD-slack && (len(hw.at(x.cn).reports) > 0 || x.stopIn && !x.caused) {
					c.Fail("live-reported", "%s: a peer that sent something every %v is treated as not alive, the maximum is %v (ping only: %v)", w.name(x), gap, maxD, ping)
					return
				}
				lastSend = c.Now()
			}
			if x.stopIn {
				return // too slow for this maximum
			}
			if own && !p.pause && hbSent > 0 && !c.until(slack+sec, func() bool { return *gotHB.at(x.cn) >= hbSent || x.stopIn }) {
				c.Fail("own-router", "%s: the peer sent %d heartbeats, the router given for them was called %d times", w.name(x), hbSent, *gotHB.at(x.cn))
				return
			}
			if x.stopIn {
				return
			}
			// heartbeats so far
			if !p.pause && interval >= 10*ms && alive > 3*interval+slack && !c.Failed() {
				k := 0
				var first, last time.Duration
				for _, f := range p.frames {
					if f.id == wantID {
						if k == 0 {
							first = f.at
						}
						last = f.at
						k++
						if own && !beatFn && !bytes.Equal(f.data, []byte("own beat")) || !own && !beatFn && !bytes.HasPrefix(f.data, []byte("heartbeat [")) {
							c.Fail("beat-content", "%s: heartbeat with the payload %q", w.name(x), f.data)
						}
					}
				}
				span := c.Now() - x.startAt
				want := int(span / interval)
				tol := 2 + int(slack/interval)
				if interval < 60*ms {
					tol += want * 3 / 4 // ticks that meet a frozen checker or a socket buffer full for a round trip are dropped
				}
				if k < want-tol || k > want+1 {
					c.Fail("beats", "%s: %d heartbeats in %v, the interval is %v (first %v, last %v)", w.name(x), k, span, interval, first, last)
				}
				c.Count("heartbeats", k)
			}
			switch {
			case kind < 4: // the peer closes
				if p.mode == "kcp" {
					w.stop(x)
				} else {
					w.gone(p, "close")
				}
				c.until(5*sec, func() bool { return w.over(x) })
				k, b := len(hw.at(x.cn).reports), len(*beats.at(x.cn))
				time.Sleep(2*interval + slack)
				if w.over(x) {
					if len(hw.at(x.cn).reports) > k {
						c.Fail("report-after-end", "%s has ended, its heartbeat checker still reports it", w.name(x))
					}
					if len(*beats.at(x.cn)) > b+1 {
						c.Fail("beat-after-end", "%s has ended, its heartbeat function was called %d times since", w.name(x), len(*beats.at(x.cn))-b)
					}
				}
				p.close()
			default: // silence
				if mute && pr.p(500) { // its receive window fills up, too
					go func() {
						for k := 0; k < 400; k++ {
							if x.cn.SendMsg(8, make([]byte, 3000)) != nil {
								return
							}
						}
					}()
				}
				bound := maxD + interval + slack
				rep := func() bool { return len(hw.at(x.cn).reports) > 0 || x.stopIn }
				if !c.until(lastSend+bound-c.Now(), rep) {
					c.Fail("silent-missed", "%s: nothing arrived for %v, the maximum is %v and the interval %v, the peer is not reported (peer reads: %v)", w.name(x), c.Now()-lastSend, maxD, interval, !p.pause)
					return
				}
				if c.Now()-lastSend < maxD-50*ms {
					c.Fail("live-reported", "%s: reported after %v of silence, the maximum is %v", w.name(x), c.Now()-lastSend, maxD)
				}
				if len(hw.at(x.cn).reports) == 0 && !simple && o.mode != "kcp" && !p.pause {
					c.Fail("own-handler", "%s: closed after %v of silence, the handler given for it was not called", w.name(x), c.Now()-lastSend)
				}
				c.Count("silent_detected", 1)
				if !ownFunc {
					if !c.until(5*sec, func() bool { return w.over(x) }) {
						c.Fail("silent-open", "%s: reported, but not closed in 5s", w.name(x))
					}
				}
			}
		}()
	}
	if !c.until(400*sec, func() bool { return done == ops }) {
		c.Fail("stuck", "peers cannot finish")
	}
}

// c07Client: the client's checker against a bare listener.
func c07Client(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec, o.slices = r.picks("tcp", "tcp", "websocket"), "tlv", false
	o.hbMax = r.pick(1, 2)
	maxD := time.Duration(o.hbMax) * sec
	interval := time.Duration(r.pick(50, 200, 700, 1500)) * ms
	weather(c, o.mode, func(n *net.SimNetConfig) { n.CloseRST = false })
	setConf(o)
	b := &bareServer{c: c}
	cl := b.newClient(o)
	b.up()
	slack := 2*c.Stall*time.Duration(max(c.NStall, 1)) + 10*c.Late + 150*ms
	starts, stops := 0, 0
	var cn ziface.IConnection
	cl.SetOnConnStart(func(x ziface.IConnection) { starts++; cn = x })
	rounds := r.pick(1, 1, 2, 2, 3, 4)
	inHook := r.p(500) // the stop hook reconnects
	inFor := time.Duration(r.pick(0, 0, 1, 30, 400)) * ms
	cl.SetOnConnStop(func(ziface.IConnection) {
		stops++
		if inHook && stops < rounds {
			cl.Restart()
			time.Sleep(inFor)
		}
	})
	own := r.p(400) // user's message, id, router and not-alive handler
	wantID, gotHB, reports := uint32(ziface.HeartBeatDefaultMsgID), 0, 0
	if own {
		wantID = hbOwnID
		cl.StartHeartBeatWithOption(interval, &ziface.HeartBeatOption{
			MakeMsg:        func(ziface.IConnection) []byte { return []byte("own beat") },
			HeartBeatMsgID: hbOwnID,
			Router:         &routerFunc{f: func(ziface.IRequest) { gotHB++ }},
			OnRemoteNotAlive: func(cn ziface.IConnection) {
				reports++
				cn.Stop()
			},
		})
	} else {
		cl.StartHeartBeat(interval)
	}
	c.Shape("client %v max=%v int=%v rounds=%d hook=%v/%v own=%v", o, maxD, interval, rounds, inHook, inFor, own)
	cl.Start()
	for k := 0; k < rounds; k++ {
		if !c.until(30*sec, func() bool { return starts == k+1 && len(b.peers) == k+1 }) {
			c.Fail("no-start", "the client's connection was not started (round %d)", k)
			return
		}
		p := b.peers[k]
		t0 := c.Now()
		lastSend := t0
		gap := maxD - slack - 100*ms
		if gap < 30*ms {
			gap = maxD / 3
		}
		n := r.rng(1, 6)
		sent := 0
		gotHB = 0
		for j := 0; j < n; j++ {
			time.Sleep(gap)
			if stops > k && gap+slack < maxD {
				c.Fail("live-reported", "the client closed a connection on which something arrives every %v, the maximum is %v", gap, maxD)
				return
			}
			p.send(wantID, []byte("beat"))
			sent++
			lastSend = c.Now()
		}
		if stops > k {
			return
		}
		if own && !c.until(slack, func() bool { return gotHB >= sent || stops > k }) {
			c.Fail("own-router", "client: the server sent %d heartbeats, the router given for them was called %d times", sent, gotHB)
			return
		}
		if stops > k {
			return
		}
		hb := 0
		for _, f := range p.frames {
			if f.id == wantID {
				hb++
				if own && !bytes.Equal(f.data, []byte("own beat")) || !own && !bytes.HasPrefix(f.data, []byte("heartbeat [")) {
					c.Fail("beat-content", "client: heartbeat with the payload %q", f.data)
				}
			}
		}
		span := c.Now() - t0
		if want := int(span / interval); span > 3*interval+slack && (hb < want-2-int(slack/interval)-want/4 || hb > want+2) {
			c.Fail("beats", "client: %d heartbeats in %v, the interval is %v", hb, span, interval)
		}
		c.Count("heartbeats", hb)
		if !c.until(lastSend+maxD+interval+slack-c.Now(), func() bool { return stops == k+1 }) {
			c.Fail("silent-missed", "client: nothing arrived for %v, the maximum is %v and the interval %v, the connection is still open", c.Now()-lastSend, maxD, interval)
			return
		}
		if c.Now()-lastSend < maxD-50*ms {
			c.Fail("live-reported", "client: closed after %v of silence, the maximum is %v", c.Now()-lastSend, maxD)
		}
		if own && reports < k+1 {
			c.Fail("own-handler", "client: closed after %v of silence, the handler given for it was not called", c.Now()-lastSend)
		}
		c.Count("silent_detected", 1)
		if inHook && k+1 < rounds {
			continue // the next connection is under way
		}
		for _, q := range b.peers {
			if !c.until(5*sec, func() bool { return q.eof }) {
				c.Fail("silent-open", "client: reported, but not closed in 5s")
			}
		}
		if k+1 < rounds {
			cl.Restart()
		}
	}
	_ = fmt.Sprint(cn)
}
