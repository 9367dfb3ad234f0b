package main

import (
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/gorilla/websocket"
)

// C26: what has ended leaves nothing running behind: goroutines, workers, sockets.

func init() {
	props["C26"] = []scenario{
		{name: "connections", weight: 5, stall: 40 * ms, late: 5 * ms, max: 20000000, run: c26Conns},
		{name: "clients", weight: 2, stall: 40 * ms, late: 5 * ms, run: c26Clients},
		{name: "restarts", weight: 2, stall: 40 * ms, late: 5 * ms, run: c26Restarts},
	}
}

// census counts the goroutines that zinx, or a library on its behalf, has
// started, by the function that started them and what they are doing there.
type census struct {
	by  table[string, int]
	ex  table[string, string]
	sum int
}

func takeCensus(also ...string) *census {
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	s := &census{}
	for _, g := range strings.Split(string(b), "\n\n") {
		i := strings.LastIndex(g, "\ncreated by ")
		if i < 0 {
			continue
		}
		f, _, _ := strings.Cut(g[i+len("\ncreated by "):], "\n")
		f, _, _ = strings.Cut(f, " in goroutine")
		ours := strings.HasPrefix(f, "github.com/aceld/zinx/")
		for _, a := range also {
			ours = ours || strings.HasPrefix(f, a)
		}
		if !ours || strings.HasPrefix(f, "github.com/aceld/zinx/zlog") {
			continue
		}
		*s.by.at(f)++
		*s.ex.at(f) = g
		s.sum++
	}
	return s
}

// more tells what there is more of in s than in base.
func (s *census) more(base *census) (out []string, ex string) {
	for i, f := range s.by.ks {
		n, m := *s.by.vs[i], 0
		if base.by.has(f) {
			m = *base.by.at(f)
		}
		if n > m {
			out = append(out, fmt.Sprintf("%d started by %s", n-m, f[strings.LastIndex(f, "/")+1:]))
			ex = *s.ex.at(f)
		}
	}
	sort.Strings(out)
	return out, ex
}

// leftovers waits until there is no more than in base.
func (c *Ctx) leftovers(sig string, d time.Duration, base *census, what string, also ...string) {
	var more []string
	var ex string
	if !c.until(d, func() bool {
		more, ex = takeCensus(also...).more(base)
		return len(more) == 0
	}) {
		c.Logf("%s", ex)
		c.Fail(sig, "%s, %v later these goroutines are left: %s", what, d, strings.Join(more, ", "))
	}
}

func c26Conns(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(150) {
		o.mode = ""
	}
	o.maxConn = r.pick(3, 8, 16)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	o.hbMax = r.pick(1, 2, 60)
	hb := r.p(500)
	hbInt := time.Duration(r.pick(20, 300, 1000)) * ms
	wm := o.mode
	if wm == "" {
		wm = "tcp"
	}
	weather(c, wm, nil)
	w := newWorld(c, o)
	hr := r.fork()
	panics := r.p(200)
	lates := 0
	boom := func(p int) {
		if panics && hr.p(p) {
			panic("boom")
		}
	}
	send := func(x *wconn, n int) {
		for k := 0; k < n; k++ {
			if doSend(x.cn, o.codec, hr.n(nSendOps), 9, tag(9, 9, 30)) != nil {
				return
			}
		}
	}
	w.onStart = func(x *wconn) {
		if hr.p(60) {
			w.stop(x)
		}
		if hr.p(200) {
			x.cn.AddCloseCallback(w, hr.n(1000), func() { boom(500) })
		}
		if o.mode != "kcp" && hr.p(200) {
			send(x, 2)
		}
		if hr.p(200) { // somebody who holds on to the connection and sends, perhaps after its end
			d, n := time.Duration(hr.n(100000))*time.Microsecond, hr.rng(1, 3)
			lates++
			go func() {
				time.Sleep(d)
				send(x, n)
				lates--
			}()
		}
		x.started = true
		boom(100)
	}
	w.onStop = func(x *wconn) {
		if hr.p(200) {
			send(x, 2)
		}
		if hr.p(100) {
			x.cn.Stop()
		}
		boom(200)
	}
	running := 0
	on := func(id uint32, f func(q ziface.IRequest)) {
		route(w.s, o, id, func(q ziface.IRequest) {
			running++
			defer func() { running-- }()
			f(q)
		})
	}
	on(1, func(q ziface.IRequest) { q.GetConnection().SendMsg(9, q.GetData()) })
	on(2, func(q ziface.IRequest) { q.GetConnection().SendBuffMsg(9, q.GetData()) })
	on(3, func(q ziface.IRequest) { q.GetConnection().Stop() })
	on(4, func(q ziface.IRequest) {
		for i := 0; i < 40 && q.GetConnection().SendMsg(8, make([]byte, 2000)) == nil; i++ {
		}
	})
	on(5, func(q ziface.IRequest) {
		for i := 0; i < 40 && q.GetConnection().SendBuffMsg(8, make([]byte, 2000)) == nil; i++ {
		}
	})
	on(6, func(q ziface.IRequest) { boom(1000) })
	on(7, func(q ziface.IRequest) { time.Sleep(time.Duration(hr.n(30)) * ms) })
	if hb {
		w.s.StartHeartBeat(hbInt)
	}
	c.start(w.s, o)
	c.Shape("%v hb=%v panics=%v", o, b2s(hb, hbInt.String()), panics)
	libs := []string{"github.com/xtaci/", "net/http", "github.com/gorilla/"}
	if r.p(500) { // one connection first, for what is only started when needed
		mode := o.mode
		if mode == "" {
			mode = "tcp"
		}
		if p, err := c.dial(mode, o.codec); err == nil {
			p.recv()
			go p.send(2, tag(99, 0, 20)) // over TLS it waits to be accepted
			c.until(2*sec, func() bool { return len(p.frames) > 0 })
			p.close()
			time.Sleep(3 * sec)
			for _, x := range w.conns {
				x.cn.Stop()
			}
		}
	}
	time.Sleep(8 * sec)
	base := takeCensus(libs...)
	bound := 10 * sec
	if o.tls {
		bound += 5 * sec
	}
	dial := func(mode string) *peer {
		for k := 0; k < 10; k++ {
			if p, err := c.dial(mode, o.codec); err == nil {
				return p
			}
			time.Sleep(20 * ms)
		}
		return nil
	}
	for q, rounds := 0, r.rng(1, 3); q < rounds; q++ {
		n, done := r.rng(1, 6), 0
		var peers []*peer
		for i := 0; i < n; i++ {
			mode := o.mode
			if mode == "" {
				mode = r.picks("tcp", "websocket")
			}
			var ids []uint32
			for k, m := 0, r.rng(0, 6); k < m; k++ {
				id := uint32(r.pick(1, 2, 2, 3, 4, 5, 5, 6, 7))
				if c.Op() {
					ids = append(ids, id)
				}
			}
			gap := time.Duration(r.pick(0, 0, 200, 5000)) * time.Microsecond
			mute := c.Fault("peer-stops-reading", 300)
			how := r.picks("close", "close", "reset", "abrupt", "stay", "stay")
			wait := time.Duration(r.n(30000)) * time.Microsecond
			odd := r.n(12) // 0: part of a handshake only, 1: rubbish, 2: part of a frame
			cut := r.rng(1, 60)
			if !c.Op() {
				done++
				continue
			}
			go func() {
				defer func() { done++ }()
				if odd == 0 && mode == "websocket" {
					t, err := net.Dial("tcp", fmt.Sprint("127.0.0.1:", wsPort))
					if err != nil {
						return
					}
					req := "GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n"
					t.Write([]byte(req[:min(2*cut, len(req))]))
					time.Sleep(wait)
					peers = append(peers, &peer{c: c, mode: "tcp", tc: t})
					return
				}
				p := dial(mode)
				if p == nil {
					return
				}
				peers = append(peers, p)
				p.pause = mute
				p.recv()
				for _, id := range ids {
					if p.send(id, tag(i, 0, 20)) != nil {
						break
					}
					if gap > 0 {
						time.Sleep(gap)
					}
				}
				switch odd {
				case 1:
					b := make([]byte, cut)
					for k := range b {
						b[k] = byte(k * 37)
					}
					if p.ws != nil && cut%2 == 0 {
						p.ws.WriteMessage(websocket.TextMessage, b)
					} else {
						p.write(b)
					}
				case 2:
					f := encode(o.codec, 1, tag(i, 0, 60))
					p.write(f[:min(cut, len(f)-1)])
				}
				time.Sleep(wait)
				if how != "stay" && mode != "kcp" {
					w.gone(p, how)
				}
			}()
		}
		c.until(20*sec, func() bool { return done == n }) // one that does not read may hold up a worker, and so others
		time.Sleep(time.Duration(r.n(300)) * ms)
		for i, p := range peers { // all go; over KCP that says nothing to the server
			if i%2 == 0 && p.mode != "kcp" {
				w.gone(p, "close")
			} else {
				p.close()
			}
		}
		if o.mode == "kcp" {
			time.Sleep(2 * sec)
		}
		if !c.until(30*sec, func() bool { return done == n }) {
			c.Fail("peers", "all connections have been closed, peers are stuck")
			return
		}
		deadline := c.Now() + 5*sec
		c.until(5*sec, func() bool { // the server ends those whose peers went silently
			for _, x := range w.conns {
				if x.cn.Context().Err() == nil && (o.mode == "kcp" || c.Now() > deadline-4*sec) {
					x.cn.Stop()
				}
			}
			for _, x := range w.conns {
				if x.cn.Context().Err() == nil {
					return false
				}
			}
			return c.Now() > deadline-2*sec
		})
		if !c.until(bound, func() bool { return running == 0 && lates == 0 }) {
			c.Fail("handlers", "all connections have ended, %d handlers and %d senders are still at it %v later", running, lates, bound)
			return
		}
		c.leftovers("goroutines", bound, base, fmt.Sprintf("round %d: all %d connections have ended", q, len(w.conns)), libs...)
		for _, p := range peers {
			if p.tc != nil && !net.SimNetPeerClosed(p.tc) {
				c.Fail("socket", "round %d: all connections have ended, the server's socket to %s is still open", q, p.addr())
			}
		}
		if n := w.s.GetConnMgr().Len(); n != 0 {
			c.Fail("manager", "round %d: all connections have ended, the manager holds %d", q, n)
		}
		if c.Failed() {
			return
		}
	}
	c.Count("connections", len(w.conns))
}

func c26Clients(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec = r.picks("tcp", "tcp", "websocket"), "tlv"
	o.hbMax = r.pick(1, 60)
	o.slices = false
	setConf(o)
	weather(c, o.mode, nil)
	b := &bareServer{c: c}
	base := takeCensus()
	n := r.rng(1, 3)
	hb := r.p(400)
	c.Shape("%v clients=%d hb=%v", o, n, hb)
	for i := 0; i < n; i++ {
		b.down()
		cl := b.newClient(o)
		b.up()
		got, reads := 0, r.p(700)
		cl.AddRouter(2, &routerFunc{f: func(q ziface.IRequest) { got++ }})
		if hb {
			cl.StartHeartBeat(300 * ms)
		}
		hr := r.fork()
		cl.SetOnConnStart(func(cn ziface.IConnection) {
			for k := hr.n(4); k > 0; k-- {
				cn.SendBuffMsg(1, tag(i, k, 30))
			}
			if hr.p(100) {
				cn.Stop()
			}
		})
		over := false
		if reads {
			go func() {
				for !over {
					select {
					case <-cl.GetErrChan():
					default:
					}
					time.Sleep(5 * ms)
				}
			}()
		}
		for k, m := 0, r.rng(1, 4); k < m; k++ {
			up, start := r.p(800), k == 0 || r.p(300)
			pause := time.Duration(r.pick(0, 1, 20, 300)) * ms
			drop := r.p(300)
			if !c.Op() {
				continue
			}
			if up {
				b.up()
			} else {
				b.down()
			}
			prev := cl.Conn()
			if start {
				cl.Start()
			} else if !c.within(20*sec, cl.Restart) {
				c.Fail("restart", "Restart does not return")
				return
			}
			time.Sleep(pause)
			if drop {
				for _, p := range b.peers {
					p.close()
				}
			}
			ended := func() bool {
				cn := cl.Conn()
				return cn != nil && cn != prev && cn.Context() != nil && cn.Context().Err() != nil
			}
			if start || !drop || !c.until(5*sec, ended) { // one connection at a time
				if !c.within(20*sec, cl.Stop) {
					c.Fail("stop", "Stop does not return")
					return
				}
				time.Sleep(time.Duration(r.n(20)) * ms)
			} else { // the connection was lost: nothing of it is left, also without Stop
				c.leftovers("client-goroutines", 15*sec, base, fmt.Sprintf("the connection of client %d of %d has ended", i+1, n))
				if c.Failed() {
					return
				}
			}
		}
		if !c.within(20*sec, cl.Stop) {
			c.Fail("stop", "Stop does not return")
			return
		}
		c.leftovers("client-goroutines", 15*sec, base, fmt.Sprintf("client %d of %d has been stopped", i+1, n))
		over = true
		for _, p := range b.peers {
			if !net.SimNetPeerClosed(p.tc) {
				c.Fail("client-socket", "client %d of %d has been stopped, its socket is still open", i+1, n)
			}
			p.close()
		}
		b.peers = nil
		if c.Failed() {
			return
		}
	}
}

func c26Restarts(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(250) {
		o.mode = ""
	}
	wm := o.mode
	if wm == "" {
		wm = "tcp"
	}
	o.hbMax = 60
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	weather(c, wm, nil)
	w := newWorld(c, o)
	route(w.s, o, 1, func(q ziface.IRequest) { q.GetConnection().SendBuffMsg(2, q.GetData()) })
	c.Shape("%v", o)
	libs := []string{"github.com/xtaci/", "net/http", "github.com/gorilla/"}
	var base *census
	for q, rounds := 0, r.rng(2, 4); q < rounds; q++ {
		n := r.rng(0, 3)
		pause := time.Duration(r.n(30)) * ms
		c.start(w.s, o)
		var peers []*peer
		for i := 0; i < n; i++ {
			mode := o.mode
			if mode == "" {
				mode = r.picks("tcp", "websocket")
			}
			if !c.Op() {
				continue
			}
			if p, err := c.dial(mode, o.codec); err == nil {
				peers = append(peers, p)
				p.recv()
				go p.send(1, tag(i, 0, 30))
			}
		}
		time.Sleep(pause)
		for _, p := range peers {
			if o.mode == "kcp" {
				p.close()
			}
		}
		if o.mode == "kcp" {
			time.Sleep(3 * sec)
		}
		if !c.within(20*sec, w.s.Stop) {
			c.Fail("stop", "Stop does not return")
			return
		}
		for _, p := range peers {
			p.close()
		}
		c.until(10*sec, func() bool {
			for _, x := range w.conns {
				if x.stops == 0 {
					return false
				}
			}
			return !listening("tcp", o.off) && !listening("websocket", o.off) && !listening("kcp", o.off)
		})
		if base == nil { // what one start and stop leaves is the measure: the worker pool
			time.Sleep(10 * sec)
			base = takeCensus(libs...)
			continue
		}
		c.leftovers("restart-goroutines", 10*sec, base, fmt.Sprintf("the server has been started and stopped %d times; compared to the first time", q+1), libs...)
		if c.Failed() {
			return
		}
	}
}
