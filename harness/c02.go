package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C02: with the worker pool on, the messages of one connection are handled one
// after another, in the order sent.
// C08: with bound workers, a blocked handler delays no other live connection.

func init() {
	props["C02"] = []scenario{
		{name: "order", weight: 1, stall: 50 * ms, late: 5 * ms, run: c02Order},
	}
	props["C08"] = []scenario{
		{name: "blocking-handlers", weight: 3, stall: 50 * ms, late: 5 * ms, run: c08Block},
		{name: "churn", weight: 2, stall: 10 * ms, late: 2 * ms, run: c08Churn},
	}
}

type c02conn struct {
	active int
	last   int
	n      int
	who    int
}

func c02Order(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if o.workerMode != "Bind" && r.p(500) {
		o.pool = r.pick(1, 2)
	}
	weather(c, o.mode, nil)
	c.Shape("%v", o)
	s := newServer(o)
	var st table[uint64, c02conn]
	slow := r.pick(0, 1, 3, 20)
	hr := r.fork()
	total := 0
	h := func(q ziface.IRequest) {
		id := q.GetConnection().GetConnID()
		e := st.at(id)
		who, seq, ok := untag(q.GetData())
		c.Logf("enter conn %d seq %d (peer %d)", id, seq, who)
		if e.active != 0 {
			c.Fail("concurrent", "connection %d: the handler of message %d starts while that of message %d still runs (worker mode %s)", id, seq, e.last, o.workerMode)
		}
		e.active++
		if !ok {
			c.Fail("corrupt", "connection %d: payload %s", id, short(q.GetData()))
		}
		if e.n > 0 && (who != e.who || seq <= e.last) {
			c.Fail("order", "connection %d: message %d handled after message %d (worker mode %s)", id, seq, e.last, o.workerMode)
		}
		if e.n == 0 && seq != 0 || e.n > 0 && seq > e.last+1 {
			c.Fail("order", "connection %d: message %d handled after message %d, skipping some (worker mode %s)", id, seq, e.last, o.workerMode)
		}
		e.last, e.who = seq, who
		e.n++
		total++
		switch k := hr.n(10); {
		case k < 3 && slow > 0:
			time.Sleep(time.Duration(hr.n(slow*1000)) * time.Microsecond)
		case k < 6:
			runtime.Gosched()
		}
		e.active--
	}
	for id := uint32(1); id <= 3; id++ {
		route(s, o, id, h)
	}
	c.start(s, o)
	n := r.rng(1, 5)
	sent, done := 0, 0
	rude := false
	for i := 0; i < n; i++ {
		pr := r.fork()
		lives := 1
		if r.p(400) {
			lives = r.rng(2, 4)
		}
		type msg struct {
			id   uint32
			size int
			gap  time.Duration
		}
		var plan [][]msg
		for l := 0; l < lives; l++ {
			var ms []msg
			for k, m := 0, r.rng(2, 25); k < m; k++ {
				x := msg{uint32(r.rng(1, 3)), r.size(120), time.Duration(r.pick(0, 0, 0, 100, 3000)) * time.Microsecond}
				if c.Op() {
					ms = append(ms, x)
				}
			}
			plan = append(plan, ms)
		}
		go func() {
			defer func() { done++ }()
			for l, ms := range plan {
				p := c.mustDial(o.mode, o.codec)
				p.recv()
				batch := pr.p(300)
				var all []byte
				for k, m := range ms {
					w := encode(o.codec, m.id, tag(i*10+l, k, m.size))
					if batch {
						all = append(all, w...)
						continue
					}
					if p.write(w) != nil {
						break
					}
					sent++
					if m.gap > 0 {
						time.Sleep(m.gap)
					}
				}
				if batch && len(all) > 0 && p.write(all) == nil {
					sent += len(ms)
				}
				if l < len(plan)-1 {
					rude = true
					if o.mode == "kcp" {
						time.Sleep(20 * 1000 * 1000)
					}
					p.close()
				}
			}
		}()
	}
	c.until(200*sec, func() bool { return done == n && (rude || total >= sent) })
	if rude {
		time.Sleep(2 * sec)
	} else {
		time.Sleep(100 * ms)
	}
	if !rude && total != sent {
		c.Fail("lost", "%d messages sent on open connections, %d handled", sent, total)
	}
	c.Count("messages_handled", total)
	c.Count("connections", len(st.ks))
}

type c08conn struct {
	p       *peer
	id      int
	blocked bool
	gate    chan struct{}
	in, out bool // handler entered, left
	open    bool
	closing bool
}

func c08Block(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.workerMode = r.picks("Bind", "DynamicBind")
	o.maxConn = r.pick(2, 3, 4, 6)
	o.pool = r.rng(1, o.maxConn)
	o.taskLen = r.pick(1, 2, 16)
	weather(c, o.mode, nil)
	c.Shape("%v", o)
	s := newServer(o)
	visitor, visits := "", 0 // what the start hook of the next connection does
	s.SetOnConnStart(func(cn ziface.IConnection) {
		how := visitor
		visitor = ""
		if how != "" {
			cn.Stop()
			visits++
		}
	})
	conns := map[int]*c08conn{}
	var probes table[int, int] // probe number -> times handled
	route(s, o, 1, func(q ziface.IRequest) {
		who, _, _ := untag(q.GetData())
		k := conns[who]
		if k == nil {
			return
		}
		k.in = true
		c.Logf("handler of connection %d blocks", who)
		<-k.gate
		k.out = true
	})
	route(s, o, 2, func(q ziface.IRequest) {
		who, seq, _ := untag(q.GetData())
		c.Logf("probe %d of connection %d handled", seq, who)
		*probes.at(seq)++
	})
	c.start(s, o)
	bound := 8 * sec
	if o.mode == "kcp" {
		bound = 90 * sec // datagrams get lost
	}
	next, nprobe := 0, 0
	var live []*c08conn
	kcpBye := func(k *c08conn) { // a KCP peer vanishes silently: the server side must be closed too
		if o.mode != "kcp" {
			return
		}
		time.Sleep(sec) // datagrams still under way would open a new session
		for _, id := range s.GetConnMgr().GetAllConnID() {
			if cn, err := s.GetConnMgr().Get(id); err == nil && cn.RemoteAddrString() == k.p.addr() {
				cn.Stop()
			}
		}
	}
	// probe sends one message on every unblocked live connection and wants all handled
	probe := func() {
		type pr struct {
			k *c08conn
			n int
		}
		var out []pr
		for _, k := range live {
			if k.blocked {
				continue
			}
			nprobe++
			if err := k.p.send(2, tag(k.id, nprobe, 20)); err != nil {
				c.Fail("closed", "connection %d was closed by the server: %v", k.id, err)
				return
			}
			out = append(out, pr{k, nprobe})
		}
		ok := c.until(bound, func() bool {
			for _, x := range out {
				if *probes.at(x.n) == 0 {
					return false
				}
			}
			return true
		})
		if !ok {
			for _, x := range out {
				if *probes.at(x.n) == 0 {
					nb := 0
					for _, k := range live {
						if k.blocked {
							nb++
						}
					}
					c.Fail("delayed", "%d of %d live connections (limit %d) have a blocked handler; a message on connection %d, which has none, is not handled in %v (mode %s, pool %d)", nb, len(live), o.maxConn, x.k.id, bound, o.workerMode, o.pool)
					return
				}
			}
		}
		c.Count("probes", len(out))
	}
	for step, steps := 0, r.rng(4, 16); step < steps && !c.Failed(); step++ {
		op, w := r.n(12), r.n(64)
		simul := r.p(400)
		if !c.Op() {
			continue
		}
		switch {
		case op < 4 || len(live) == 0: // open one, or a few at once
			k := o.maxConn - len(live)
			if k == 0 {
				break
			}
			if !simul {
				k = 1
			}
			c.Logf("open %d (live %d)", k, len(live))
			opened := 0
			for i := 0; i < k; i++ {
				x := &c08conn{id: next, gate: make(chan struct{})}
				next++
				conns[x.id] = x
				live = append(live, x)
				go func() {
					for try := 0; try < 40; try++ {
						x.p = c.mustDial(o.mode, o.codec)
						x.p.recv()
						x.p.send(2, tag(x.id, 1000000+x.id, 20))
						// a connection counts once it was served
						if c.until(bound, func() bool { return *probes.at(1000000 + x.id) > 0 }) {
							opened++
							return
						}
						if !x.p.eof {
							return // accepted and stuck: the caller reports it
						}
					}
				}()
			}
			if !c.until(bound*3/2, func() bool { return opened == k }) {
				nb := 0
				for _, y := range live {
					if y.blocked {
						nb++
					}
				}
				c.Fail("delayed", "%d connections opened (live %d, limit %d, %d of them with blocked handlers), only %d of them had their first message handled in %v", k, len(live), o.maxConn, nb, opened, bound*3/2)
			}
			c.Count("opened", k)
		case op < 6: // block one
			k := live[w%len(live)]
			if k.blocked {
				break
			}
			k.blocked, k.in, k.out, k.gate = true, false, false, make(chan struct{})
			k.p.send(1, tag(k.id, 0, 20))
			if !c.until(bound, func() bool { return k.in }) {
				c.Fail("delayed", "a message on connection %d is not handled in %v", k.id, bound)
			}
			c.Count("blocked_handlers", 1)
		case op < 7: // release one
			k := live[w%len(live)]
			if k.blocked {
				close(k.gate)
				c.until(5*sec, func() bool { return k.out })
				k.blocked = false
			}
		case op < 9: // connections that their start hook turns away
			if o.mode == "kcp" {
				break // retransmissions would open the session again
			}
			for m := 1 + w%3; m > 0 && len(live) < o.maxConn; m-- {
				if !c.until(bound, func() bool { return s.GetConnMgr().Len() <= len(live) }) {
					break
				}
				was := visits
				visitor = "stop"
				p := c.mustDial(o.mode, o.codec)
				p.recv()
				c.until(bound, func() bool { return visits > was })
				visitor = ""
				p.close()
				c.until(bound, func() bool { return s.GetConnMgr().Len() <= len(live) })
				c.Count("turned_away", 1)
			}
		default: // close one or more
			m := 1
			if simul {
				m = 1 + w%len(live)
			}
			for ; m > 0 && len(live) > 0; m-- {
				i := w % len(live)
				k := live[i]
				if k.blocked {
					close(k.gate)
					c.until(5*sec, func() bool { return k.out })
				}
				live = append(live[:i:i], live[i+1:]...)
				c.Logf("close %d", k.id)
				k.p.close()
				kcpBye(k)
				c.Count("closed", 1)
			}
			if o.mode == "kcp" {
				c.until(5*sec, func() bool { return s.GetConnMgr().Len() == len(live) })
			}
		}
		probe()
	}
	for _, k := range live {
		if k.blocked {
			close(k.gate)
		}
	}
	_ = fmt.Sprint
}

// c08Churn: connections come and go at the same time, next to some whose handlers block.
func c08Churn(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode = r.picks("tcp", "tcp", "websocket")
	o.workerMode = r.picks("Bind", "DynamicBind", "DynamicBind")
	o.maxConn = r.pick(2, 3, 4, 6)
	o.pool = r.pick(1, 1, 2, o.maxConn)
	o.taskLen = r.pick(1, 2, 16)
	weather(c, o.mode, nil)
	c.Shape("%v", o)
	s := newServer(o)
	gate := make(chan struct{})
	blocked := 0
	var served table[int, int]
	route(s, o, 1, func(q ziface.IRequest) {
		blocked++
		<-gate
	})
	route(s, o, 2, func(q ziface.IRequest) {
		_, seq, _ := untag(q.GetData())
		*served.at(seq)++
	})
	var started table[string, bool] // accepted, by the peer's address
	s.SetOnConnStart(func(cn ziface.IConnection) { *started.at(cn.RemoteAddrString()) = true })
	c.start(s, o)
	defer close(gate)
	hold := r.n(o.maxConn)
	for i := 0; i < hold; i++ {
		p := c.mustDial(o.mode, o.codec)
		p.recv()
		p.send(1, tag(i, 0, 20))
		if !c.until(8*sec, func() bool { return blocked == i+1 }) {
			c.Fail("delayed", "%d connections with blocked handlers (limit %d), the first message of another is not handled in 8 s", i, o.maxConn)
			return
		}
	}
	done, n, next := 0, o.maxConn-hold+r.n(2), 0
	for i := 0; i < n; i++ {
		type life struct {
			msgs int
			how  string
			gap  time.Duration
		}
		var ls []life
		for k, q := 0, r.rng(2, 8); k < q; k++ {
			l := life{r.rng(1, 3), r.picks("close", "close", "abrupt", "server"), time.Duration(r.pick(0, 0, 0, 1, 5, 30)) * ms}
			if c.Op() {
				ls = append(ls, l)
			}
		}
		go func() {
			defer func() { done++ }()
			for _, l := range ls {
				for try := 0; try < 200 && !c.Failed(); try++ {
					p := c.mustDial(o.mode, o.codec)
					*started.at(p.addr()) = false
					p.recv()
					ok := true
					for m := 0; m < l.msgs && ok; m++ {
						next++
						seq := next
						p.send(2, tag(i, seq, 20))
						if !c.until(8*sec, func() bool { return *served.at(seq) > 0 || p.eof }) {
							c.Fail("delayed", "%d connections with blocked handlers among %d (limit %d), a message of another is not handled in 8 s (mode %s, pool %d)", hold, hold+n, o.maxConn, o.workerMode, o.pool)
							return
						}
						ok = *served.at(seq) > 0
						if !ok && *started.at(p.addr()) {
							c.Fail("closed", "a connection that was accepted is closed by the server, message %d on it is not handled", m)
							return
						}
					}
					if !ok { // refused: too many at the moment
						p.close()
						time.Sleep(5 * ms)
						continue
					}
					switch l.how {
					case "abrupt":
						p.tc.Close()
					case "server":
						for _, id := range s.GetConnMgr().GetAllConnID() {
							if cn, err := s.GetConnMgr().Get(id); err == nil && cn.RemoteAddrString() == p.addr() {
								cn.Stop()
							}
						}
						fallthrough
					default:
						p.close()
					}
					c.Count("lives", 1)
					break
				}
				time.Sleep(l.gap)
			}
		}()
	}
	if !c.until(300*sec, func() bool { return done == n || c.Failed() }) {
		c.Fail("stuck", "after 5 min %d of %d peers are not done", n-done, n)
	}
}
