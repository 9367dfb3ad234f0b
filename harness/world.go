package main

import (
	"fmt"
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
)

// wconn is what the harness knows about one accepted connection.
type wconn struct {
	cn       ziface.IConnection
	n        int // order of start hooks
	id       uint64
	idStr    string
	addr     string
	starts   int
	started  bool // the start hook has returned
	startAt  time.Duration
	stops    int
	stopIn   bool
	stopAt   time.Duration
	causeAt  time.Duration // when the first cause of ending it arose
	caused   bool
	byServer bool // ended from the server side
	handled  int
	early    int  // handlers before the start hook returned
	ended    bool // a close callback ran: the teardown is over
	endedAt  time.Duration
	noCb     bool
}

// world is a server with bookkeeping of its connections.
type world struct {
	c     *Ctx
	o     srvOpt
	s     ziface.IServer
	conns []*wconn
	live  int // start hook entered, stop hook not yet returned
	maxLv int

	onStart func(*wconn)
	onStop  func(*wconn)
}

func newWorld(c *Ctx, o srvOpt) *world {
	w := &world{c: c, o: o}
	w.s = newServer(o)
	w.s.SetOnConnStart(func(cn ziface.IConnection) {
		x := w.of(cn)
		if x == nil {
			x = &wconn{cn: cn, n: len(w.conns), id: cn.GetConnID(), idStr: cn.GetConnIdStr(), addr: cn.RemoteAddrString(), startAt: c.Now()}
			w.conns = append(w.conns, x)
		}
		x.starts++
		w.live++
		w.maxLv = max(w.maxLv, w.live)
		c.Logf("start hook: connection %d (%s)", x.id, x.addr)
		cn.AddCloseCallback(w, "world", func() { x.ended, x.endedAt = true, c.Now() })
		x.noCb = cn.Context().Err() != nil // stopped already: the callback may not have been taken
		if w.onStart != nil {
			w.onStart(x)
		}
		x.started = true
	})
	w.s.SetOnConnStop(func(cn ziface.IConnection) {
		x := w.of(cn)
		if x == nil {
			c.Fail("stop-unknown", "the stop hook of a connection runs that never had its start hook (id %d)", cn.GetConnID())
			return
		}
		x.stops++
		x.stopIn, x.stopAt = true, c.Now()
		c.Logf("stop hook: connection %d", x.id)
		if w.onStop != nil {
			w.onStop(x)
		}
		w.live--
	})
	return w
}

func (w *world) of(cn ziface.IConnection) *wconn {
	for _, x := range w.conns {
		if x.cn == cn {
			return x
		}
	}
	return nil
}

// by finds the connection of a peer.
func (w *world) by(p *peer) *wconn {
	a := p.addr()
	for i := len(w.conns) - 1; i >= 0; i-- {
		if w.conns[i].addr == a {
			return w.conns[i]
		}
	}
	return nil
}

// cause notes that x is to end.
func (w *world) cause(x *wconn) {
	if x != nil && !x.caused {
		x.caused, x.causeAt = true, w.c.Now()
	}
}

func (w *world) stop(x *wconn) {
	w.cause(x)
	x.byServer = true
	x.cn.Stop()
}

// gone closes the peer's end in one of several ways.
func (w *world) gone(p *peer, how string) {
	x := w.by(p)
	w.c.Logf("peer %s: %s", p.addr(), how)
	if p.mode != "kcp" {
		w.cause(x)
	}
	switch how {
	case "reset":
		if p.tc != nil {
			net.SimNetReset(p.tc)
		}
		p.close()
	case "abrupt":
		if p.tc != nil {
			p.tc.Close()
		} else {
			p.close()
		}
	default:
		p.close()
	}
}

// over reports whether x's teardown has finished.
func (w *world) over(x *wconn) bool {
	if x.ended || !x.noCb || x.stops == 0 {
		return x.ended
	}
	_, err := w.s.GetConnMgr().Get(x.id)
	return err != nil
}

func (w *world) name(x *wconn) string { return fmt.Sprintf("connection %d (%s)", x.id, w.o.mode) }

// checkHooks judges the hooks of every connection that has ended.
func (w *world) checkHooks(all bool) {
	for _, x := range w.conns {
		if x.starts != 1 {
			w.c.Fail("start-hook", "%s: the start hook ran %d times", w.name(x), x.starts)
		}
		if x.stops > 1 {
			w.c.Fail("stop-hook-twice", "%s: the stop hook ran %d times", w.name(x), x.stops)
		}
		if all && x.stops == 0 {
			w.c.Fail("stop-hook", "%s has ended, its stop hook did not run", w.name(x))
		}
	}
}
