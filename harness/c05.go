package main

import (
	"errors"
	"strconv"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C05: ids are unique; the connection manager holds exactly the live connections.

func init() {
	props["C05"] = []scenario{
		{name: "churn", weight: 9, stall: 40 * ms, late: 5 * ms, run: c05Churn},
		{name: "many", weight: 1, stall: 40 * ms, late: 5 * ms, run: c05Many},
	}
}

func c05Churn(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if r.p(400) {
		o.mode = "" // TCP and WebSocket listeners of one server
	}
	o.maxConn = 64
	if o.workerMode == "Bind" {
		o.pool = 64
	}
	weather(c, map[bool]string{true: "tcp", false: o.mode}[o.mode == ""], nil)
	w := newWorld(c, o)
	mgr := w.s.GetConnMgr()
	// the harness's knowledge of when an id was certainly, and possibly, in the manager
	removedAt := func(x *wconn) (time.Duration, bool) { return x.endedAt, x.ended }
	hr := r.fork()
	w.onStart = func(x *wconn) {
		if x.idStr != strconv.FormatUint(x.id, 10) {
			c.Fail("id-string", "connection id %d has the string %q", x.id, x.idStr)
		}
		for _, y := range w.conns {
			if y != x && y.id == x.id {
				c.Fail("id-reused", "two connections have the id %d (%s and %s)", x.id, x.addr, y.addr)
			}
		}
		lookup(c, w, x, "in its start hook")
	}
	w.onStop = func(x *wconn) {
		lookup(c, w, x, "in its stop hook")
	}
	route(w.s, o, 1, func(q ziface.IRequest) {
		if x := w.of(q.GetConnection()); x != nil && !x.stopIn && q.GetConnection().Context().Err() == nil {
			lookup(c, w, x, "in a handler")
		}
	})
	route(w.s, o, 2, func(q ziface.IRequest) {
		if x := w.of(q.GetConnection()); x != nil {
			w.stop(x)
		}
	})
	c.start(w.s, o)
	mode := func(k int) string {
		if o.mode == "" {
			return []string{"tcp", "websocket"}[k&1]
		}
		return o.mode
	}
	n := r.rng(2, 12)
	c.Shape("%v peers=%d", o, n)
	done, ops := 0, 0
	stay := 0
	var keep []*peer
	for i := 0; i < n; i++ {
		pr := r.fork()
		lives := r.rng(1, 3)
		kind := r.n(10)
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			for l := 0; l < lives; l++ {
				time.Sleep(time.Duration(pr.n(8000)) * time.Microsecond)
				p := c.mustDial(mode(i+l), o.codec)
				p.recv()
				if p.send(1, tag(i, l, 30)) != nil {
					continue
				}
				time.Sleep(time.Duration(pr.n(8000)) * time.Microsecond)
				if l == lives-1 && kind < 4 {
					stay++
					keep = append(keep, p)
					return
				}
				if p.mode == "kcp" || kind < 6 {
					p.send(2, tag(i, l, 30))
					c.until(60*sec, func() bool { return w.by(p) != nil && w.over(w.by(p)) })
					p.close()
				} else {
					w.gone(p, pr.picks("close", "reset", "abrupt"))
				}
			}
		}()
	}
	// observers
	obs := r.rng(1, 3)
	over := false
	obsDone := 0
	clear := r.p(250)
	clearAt := time.Duration(r.n(20)) * ms
	for k := 0; k < obs; k++ {
		or := r.fork()
		go func() {
			defer func() { obsDone++ }()
			for !over {
				c05Observe(c, w, mgr, or, removedAt)
				time.Sleep(time.Duration(or.pick(1, 20, 500, 3000, 30000)) * time.Microsecond)
			}
		}()
	}
	if clear {
		go func() {
			time.Sleep(clearAt)
			var before []*wconn
			for _, x := range w.conns {
				if x.started && !x.caused && x.cn.Context().Err() == nil {
					before = append(before, x)
				}
			}
			c.Logf("ClearConn with %d connections", len(before))
			if !c.within(5*sec, mgr.ClearConn) {
				c.Fail("clear-blocked", "ClearConn does not return")
			}
			time.Sleep(2 * sec)
			for _, x := range before {
				if x.stops == 0 {
					c.Fail("clear-missed", "%s was live when ClearConn was called and has not been stopped", w.name(x))
				}
			}
		}()
	}
	if !c.until(200*sec, func() bool { return done == ops }) {
		c.Fail("stuck", "peers cannot finish")
	}
	time.Sleep(2100 * ms)
	over = true
	if !c.until(20*sec, func() bool { return obsDone == obs }) {
		c.Fail("observe-blocked", "enumerating the connection manager blocks")
		return
	}
	if o.mode != "kcp" {
		c05Settled(c, w, mgr)
	}
	_ = hr
	for _, p := range keep {
		if p.kc != nil {
			p.close()
		}
	}
	if o.mode == "kcp" {
		time.Sleep(3 * sec)
	}
	for _, x := range w.conns {
		w.stop(x)
	}
	for _, p := range keep {
		p.close()
	}
	if !c.until(10*sec, func() bool { return mgr.Len() == 0 }) {
		c.Fail("not-empty", "all connections have ended, the connection manager still counts %d: %v", mgr.Len(), mgr.GetAllConnIdStr())
	}
	if k := len(mgr.GetAllConnID()) + len(mgr.GetAllConnIdStr()); k != 0 {
		c.Fail("not-empty", "all connections have ended, the connection manager still lists %d", k)
	}
	for _, x := range w.conns {
		if _, err := mgr.Get(x.id); err == nil {
			c.Fail("not-empty", "%s has ended and is still found by its id", w.name(x))
		}
	}
	c.Count("connections", len(w.conns))
}

// lookup: x is live now, so it is found.
func lookup(c *Ctx, w *world, x *wconn, where string) {
	mgr := w.s.GetConnMgr()
	if g, err := mgr.Get(x.id); (err != nil || g != x.cn) && !x.stopIn {
		c.Fail("lookup", "%s is not found by its id %s (%v)", w.name(x), where, err)
	}
	if g, err := mgr.Get2(x.idStr); (err != nil || g != x.cn) && !x.stopIn {
		c.Fail("lookup", "%s is not found by its id string %s (%v)", w.name(x), where, err)
	}
	if mgr.Len() < 1 && !x.stopIn {
		c.Fail("count", "the connection manager counts 0, %s is live", w.name(x))
	}
}

// c05Observe enumerates once, in some way, and judges the answer.
func c05Observe(c *Ctx, w *world, mgr ziface.IConnManager, r *rng, removedAt func(*wconn) (time.Duration, bool)) {
	var sure, gone []*wconn // present throughout; removed before
	for _, x := range w.conns {
		if x.ended {
			gone = append(gone, x)
		} else if x.started && !x.stopIn {
			sure = append(sure, x)
		}
	}
	var ids []uint64
	kind := r.n(6)
	n := -1
	switch kind {
	case 0:
		ids = mgr.GetAllConnID()
	case 1:
		for _, s := range mgr.GetAllConnIdStr() {
			k, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				c.Fail("listed", "the connection manager lists the id %q", s)
			}
			ids = append(ids, k)
		}
	case 2:
		fail := error(nil)
		if r.p(300) { // what the callback says about one connection does not hide the others
			fail = errors.New("from the callback")
		}
		err := mgr.Range(func(id uint64, cn ziface.IConnection, a interface{}) error {
			if cn == nil || cn.GetConnID() != id || a != "arg" {
				c.Fail("listed", "Range gives id %d with the wrong connection or argument", id)
			}
			ids = append(ids, id)
			return fail
		}, "arg")
		if err != nil && fail == nil {
			c.Fail("listed", "Range: %v", err)
		}
	case 3:
		fail := error(nil)
		if r.p(300) {
			fail = errors.New("from the callback")
		}
		err := mgr.Range2(func(id string, cn ziface.IConnection, a interface{}) error {
			if cn == nil || cn.GetConnIdStr() != id {
				c.Fail("listed", "Range2 gives id %s with the wrong connection", id)
				return nil
			}
			ids = append(ids, cn.GetConnID())
			return fail
		}, "arg")
		if err != nil && fail == nil {
			c.Fail("listed", "Range2: %v", err)
		}
	case 4:
		n = mgr.Len()
	case 5:
		for _, x := range sure {
			g, err := mgr.Get(x.id)
			if !x.stopIn && (err != nil || g != x.cn) {
				c.Fail("lookup", "%s is live and not found: %v", w.name(x), err)
			}
		}
		for _, x := range gone {
			if _, err := mgr.Get(x.id); err == nil {
				c.Fail("stale", "%s has ended and is still found", w.name(x))
			}
		}
		return
	}
	c.Count("enumerations", 1)
	still := 0
	if n >= 0 {
		for _, x := range sure {
			if !x.stopIn {
				still++
			}
		}
		if n < still {
			c.Fail("count", "the connection manager counts %d, %d connections are live throughout", n, still)
		}
		if w.o.mode != "kcp" && n > w.o.maxConn {
			c.Fail("count", "the connection manager counts %d", n)
		}
		return
	}
	for i, a := range ids {
		for _, b := range ids[:i] {
			if a == b {
				c.Fail("listed-twice", "the enumeration has id %d twice", a)
			}
		}
	}
	has := func(id uint64) bool {
		for _, a := range ids {
			if a == id {
				return true
			}
		}
		return false
	}
	for _, x := range sure {
		if !x.stopIn && !has(x.id) {
			c.Fail("missed", "%s is live throughout the enumeration and not in it (kind %d)", w.name(x), kind)
		}
	}
	for _, x := range gone {
		if has(x.id) {
			c.Fail("stale", "%s had ended before the enumeration and is in it", w.name(x))
		}
	}
}

// c05Settled: nothing is going on, the manager holds exactly the live ones.
func c05Settled(c *Ctx, w *world, mgr ziface.IConnManager) {
	live := 0
	for _, x := range w.conns {
		if x.stops == 0 {
			live++
		}
	}
	if n := mgr.Len(); n != live {
		c.Fail("count", "%d connections are live and nothing is going on, the connection manager counts %d", live, n)
	}
	if n := len(mgr.GetAllConnID()); n != live {
		c.Fail("count", "%d connections are live and nothing is going on, the connection manager lists %d", live, n)
	}
}

// c05Many: hundreds of connections in the life of one server, some of which
// stay, in waves; whatever depends on how many there have been shows.
func c05Many(c *Ctx) {
	r := c.R
	o := drawServer(r)
	if o.mode == "kcp" {
		o.mode = "tcp"
	}
	o.tls = false
	o.maxConn = r.pick(40, 130, 300)
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	w := newWorld(c, o)
	mgr := w.s.GetConnMgr()
	w.onStart = func(x *wconn) {
		if x.idStr != strconv.FormatUint(x.id, 10) {
			c.Fail("id-string", "connection id %d has the string %q", x.id, x.idStr)
		}
		for _, y := range w.conns {
			if y != x && y.id == x.id {
				c.Fail("id-reused", "two connections have the id %d (%s and %s)", x.id, x.addr, y.addr)
			}
		}
		lookup(c, w, x, "in its start hook")
	}
	w.onStop = func(x *wconn) { lookup(c, w, x, "in its stop hook") }
	route(w.s, o, 1, func(ziface.IRequest) {})
	c.start(w.s, o)
	waves := r.rng(2, 6)
	c.Shape("%v many, %d waves", o, waves)
	var open []*peer
	for k := 0; k < waves; k++ {
		n := min(r.pick(5, 30, 60, 120), o.maxConn-len(open))
		drop := r.n(1001)
		dr := r.fork()
		if !c.Op() {
			continue
		}
		had, done := len(w.conns), 0
		for i := 0; i < n; i++ {
			go func() {
				defer func() { done++ }()
				time.Sleep(time.Duration(dr.n(3000)) * time.Microsecond)
				p := c.mustDial(o.mode, o.codec)
				p.recv()
				open = append(open, p)
			}()
		}
		if !c.until(60*sec, func() bool { return done == n && len(w.conns) == had+n }) {
			c.Fail("no-start", "%d peers connected below the maximum of %d, %d start hooks ran", n, o.maxConn, len(w.conns)-had)
			return
		}
		time.Sleep(10 * ms)
		c05Settled(c, w, mgr)
		var stay []*peer
		var ends []*wconn
		for _, p := range open {
			if !dr.p(drop) {
				stay = append(stay, p)
				continue
			}
			x := w.by(p)
			ends = append(ends, x)
			if dr.p(500) {
				w.stop(x)
				p.close()
			} else {
				w.gone(p, dr.picks("close", "reset"))
			}
		}
		open = stay
		if !c.until(20*sec, func() bool {
			for _, x := range ends {
				if !w.over(x) {
					return false
				}
			}
			return true
		}) {
			c.Fail("teardown", "%d connections have ended, their teardown does not finish", len(ends))
			return
		}
		time.Sleep(10 * ms)
		c05Settled(c, w, mgr)
		for _, x := range ends {
			if _, err := mgr.Get(x.id); err == nil {
				c.Fail("stale", "%s has ended and is still found", w.name(x))
			}
		}
		for _, p := range open {
			lookup(c, w, w.by(p), "while nothing is going on")
		}
	}
	if !c.within(20*sec, mgr.ClearConn) {
		c.Fail("clear-blocked", "ClearConn does not return")
		return
	}
	if !c.until(20*sec, func() bool { return mgr.Len() == 0 }) {
		c.Fail("not-empty", "all connections were cleared, the connection manager still counts %d: %v", mgr.Len(), mgr.GetAllConnIdStr())
	}
	for _, p := range open {
		p.close()
	}
	time.Sleep(100 * ms)
	for _, x := range w.conns {
		if _, err := mgr.Get(x.id); err == nil {
			c.Fail("not-empty", "%s has ended and is still found by its id", w.name(x))
		}
	}
	c.Count("connections", len(w.conns))
}
