package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
)

// C19: the client connects, reports failures, restarts and stops cleanly.

func init() {
	props["C19"] = []scenario{
		{name: "client", weight: 9, stall: 40 * ms, late: 5 * ms, run: c19Client},
		{name: "mute-server", weight: 1, stall: 40 * ms, late: 5 * ms, run: c19Mute},
	}
}

const cliPort = 7000

// bareServer is a scripted server that does not use zinx: it answers message 1
// with message 2.
type bareServer struct {
	c     *Ctx
	ws    bool
	uri   string // what a WebSocket client asks for, if it has a URL
	tls   *tls.Config
	l     net.Listener
	peers []*peer
	onNew func(p *peer)
	late  func() bool // says whether a connection accepted now should not be
}

func (b *bareServer) up() {
	if b.l != nil {
		return
	}
	l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", cliPort))
	if err != nil {
		b.c.Fail("infra", "%v", err)
		return
	}
	b.l = l
	add := func(p *peer) {
		var mu sync.Mutex
		p.onFr = func(f frame) {
			if f.id == 1 {
				d := bytes.Clone(f.data)
				go func() {
					mu.Lock()
					defer mu.Unlock()
					p.send(2, d)
				}()
			}
		}
		b.peers = append(b.peers, p)
		p.recv()
		if b.onNew != nil {
			b.onNew(p)
		}
	}
	if b.ws {
		up := websocket.Upgrader{}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if b.uri != "" && q.URL.RequestURI() != b.uri {
				b.c.Fail("url", "the client asks for %q, its URL has %q", q.URL.RequestURI(), b.uri)
			}
			k, err := up.Upgrade(w, q, nil)
			if err == nil {
				add(&peer{c: b.c, mode: "websocket", codec: "tlv", ws: k, tc: k.UnderlyingConn(), maxLen: 1 << 20})
			}
		})}
		go srv.Serve(l)
		return
	}
	go func() {
		for {
			t, err := l.Accept()
			if err != nil {
				return
			}
			p := &peer{c: b.c, mode: "tcp", codec: "tlv", tc: t, maxLen: 1 << 20}
			if b.tls != nil {
				p.tl = tls.Server(t, b.tls)
			}
			add(p)
		}
	}()
}

func (b *bareServer) down() {
	if b.l != nil {
		b.l.Close()
		b.l = nil
	}
}

// simTLS is the TLS configuration of a scripted server.
func simTLS(c *Ctx) *tls.Config {
	crt, err := tls.X509KeyPair([]byte(simCert), []byte(simKey))
	if err != nil {
		c.Fail("infra", "%v", err)
		c.finish()
	}
	return &tls.Config{Certificates: []tls.Certificate{crt}, CurvePreferences: []tls.CurveID{tls.X25519}}
}

// newClient makes the client for a scripted server.
func (b *bareServer) newClient(o srvOpt) ziface.IClient {
	b.ws, b.uri = o.mode == "websocket", ""
	switch {
	case b.ws && b.c.R.p(300): // to an address with a path
		b.uri = "/game?room=5"
		u, _ := url.Parse(fmt.Sprintf("ws://127.0.0.1:%d%s", cliPort, b.uri))
		return znet.NewWsClient("127.0.0.9", 9, znet.WithUrl(u))
	case b.ws:
		return znet.NewWsClient("127.0.0.1", cliPort)
	case o.tls:
		b.tls = simTLS(b.c)
		return znet.NewTLSClient("127.0.0.1", cliPort)
	}
	return znet.NewClient("127.0.0.1", cliPort)
}

func c19Client(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec = r.picks("tcp", "tcp", "websocket"), "tlv"
	o.hbMax = 60
	o.slices = false // a client has routers only
	setConf(o)
	weather(c, o.mode, nil)
	b := &bareServer{c: c}
	cl := b.newClient(o)
	type ccon struct {
		cn            ziface.IConnection
		starts, stops int
		at            time.Duration
		cbs           []int // close callbacks that ran
		added         int   // those added before the connection ended
	}
	var cons []*ccon
	of := func(cn ziface.IConnection) *ccon {
		for _, x := range cons {
			if x.cn == cn {
				return x
			}
		}
		x := &ccon{cn: cn, at: c.Now()}
		cons = append(cons, x)
		return x
	}
	reHook := r.p(250) // the stop hook restarts the client
	stopping := false
	restarts, inRe := 0, 0
	ncb := r.pick(0, 1, 3)
	cl.SetOnConnStart(func(cn ziface.IConnection) {
		x := of(cn)
		x.starts++
		for k := 0; k < ncb; k++ {
			cn.AddCloseCallback(cl, k, func() { x.cbs = append(x.cbs, k) })
			if cn.Context().Err() == nil {
				x.added = k + 1
			}
		}
		c.Logf("start hook %s", cn.LocalAddrString())
	})
	cl.SetOnConnStop(func(cn ziface.IConnection) {
		x := of(cn)
		re := reHook && !stopping
		if re { // before the loss is visible: one restart, by the hook
			restarts++
			inRe++
		}
		x.stops++
		c.Logf("stop hook %s", cn.LocalAddrString())
		if x.starts == 0 {
			c.Fail("hooks", "the stop hook runs before the start hook")
		}
		if re {
			cl.Restart()
			inRe--
		}
	})
	echo := 0
	cl.AddRouter(2, &routerFunc{f: func(q ziface.IRequest) {
		if _, _, ok := untag(q.GetData()); !ok {
			c.Fail("corrupt", "the client's handler gets %s", short(q.GetData()))
		}
		echo++
	}})
	if r.p(400) {
		cl.StartHeartBeat(time.Duration(r.pick(5, 50, 500)) * ms)
	}
	bound := 5*sec + 4*time.Duration(max(c.NStall, 1))*c.Stall
	// errors: either somebody reads them all the time, or only when asked
	reader := r.p(500)
	errs := 0
	watch := func() {
		ch := cl.GetErrChan()
		go func() {
			for range ch {
				errs++
				c.Logf("error reported")
			}
		}()
	}
	gotErr := func(before int) bool {
		if reader {
			return c.until(bound, func() bool { return errs > before })
		}
		select {
		case _, ok := <-cl.GetErrChan():
			return ok
		case <-time.After(bound):
			return false
		}
	}
	live := func() *ccon {
		for _, x := range cons {
			if x.starts > 0 && x.stops == 0 {
				return x
			}
		}
		return nil
	}
	stop := func(n int) bool {
		stopping = true
		c.until(bound, func() bool { return inRe == 0 })
		done := 0
		for i := 0; i < n; i++ {
			go func() { cl.Stop(); done++ }()
		}
		if !c.until(bound, func() bool { return done == n }) {
			c.Fail("stop-blocked", "Stop has not returned after %v", bound)
			return false
		}
		c.Logf("Stop has returned")
		return true
	}
	ended := func(why string) bool {
		ok := c.until(bound, func() bool {
			for _, x := range cons {
				if x.starts != x.stops || x.stops > 0 && len(x.cbs) < x.added {
					return false
				}
			}
			for _, p := range b.peers {
				if !p.eof {
					return false
				}
			}
			return true
		})
		for _, x := range cons {
			for k := range x.cbs {
				if x.cbs[k] != k {
					c.Fail("callbacks", "%s: close callbacks ran in the order %v", why, x.cbs)
				}
			}
			if x.stops > 0 && (len(x.cbs) < x.added || len(x.cbs) > ncb) {
				c.Fail("callbacks", "%s: %d of %d close callbacks ran %v after the end of a connection", why, len(x.cbs), x.added, bound)
			}
		}
		if ok {
			return true
		}
		for _, x := range cons {
			if x.starts != 1 || x.stops != 1 {
				c.Fail("hooks", "%s: start hook ran %d times, stop hook %d times", why, x.starts, x.stops)
			}
		}
		for _, p := range b.peers {
			if !p.eof {
				c.Fail("still-open", "%s: a connection to the server is still open %v later", why, bound)
			}
		}
		return false
	}
	works := func(why string) bool {
		n := len(cons)
		_ = n
		if !c.until(bound, func() bool { x := live(); return x != nil && cl.Conn() == x.cn }) {
			c.Fail("no-connection", "%s: the server is reachable, no connection after %v (%d hooks)", why, bound, len(cons))
			return false
		}
		k := 0
		for _, x := range cons {
			if x.stops == 0 {
				k++
			}
		}
		if k != 1 {
			c.Fail("several", "%s: the client has %d connections", why, k)
			return false
		}
		e := echo
		cn := live().cn
		if err := cn.SendMsg(1, tag(1, e, 40)); err != nil {
			c.Fail("send", "%s: %v", why, err)
			return false
		}
		if !c.until(bound+10*sec, func() bool { return echo > e }) {
			c.Fail("dead", "%s: a message is not answered", why)
			return false
		}
		return true
	}

	if c.Fault("server-down-at-first", 350) == false {
		b.up()
	}
	early := c.Fault("stop-before-start", 60)
	c.Shape("%s tls=%v reader=%v reHook=%v", o.mode, b.tls != nil, reader, reHook)
	if early {
		if !stop(1) {
			return
		}
		stopping = false
	}
	if reader && !early {
		watch()
	}
	before := errs
	if !c.within(bound, cl.Start) {
		c.Fail("start-blocked", "Start has not returned after %v", bound)
		return
	}
	if reader && early {
		watch()
	}
	gen := 0
	n := r.rng(1, 6)
	for i := 0; i < n && !c.Failed(); i++ {
		k := r.n(100)
		us := r.pick(0, 100, 2000, 20000)
		twice := c.Fault("stop-twice", 200)
		syn := c.Fault("syn-dropped", 150)
		how := r.n(3)
		op := c.Op()
		up := b.l != nil
		switch {
		case k < 30 || !op: // wait for the outcome of the last Start or Restart
			if up {
				if !works(fmt.Sprintf("round %d", i)) {
					return
				}
				k = 30 + k%40 // and then lose it
			} else {
				if reHook {
					continue
				}
				if !gotErr(before) {
					c.Fail("no-error", "round %d: the server is not reachable, no error is reported in %v", i, bound)
					return
				}
				c.Count("dial_errors", 1)
				b.up()
				before = errs
				gen++
				cl.Restart()
				continue
			}
			fallthrough
		case k < 70: // the connection is lost
			if !up || live() == nil || !op {
				continue
			}
			x := live()
			rs := restarts
			var q *peer
			for _, p := range b.peers {
				if p.tc.RemoteAddr().String() == x.cn.LocalAddrString() {
					q = p
				}
			}
			switch {
			case q != nil && how == 0:
				q.close()
			case q != nil && how == 1:
				net.SimNetReset(q.tc)
			default:
				x.cn.Stop()
			}
			if !c.until(bound, func() bool { return x.stops == 1 }) {
				c.Fail("hooks", "the connection is lost (kind %d), its stop hook has run %d times after %v", how, x.stops, bound)
				return
			}
			c.Count("lost", 1)
			if !reHook || restarts == rs {
				if r.p(300) {
					b.down()
				}
				before = errs
				if !c.within(bound, cl.Restart) {
					c.Fail("start-blocked", "Restart has not returned after %v", bound)
					return
				}
			}
		default: // Stop at any moment
			if syn {
				net.SimNetDropSyn(cliPort, true)
			}
			time.Sleep(time.Duration(r.n(us+1)) * time.Microsecond)
			m := 1
			if twice {
				m = 2
			}
			if !stop(m) {
				return
			}
			net.SimNetDropSyn(cliPort, false)
			if !ended("after Stop") {
				return
			}
			np, nc := len(b.peers), len(cons)
			time.Sleep(time.Duration(r.pick(0, 100, 3000)) * ms)
			for _, p := range b.peers[np:] {
				if !p.eof && !c.until(bound, func() bool { return p.eof }) {
					c.Fail("still-open", "a connection made after Stop stays open")
				}
			}
			if len(cons) > nc && !c.until(bound, func() bool { return cons[len(cons)-1].stops == 1 }) {
				c.Fail("still-open", "a connection started after Stop stays open")
			}
			c.Count("stops", 1)
			if r.p(400) {
				if twice && r.p(500) {
					if !stop(1) {
						return
					}
				}
				break
			}
			stopping = false
			if !up && r.p(500) {
				b.up()
			}
			gen++
			before = errs
			again := cl.Restart
			if us%2 == 0 {
				again = cl.Start
			}
			if !c.within(bound, again) {
				c.Fail("start-blocked", "Restart has not returned after %v", bound)
				return
			}
			if reader {
				watch()
			}
			continue
		}
		if stopping {
			break
		}
	}
	if c.Failed() {
		return
	}
	if !stopping {
		if !stop(1) {
			return
		}
	}
	if !ended("at the end") {
		return
	}
	for _, x := range cons {
		if x.starts != 1 || x.stops != 1 {
			c.Fail("hooks", "start hook ran %d times, stop hook %d times", x.starts, x.stops)
		}
	}
	c.Count("client_connections", len(cons))
}

// c19Mute: the server accepts connections and never says a word.
func c19Mute(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec, o.tls = r.picks("tcp", "websocket"), "tlv", true
	o.slices = false
	setConf(o)
	weather(c, o.mode, nil)
	b := &bareServer{c: c}
	cl := b.newClient(o)
	hooks := 0
	cl.SetOnConnStart(func(ziface.IConnection) { hooks++ })
	l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", cliPort))
	if err != nil {
		c.Fail("infra", "%v", err)
		return
	}
	var held []net.Conn
	go func() {
		for {
			t, err := l.Accept()
			if err != nil {
				return
			}
			held = append(held, t)
		}
	}()
	stopAt := time.Duration(r.n(3000)) * ms
	stop := r.p(300)
	c.Shape("%v stop=%v", o, stop)
	if !c.within(5*sec, cl.Start) {
		c.Fail("start-blocked", "Start has not returned after 5 s")
		return
	}
	if stop {
		time.Sleep(stopAt)
		if !c.within(5*sec, cl.Stop) {
			c.Fail("stop-blocked", "Stop has not returned after 5 s")
			return
		}
	} else {
		got := false
		ch := cl.GetErrChan()
		go func() {
			if err, ok := <-ch; ok && err != nil {
				got = true
			}
		}()
		if !c.until(120*sec, func() bool { return got }) {
			c.Fail("no-error", "the server has not answered the handshake for 2 min, no failure is reported")
		}
		if !c.within(5*sec, cl.Stop) {
			c.Fail("stop-blocked", "Stop has not returned after 5 s")
			return
		}
	}
	if !c.until(120*sec, func() bool {
		for _, t := range held {
			if !net.SimNetPeerClosed(t) {
				return false
			}
		}
		return true
	}) {
		c.Fail("still-open", "the client was stopped 2 min ago, its socket is still open")
	}
	if hooks > 0 {
		c.Fail("hooks", "the start hook ran without a connection")
	}
}
