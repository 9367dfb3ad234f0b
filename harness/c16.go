package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/aceld/zinx/ziface"
)

// C16: requests are isolated from each other, pooled or not.
// C18: interceptors and router steps run in order, per message.

func init() {
	props["C16"] = []scenario{
		{name: "requests", weight: 1, stall: 20 * ms, late: 3 * ms, run: c16Requests},
	}
	props["C18"] = []scenario{
		{name: "chains", weight: 1, stall: 20 * ms, late: 3 * ms, run: c18Chains},
	}
}

// reqMsg is what is to happen to one message.
type reqMsg struct {
	who, seq int
	id       uint32
	data     []byte
	setIn    bool // an interceptor sets a response
	keyIn    bool // an interceptor sets a value
	setAt    int  // the step that sets values (-1: none)
	respAt   int  // the step that sets the response (-1: none)
	copyAt   int  // the step that copies the request
	hold     [3]int
	panicAt  int
	abortAt  int
	mut      bool // the copy is changed
	steps    int
	handled  bool
	copies   int
	copiesOK int
}

// c16Requests: every message carries a plan; each step of its handling checks
// that it sees exactly what its own plan has put into the request so far.
func c16Requests(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.reqPool = r.p(800)
	if r.p(120) {
		o.pool, o.workerMode = 0, "" // a goroutine per message
	}
	o.codec = "tlv"
	if r.p(350) {
		o.codec, o.mode = "raw", "websocket" // one message of the peer is one request
		o.readBuf = 1024
	} else if o.mode == "kcp" && r.p(700) {
		o.mode = "tcp"
	}
	weather(c, o.mode, nil)
	w := newWorld(c, o)
	c.Shape("%v", o)
	np := r.rng(1, min(4, o.maxConn))
	plans := make([][]*reqMsg, np)
	var keys = []string{"a", "b", "interceptor"}
	total := 0
	pending := 0
	find := func(data []byte) *reqMsg {
		who, seq, ok := untag(data)
		if !ok || who >= np || seq >= len(plans[who]) {
			return nil
		}
		return plans[who][seq]
	}
	peers := make([]*peer, np)
	val := func(m *reqMsg, k string) string { return fmt.Sprintf("%s of %d.%d", k, m.who, m.seq) }
	// look compares a request with its plan; step -1: in the interceptor
	look := func(q ziface.IRequest, m *reqMsg, where string, set, resp bool, isCopy bool) {
		if !bytes.Equal(q.GetData(), m.data) || q.GetMsgID() != m.id {
			c.Fail("data", "%s of message %d.%d (id %d): the request has id %d and data %s", where, m.who, m.seq, m.id, q.GetMsgID(), short(q.GetData()))
		}
		if !isCopy {
			if cn := q.GetConnection(); cn == nil || peers[m.who] == nil || cn.RemoteAddrString() != peers[m.who].addr() {
				c.Fail("connection", "%s of message %d.%d: the request belongs to another connection", where, m.who, m.seq)
			}
		}
		for _, k := range keys {
			want := k == "interceptor" && m.keyIn || k != "interceptor" && set
			v, ok := q.Get(k)
			if ok != want || ok && v != any(val(m, k)) {
				c.Fail("values", "%s of message %d.%d: the value of %q is %v (present: %v, expected: %v)", where, m.who, m.seq, k, v, ok, want)
			}
		}
		got := q.GetResponse()
		switch {
		case resp:
			if got != any(val(m, "response")) {
				c.Fail("response", "%s of message %d.%d: the response is %v, its own was set", where, m.who, m.seq, got)
			}
		case m.setIn:
			if got != any(val(m, "in")) {
				c.Fail("response", "%s of message %d.%d: the response is %v, not what its interceptor set", where, m.who, m.seq, got)
			}
		case o.codec == "raw":
			if got != nil {
				c.Fail("response", "%s of message %d.%d: the response is %v, none was set for this message", where, m.who, m.seq, got)
			}
		}
	}
	w.s.AddInterceptor(interceptFunc(func(ch ziface.IChain) ziface.IcResp {
		q, ok := ch.Request().(ziface.IRequest)
		if !ok {
			return ch.Proceed(ch.Request())
		}
		m := find(q.GetData())
		if m == nil {
			c.Fail("unknown", "an interceptor sees data no peer sent: %s", short(q.GetData()))
			return ch.Proceed(ch.Request())
		}
		for _, k := range keys {
			if v, ok := q.Get(k); ok {
				c.Fail("values", "the new request of message %d.%d has a value of %q: %v", m.who, m.seq, k, v)
			}
		}
		if o.codec == "raw" {
			q.GetMessage().SetMsgID(m.id)
			if v := q.GetResponse(); v != nil {
				c.Fail("response", "the new request of message %d.%d has the response %v", m.who, m.seq, v)
			}
		}
		if m.keyIn {
			q.Set("interceptor", val(m, "interceptor"))
		}
		if m.setIn {
			return ch.ProceedWithIMessage(ch.GetIMessage(), val(m, "in"))
		}
		return ch.Proceed(ch.Request())
	}))
	step := func(k int) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			m := find(q.GetData())
			if m == nil {
				c.Fail("unknown", "step %d sees data no peer sent: %s", k, short(q.GetData()))
				return
			}
			m.steps++
			set, resp := m.setAt >= 0 && k > m.setAt, m.respAt >= 0 && k > m.respAt
			look(q, m, fmt.Sprint("step ", k), set, resp, false)
			if m.setAt == k {
				q.Set("a", val(m, "a"))
				q.Set("b", val(m, "b"))
				set = true
			}
			if m.respAt == k {
				q.SetResponse(val(m, "response"))
				resp = true
			}
			if m.copyAt == k {
				cp := q.Copy()
				m.copies++
				pending++
				d := time.Duration(m.hold[2]) * 3 * time.Microsecond
				go func() {
					for i := 0; i < 3; i++ {
						look(cp, m, "a copy in step "+fmt.Sprint(k), set, resp, true)
						time.Sleep(d)
					}
					if m.mut {
						cp.Set("a", "changed in the copy")
						cp.Set("c", "changed in the copy")
						cp.SetResponse("changed in the copy")
						time.Sleep(d)
						if v, _ := cp.Get("a"); v != any("changed in the copy") {
							c.Fail("values", "a value set in a copy is %v", v)
						}
					}
					if m.hold[1] == 0 { // a copy has no steps
						func() {
							defer func() {
								if e := recover(); e != nil {
									c.Fail("copy-steps", "going on with the steps of a copy panics: %v", e)
								}
							}()
							if cp.Abort(); k%2 == 0 {
								cp.RouterSlicesNext()
							}
							cp.RouterSlicesNext()
							cp.Call()
						}()
					}
					m.copiesOK++
					pending--
				}()
			}
			if h := m.hold[k]; h > 0 {
				time.Sleep(time.Duration(h) * time.Microsecond)
			}
			look(q, m, fmt.Sprint("end of step ", k), set, resp, false)
			if _, ok := q.Get("c"); ok {
				c.Fail("values", "a value set in a copy is visible in the request")
			}
			if k == 2 || m.abortAt == k || m.panicAt == k {
				m.handled = true
			}
			if m.abortAt == k {
				q.Abort()
			}
			if m.panicAt == k {
				panic("step")
			}
		}
	}
	for id := uint32(1); id <= 3; id++ {
		if o.slices {
			w.s.AddRouterSlices(id, step(0), step(1), step(2))
		} else {
			w.s.AddRouter(id, &stepRouter{pre: step(0), h: step(1), post: step(2)})
		}
	}
	c.start(w.s, o)
	done := 0
	for i := 0; i < np; i++ {
		pr := r.fork()
		n := pr.rng(1, 10)
		for k := 0; k < n; k++ {
			m := &reqMsg{who: i, seq: k, id: uint32(pr.rng(1, 3)), setIn: pr.p(400), keyIn: pr.p(300), setAt: pr.n(4) - 1, respAt: pr.pick(-1, -1, 0, 1), copyAt: pr.pick(-1, 0, 1, 2), panicAt: pr.pick(-1, -1, -1, -1, -1, 0, 1, 2), abortAt: pr.pick(-1, -1, -1, -1, 0, 1), mut: pr.p(400)}
			m.data = tag(i, k, pr.pick(12, 20, 100, 600))
			for j := range m.hold {
				m.hold[j] = pr.pick(0, 0, 20, 200, 1500)
			}
			plans[i] = append(plans[i], m)
		}
	}
	var sent []*reqMsg
	for i := 0; i < np; i++ {
		var send []*reqMsg
		for _, m := range plans[i] {
			if c.Op() {
				send = append(send, m)
				sent = append(sent, m)
				total++
			}
		}
		gap := r.pick(0, 0, 50, 500)
		peers[i] = c.mustDial(o.mode, o.codec)
		p := peers[i]
		p.recv()
		go func() {
			for _, m := range send {
				p.send(m.id, m.data)
				if gap > 0 {
					time.Sleep(time.Duration(gap) * time.Microsecond)
				}
			}
			done++
		}()
	}
	if !c.until(60*sec, func() bool {
		if done < np || pending > 0 {
			return false
		}
		for _, m := range sent {
			if !m.handled {
				return false
			}
		}
		return true
	}) {
		k := 0
		for _, m := range sent {
			if m.handled {
				k++
			}
		}
		c.Fail("lost", "%d of %d messages are handled, %d copies are in use", k, total, pending)
		return
	}
	c.Count("messages", total)
	for _, m := range sent {
		c.Count("copies", m.copies)
	}
}

// ---------------------------------------------------------------- C18

type chainMsg struct {
	who, seq int
	id       uint32
	stopAt   int // interceptor that does not proceed (-1: none)
	abortAt  int // step that aborts (-1: none)
	nextAt   int // slices: step that calls RouterSlicesNext itself
	gotoAt   int // step that jumps
	gotoTo   int
	jumped   bool
	hold     int
	log      []string // what happened, in order
	want     []string
	sent     bool
}

// refused: a registration that must panic.
func refused(c *Ctx, what string, f func()) {
	defer func() {
		if recover() == nil {
			c.Fail("not-refused", "%s is accepted", what)
		}
	}()
	f()
}

func c18Chains(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = "tlv"
	if o.mode == "kcp" && r.p(700) {
		o.mode = "tcp"
	}
	if r.p(120) {
		o.pool, o.workerMode = 0, ""
	}
	weather(c, o.mode, nil)
	w := newWorld(c, o)
	ni := r.rng(0, 4)
	np := r.rng(1, min(4, o.maxConn))
	plans := make([][]*chainMsg, np)
	find := func(data []byte) *chainMsg {
		who, seq, ok := untag(data)
		if !ok || who >= np || seq >= len(plans[who]) {
			c.Fail("unknown", "data no peer sent: %s", short(data))
			return nil
		}
		return plans[who][seq]
	}
	for k := 0; k < ni; k++ {
		useMsg := r.p(300)
		w.s.AddInterceptor(interceptFunc(func(ch ziface.IChain) ziface.IcResp {
			q, ok := ch.Request().(ziface.IRequest)
			if !ok {
				return ch.Proceed(ch.Request())
			}
			m := find(q.GetData())
			if m == nil {
				return nil
			}
			m.log = append(m.log, fmt.Sprint("i", k))
			if m.hold == 1 {
				time.Sleep(30 * time.Microsecond)
			}
			if m.stopAt == k {
				return nil
			}
			if useMsg {
				return ch.ProceedWithIMessage(ch.GetIMessage(), q.GetData())
			}
			return ch.Proceed(ch.Request())
		}))
	}
	// step k of the handling of a message
	step := func(k int, name string) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			m := find(q.GetData())
			if m == nil {
				return
			}
			m.log = append(m.log, name)
			if m.hold == 2 {
				time.Sleep(time.Duration(50+10*k) * time.Microsecond)
			}
			if m.abortAt == k {
				q.Abort()
			}
			if m.gotoAt == k && !m.jumped && !o.slices {
				m.jumped = true
				q.Goto(ziface.HandleStep(m.gotoTo))
			}
			if m.nextAt == k && o.slices {
				q.RouterSlicesNext()
				m.log = append(m.log, name+"-after")
			}
		}
	}
	// routes: id -> names of its steps
	routes := table[uint32, []string]{}
	nroutes := uint32(r.rng(1, 4))
	if o.slices {
		nglobal, late := r.rng(0, 3), r.p(300)
		var global []string
		use := func(k int) {
			n := fmt.Sprint("g", k)
			w.s.Use(step(len(global), n))
			global = append(global, n)
		}
		for k := 0; k < nglobal; k++ {
			use(k)
		}
		// two groups, which may be given the same handlers to begin with, and an
		// array the handlers of each route are put together in; all of these stay
		// the caller's own
		type grp struct {
			ziface.IGroupRouterSlices
			base  uint32
			names []string
		}
		common := make([]ziface.RouterHandler, 0, 4)
		var cnames []string
		for k := r.pick(0, 0, 1, 2); k > 0; k-- {
			n := fmt.Sprint("common", len(common))
			cnames = append(cnames, n)
			common = append(common, step(len(global)+len(common), n))
		}
		buf := make([]ziface.RouterHandler, 0, r.pick(0, 8))
		grs := []*grp{{base: 100}, {base: 300}}
		for _, g := range grs {
			g.IGroupRouterSlices, g.names = w.s.Group(g.base, g.base+100, common...), append([]string(nil), cnames...)
		}
		ngroup := len(common)
		for k := r.pick(0, 0, 1, 2, 3); k > 0; k-- {
			g := grs[r.n(2)]
			n := fmt.Sprint("grp", g.base, len(g.names))
			g.Use(step(len(global)+len(g.names), n))
			g.names = append(g.names, n)
			ngroup++
		}
		for id := uint32(1); id <= nroutes; id++ {
			own := r.rng(1, 4)
			if r.p(40) {
				own = r.pick(120+r.n(16), 250+r.n(10))
			}
			group := r.p(400)
			if late && id == 2 && ngroup == 0 {
				use(9) // applies to the routes added from here on
			}
			names := append([]string(nil), global...)
			rid := id
			gr := grs[r.pick(0, 0, 1)]
			if group {
				names = append(names, gr.names...)
				rid = []uint32{0, 0, 1, 50, 100}[id] + gr.base
			}
			hs := buf
			for k := 0; k < own; k++ {
				n := fmt.Sprintf("h%d.%d", id, k)
				hs = append(hs, step(len(names), n))
				names = append(names, n)
			}
			if group {
				gr.AddHandler(rid, hs...)
			} else {
				w.s.AddRouterSlices(rid, hs...)
			}
			*routes.at(rid) = names
			bad := func(cn ziface.IRequest) {
				c.Fail("refused-route", "a handler whose registration must be refused is called for id %d", cn.GetMsgID())
			}
			switch r.n(6) {
			case 0:
				refused(c, fmt.Sprint("a second registration of id ", rid), func() { w.s.AddRouterSlices(rid, bad) })
			case 1:
				refused(c, fmt.Sprintf("id %d in the group %d to %d", gr.base-1, gr.base, gr.base+100), func() { gr.AddHandler(gr.base-1, bad) })
			case 2:
				refused(c, fmt.Sprintf("id %d in the group %d to %d", gr.base+101, gr.base, gr.base+100), func() { gr.AddHandler(gr.base+101, bad) })
			case 3:
				if group {
					refused(c, fmt.Sprint("a second registration in the group of id ", rid), func() { gr.AddHandler(rid, bad) })
				}
			}
		}
	} else {
		for id := uint32(1); id <= nroutes; id++ {
			names := []string{fmt.Sprintf("pre%d", id), fmt.Sprintf("handle%d", id), fmt.Sprintf("post%d", id)}
			w.s.AddRouter(id, &stepRouter{pre: step(0, names[0]), h: step(1, names[1]), post: step(2, names[2])})
			*routes.at(id) = names
			if r.p(200) {
				refused(c, fmt.Sprint("a second registration of id ", id), func() {
					w.s.AddRouter(id, &routerFunc{f: func(ziface.IRequest) {
						c.Fail("refused-route", "a router whose registration must be refused is called for id %d", id)
					}})
				})
			}
		}
	}
	c.Shape("%v interceptors=%d routes=%d", o, ni, nroutes)
	c.start(w.s, o)
	// plans and what must happen
	for i := 0; i < np; i++ {
		pr := r.fork()
		n := pr.rng(1, 10)
		for k := 0; k < n; k++ {
			m := &chainMsg{who: i, seq: k, id: routes.ks[pr.n(len(routes.ks))], stopAt: -1, abortAt: -1, nextAt: -1, gotoAt: -1, hold: pr.n(4)}
			names := *routes.at(m.id)
			if ni > 0 && pr.p(200) {
				m.stopAt = pr.n(ni)
			}
			if pr.p(250) {
				m.abortAt = pr.n(len(names))
			}
			if pr.p(250) {
				m.nextAt = pr.n(len(names))
			}
			if !o.slices && m.abortAt < 0 && pr.p(250) {
				m.gotoAt, m.gotoTo = pr.n(3), pr.n(4)
			}
			unknown := pr.p(60)
			if unknown {
				m.id = []uint32{77, 99, 201, 0, 0xffffffff}[pr.n(5)]
			}
			// expectation
			for j := 0; j < ni && (m.stopAt < 0 || j <= m.stopAt); j++ {
				m.want = append(m.want, fmt.Sprint("i", j))
			}
			if m.stopAt < 0 && !unknown {
				if o.slices {
					var run func(from int)
					cur := 0
					run = func(int) {
						for cur < len(names) {
							k := cur
							cur++
							m.want = append(m.want, names[k])
							if m.abortAt == k {
								cur = len(names)
							}
							if m.nextAt == k {
								run(0)
								m.want = append(m.want, names[k]+"-after")
							}
						}
					}
					run(0)
				} else {
					jumped := false
					for s := 0; s < 3; {
						m.want = append(m.want, names[s])
						switch {
						case m.abortAt == s:
							s = 3
						case m.gotoAt == s && !jumped:
							jumped = true
							s = m.gotoTo
						default:
							s++
						}
					}
				}
			}
			plans[i] = append(plans[i], m)
		}
	}
	done := 0
	var sent []*chainMsg
	for i := 0; i < np; i++ {
		for _, m := range plans[i] {
			if c.Op() {
				m.sent = true
				sent = append(sent, m)
			}
		}
		gap := r.pick(0, 0, 50, 500)
		sz := r.pick(12, 40, 700)
		p := c.mustDial(o.mode, o.codec)
		p.recv()
		go func() {
			for _, m := range plans[i] {
				if m.sent {
					p.send(m.id, tag(m.who, m.seq, sz))
					if gap > 0 {
						time.Sleep(time.Duration(gap) * time.Microsecond)
					}
				}
			}
			done++
		}()
	}
	right := func() bool {
		for _, m := range sent {
			if len(m.log) < len(m.want) {
				return false
			}
		}
		return done == np
	}
	c.until(30*sec, right)
	time.Sleep(50*ms + 2*c.Stall)
	for _, m := range sent {
		if fmt.Sprint(m.log) != fmt.Sprint(m.want) {
			sig := "order"
			if len(m.log) < len(m.want) {
				sig = "missing"
			} else if len(m.log) > len(m.want) {
				sig = "extra"
			}
			c.Fail(sig, "message %d.%d (id %d, stop %d, abort %d, next %d, goto %d->%d) passed %v, must pass %v", m.who, m.seq, m.id, m.stopAt, m.abortAt, m.nextAt, m.gotoAt, m.gotoTo, m.log, m.want)
		}
	}
	c.Count("messages", len(sent))
}
