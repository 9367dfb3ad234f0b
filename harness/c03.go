package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
)

// C03: the peer's byte stream is whole frames, each a message sent, in order per
// sender and operation, none twice; accepted messages arrive while the
// connection is open.
// C22: a peer that does not read holds up neither buffered senders nor others.

func init() {
	props["C03"] = []scenario{
		{name: "senders", weight: 5, stall: 30 * ms, late: 5 * ms, run: c03Senders},
		{name: "client-senders", weight: 1, stall: 30 * ms, late: 5 * ms, run: c03Client},
		{name: "pack", weight: 1, stall: 30 * ms, late: 5 * ms, run: c03Pack},
	}
	props["C22"] = []scenario{
		{name: "stalled-peer", weight: 1, stall: 10 * ms, late: 2 * ms, run: c22Stall},
	}
}

const (
	opSendMsg = iota
	opBuffMsg
	opSend
	opQueue
	nSendOps
)

var opName = []string{"SendMsg", "SendBuffMsg", "Send", "SendToQueue"}

func doSend(cn ziface.IConnection, codec string, op int, id uint32, data []byte) error {
	switch op {
	case opSendMsg:
		return cn.SendMsg(id, data)
	case opBuffMsg:
		return cn.SendBuffMsg(id, data)
	case opSend:
		return cn.Send(encode(codec, id, data))
	default:
		return cn.SendToQueue(encode(codec, id, data))
	}
}

// sent is one send call.
type sentMsg struct {
	seq  int
	op   int
	id   uint32
	done bool
	err  error
}

// outbox records the sends of all senders of one connection.
type outbox struct {
	by    table[int, []*sentMsg] // sender -> calls, in order
	calls int
}

// sends draws and runs one sender's calls.
func (b *outbox) sender(c *Ctx, r *rng, who int, cn func() ziface.IConnection, codec string, maxSize, maxN int, fin func()) {
	type plan struct {
		op, size int
		id       uint32
		gap      time.Duration
	}
	var ps []plan
	only := -1
	if r.p(500) {
		only = r.n(nSendOps)
	}
	gapk := r.pick(0, 50, 2000, 12000)
	for k, n := 0, r.rng(1, maxN); k < n; k++ {
		p := plan{r.n(nSendOps), r.size(maxSize), uint32(r.rng(1, 1000)), 0}
		if only >= 0 {
			p.op = only
		}
		if gapk > 0 && r.p(400) {
			p.gap = time.Duration(r.n(gapk)) * time.Microsecond
		}
		if c.Op() {
			ps = append(ps, p)
		}
	}
	go func() {
		defer fin()
		for k, p := range ps {
			m := &sentMsg{seq: k, op: p.op, id: p.id}
			*b.by.at(who) = append(*b.by.at(who), m)
			b.calls++
			d := tag(who, k, p.size)
			m.err = doSend(cn(), codec, p.op, p.id, d)
			m.done = true
			c.Logf("sender %d: %s #%d (%d bytes): %v", who, opName[p.op], k, len(d), m.err)
			if p.gap > 0 {
				time.Sleep(p.gap)
			}
		}
	}()
}

// check compares what the peer received with the calls.  complete: everything
// that was accepted must be there.
func (b *outbox) check(c *Ctx, what string, p *peer, complete bool) {
	if p.bad != "" {
		c.Fail("torn", "%s: the peer's stream is not a sequence of frames %s", what, p.bad)
		return
	}
	seen := map[[2]int]bool{}
	last := map[[2]int]int{}
	for i, f := range p.frames {
		who, seq, ok := untag(f.data)
		var m *sentMsg
		if ok {
			for _, x := range *b.by.at(who) {
				if x.seq == seq {
					m = x
				}
			}
		}
		if m == nil || m.id != f.id {
			c.Fail("corrupt", "%s: frame %d at the peer (id %d, %s) was never sent", what, i, f.id, short(f.data))
			return
		}
		if seen[[2]int{who, seq}] {
			c.Fail("duplicate", "%s: message %d of sender %d (%s) arrived twice", what, seq, who, opName[m.op])
			return
		}
		seen[[2]int{who, seq}] = true
		k := [2]int{who, m.op}
		if l, ok := last[k]; ok && seq < l {
			c.Fail("order", "%s: %s #%d of sender %d arrived after #%d", what, opName[m.op], seq, who, l)
			return
		}
		last[k] = seq
	}
	if complete && len(p.rx) > 0 {
		c.Fail("torn", "%s: %d bytes of an unfinished frame at the end", what, len(p.rx))
		return
	}
	if complete {
		for i, who := range b.by.ks {
			ms := *b.by.vs[i]
			for _, m := range ms {
				if m.done && m.err == nil && !seen[[2]int{who, m.seq}] {
					c.Fail("lost", "%s: %s #%d of sender %d reported success and never arrived, the connection is open", what, opName[m.op], m.seq, who)
					return
				}
			}
		}
	}
}

// missing says whether accepted messages have not arrived yet.
func (b *outbox) missing(p *peer) bool {
	n := 0
	for _, ms := range b.by.vs {
		for _, m := range *ms {
			if m.done && m.err == nil {
				n++
			}
		}
	}
	return len(p.frames) < n
}

// flaky makes the peer's side slow: pauses of reading.
// talk makes a KCP peer send something now and then. kcp-go forgets to
// repeat the opening of a window that had been full: when that datagram is lost
// and everything sent is acknowledged one by one, both sides wait for ever,
// unless the reader has something to say.
func talk(p *peer, stop *bool) {
	if p.mode == "kcp" {
		go func() {
			for !*stop {
				time.Sleep(2 * sec)
				p.send(99, []byte("talk"))
			}
		}()
	}
}

func flaky(c *Ctx, p *peer, r *rng, stop *bool) {
	talk(p, stop)
	go func() {
		for !*stop {
			time.Sleep(time.Duration(r.n(20000)) * time.Microsecond)
			p.pause = true
			time.Sleep(time.Duration(r.n(30000)) * time.Microsecond)
			p.pause = false
		}
	}()
}

func c03Senders(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = r.picks("tlv", "tlv", "ltv")
	weather(c, o.mode, nil)
	s := newServer(o)
	var conns table[string, ziface.IConnection]
	s.SetOnConnStart(func(cn ziface.IConnection) { *conns.at(cn.RemoteAddrString()) = cn })
	echo := &outbox{}
	route(s, o, 1, func(q ziface.IRequest) {})
	c.start(s, o)
	np := r.rng(1, 2)
	closing := r.picks("", "", "", "peer", "stop")
	if o.mode == "kcp" && closing == "peer" {
		closing = "stop"
	}
	ns := r.rng(1, 5)
	maxSize := r.pick(40, 400, 3000, 20000)
	maxN := 30
	if maxSize > 5000 {
		maxN = 12
	}
	if o.mode == "kcp" {
		maxSize = min(maxSize, 3000)
		maxN = 15
	}
	slowPeer := c.Fault("slow-peer", 300)
	c.Shape("%v senders=%d size=%d closing=%s", o, ns, maxSize, closing)
	_ = echo
	type one struct {
		p      *peer
		b      *outbox
		done   int
		closed bool
	}
	var all []*one
	stop := false
	for i := 0; i < np; i++ {
		x := &one{b: &outbox{}}
		all = append(all, x)
		x.p = c.mustDial(o.mode, o.codec)
		x.p.maxLen = 30000
		if o.mode == "kcp" {
			x.p.send(1, []byte("hi")) // the server learns of a KCP peer by its first datagram
		}
		x.p.recv()
		fr := r.fork()
		if slowPeer {
			flaky(c, x.p, fr, &stop)
		}
		if !c.until(60*sec, func() bool { return *conns.at(x.p.addr()) != nil }) {
			c.Fail("no-start", "connection %d was not started", i)
			return
		}
		cn := *conns.at(x.p.addr())
		for g := 0; g < ns; g++ {
			x.b.sender(c, r.fork(), i*100+g, func() ziface.IConnection { return cn }, o.codec, maxSize, maxN, func() { x.done++ })
		}
		at := time.Duration(r.n(40000)) * time.Microsecond
		if closing != "" && i == 0 {
			go func() {
				time.Sleep(at)
				x.closed = true
				c.Logf("close (%s)", closing)
				if closing == "peer" {
					x.p.close()
				} else {
					cn.Stop()
				}
			}()
		}
	}
	bound := 900 * sec // a small socket buffer and a slow network: some hundred bytes a second
	if o.mode == "kcp" {
		bound = 1500 * sec
	}
	c.until(bound, func() bool {
		for _, x := range all {
			if x.done < ns || !x.closed && x.b.missing(x.p) {
				return false
			}
		}
		return true
	})
	time.Sleep(100 * ms)
	stop = true
	for i, x := range all {
		what := fmt.Sprintf("connection %d", i)
		if x.done < ns && !x.closed {
			c.Fail("blocked", "%s: %d of %d senders are blocked though the peer reads", what, ns-x.done, ns)
		}
		if x.p.eof && !x.closed {
			c.Fail("closed", "%s was closed by the server: %v", what, x.p.eofErr)
		}
		x.b.check(c, what, x.p, !x.closed)
		c.Count("frames_received", len(x.p.frames))
		c.Count("send_calls", x.b.calls)
		for _, ms := range x.b.by.vs {
			for _, m := range *ms {
				if m.done && m.err != nil {
					c.Count("sends_refused", 1)
				}
			}
		}
	}
}

// c03Client: the same for the connection of a zinx client; the peer is a bare
// listener.
func c03Client(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec = "tcp", "tlv"
	weather(c, "tcp", nil)
	setConf(o)
	l, err := net.Listen("tcp", "127.0.0.1:7000")
	if err != nil {
		c.Fail("infra", "%v", err)
		return
	}
	ns, maxSize := r.rng(1, 4), r.pick(40, 400, 20000)
	c.Shape("client %v senders=%d size=%d", o, ns, maxSize)
	var p *peer
	go func() {
		t, err := l.Accept()
		if err != nil {
			return
		}
		q := &peer{c: c, mode: "tcp", codec: "tlv", tc: t, maxLen: 30000}
		q.recv()
		p = q
	}()
	cl := znet.NewClient("127.0.0.1", 7000)
	cl.SetPacket(zpack.Factory().NewPack(ziface.ZinxDataPack))
	var cn ziface.IConnection
	cl.SetOnConnStart(func(x ziface.IConnection) { cn = x })
	cl.Start()
	if !c.until(30*sec, func() bool { return cn != nil && p != nil }) {
		c.Fail("no-start", "the client's connection was not started")
		return
	}
	b := &outbox{}
	done := 0
	for g := 0; g < ns; g++ {
		b.sender(c, r.fork(), g, func() ziface.IConnection { return cn }, "tlv", maxSize, 12, func() { done++ })
	}
	c.until(900*sec, func() bool { return done == ns && !b.missing(p) })
	time.Sleep(100 * ms)
	if done < ns {
		c.Fail("blocked", "%d of %d senders are blocked though the peer reads", ns-done, ns)
	}
	b.check(c, "client connection", p, true)
	c.Count("frames_received", len(p.frames))
	c.Count("send_calls", b.calls)
}

func c22Stall(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.chanLen = r.pick(1, 2, 8, 64)
	if o.workerMode != "Bind" && o.workerMode != "DynamicBind" {
		o.pool = r.pick(1, 4, 8)
	}
	weather(c, o.mode, func(n *net.SimNetConfig) {
		n.Cap = r.pick(256, 2048, 8192)
		n.Loss = min(n.Loss, 100)
	})
	s := newServer(o)
	var conns table[string, ziface.IConnection]
	s.SetOnConnStart(func(cn ziface.IConnection) { *conns.at(cn.RemoteAddrString()) = cn })
	stops := 0
	s.SetOnConnStop(func(cn ziface.IConnection) { stops++ })
	var stalledC ziface.IConnection
	ob := &outbox{}
	bound := 400 * ms
	slowest := time.Duration(0)
	buffered := func(cn ziface.IConnection, who, seq, op, size int) error {
		m := &sentMsg{seq: seq, op: op, id: 7}
		*ob.by.at(who) = append(*ob.by.at(who), m)
		ob.calls++
		t := c.Now()
		m.err = doSend(cn, o.codec, op, 7, tag(who, seq, size))
		m.done = true
		d := c.Now() - t
		if d > slowest {
			slowest = d
		}
		if d > bound {
			c.Fail("slow-send", "%s to a peer that does not read returned after %v (%v)", opName[op], d, m.err)
		}
		return m.err
	}
	route(s, o, 1, func(q ziface.IRequest) { // ping from a healthy peer: also sends to the stalled one
		if stalledC != nil {
			w, k, _ := untag(q.GetData())
			buffered(stalledC, w, k, opBuffMsg, 200)
		}
		for k := 0; k < 50 && q.GetConnection().SendBuffMsg(2, q.GetData()) != nil; k++ {
			// the queue may be full for longer than the send waits
		}
	})
	route(s, o, 3, func(q ziface.IRequest) {})
	c.start(s, o)
	sp := c.mustDial(o.mode, o.codec)
	sp.pause = true
	sp.send(3, []byte("hi"))
	sp.recv()
	nh := r.rng(1, 3)
	type hp struct {
		p          *peer
		sent, got  int
		pings      int
		worst      time.Duration
		done, gone bool
		churn      bool
	}
	if !c.until(30*sec, func() bool { return *conns.at(sp.addr()) != nil }) {
		c.Fail("no-start", "a connection was not started")
		return
	}
	stalledC = *conns.at(sp.addr())
	c.Shape("%v healthy=%d", o, nh)
	// fillers push against the stalled peer
	fill := r.rng(1, 4)
	direct := r.p(500)
	stopFill := false
	filling := 0
	for g := 0; g < fill; g++ {
		gr := r.fork()
		n, size := gr.rng(20, 60), gr.pick(100, 1000, 6000)
		if o.mode == "kcp" {
			size = min(size, 1000)
		}
		op := gr.pick(opBuffMsg, opBuffMsg, opQueue)
		filling++
		keep := make([]bool, n)
		for k := range keep {
			keep[k] = c.Op()
		}
		go func() {
			for k := 0; k < n && !stopFill; k++ {
				if keep[k] {
					buffered(stalledC, g, k, op, size)
				}
				if gr.p(200) {
					time.Sleep(time.Duration(gr.n(5000)) * time.Microsecond)
				}
			}
			filling--
		}()
	}
	directDone := true
	if direct {
		directDone = false
		go func() { // this one may block
			for k := 0; k < 30; k++ {
				m := &sentMsg{seq: k, op: opSendMsg, id: 7}
				*ob.by.at(900) = append(*ob.by.at(900), m)
				m.err = stalledC.SendMsg(7, tag(900, k, 2000))
				m.done = true
				if m.err != nil {
					break
				}
			}
			directDone = true
		}()
	}
	var hs []*hp
	for i := 0; i < nh; i++ {
		h := &hp{churn: r.p(300)}
		hr := r.fork()
		n := hr.rng(3, 10)
		hs = append(hs, h)
		go func() {
			defer func() { h.done = true }()
			h.p = c.mustDial(o.mode, o.codec)
			h.p.recv()
			for k := 0; k < n; k++ {
				t := c.Now()
				before := len(h.p.frames)
				if err := h.p.send(1, tag(1000+i, k, 50)); err != nil {
					c.Fail("others", "healthy peer %d: connection closed: %v", i, err)
					return
				}
				lim := 5 * sec
				if o.mode == "kcp" {
					lim = 60 * sec
				}
				if !c.until(lim, func() bool { return len(h.p.frames) > before }) {
					c.Fail("others", "healthy peer %d got no answer in %v while another peer does not read", i, lim)
					return
				}
				h.worst = max(h.worst, c.Now()-t)
				h.pings++
				time.Sleep(time.Duration(hr.n(20)) * ms)
			}
			if h.churn {
				h.p.close()
				if cn := *conns.at(h.p.addr()); o.mode == "kcp" && cn != nil {
					cn.Stop()
				}
				h.gone = true
			}
		}()
	}
	lim := 120 * sec
	if o.mode == "kcp" {
		lim = 700 * sec
	}
	c.until(lim, func() bool {
		for _, h := range hs {
			if !h.done {
				return false
			}
		}
		return filling == 0
	})
	stopFill = true
	if filling > 0 {
		c.Fail("slow-send", "%d buffered senders are blocked for good by a peer that does not read", filling)
	}
	gone := 0
	for _, h := range hs {
		c.Count("pings", h.pings)
		if !h.done && !c.Failed() {
			c.Fail("others", "a healthy peer could not be served while another peer does not read")
		}
		if h.gone {
			gone++
		}
	}
	if !c.until(20*sec, func() bool { return stops >= gone }) {
		c.Fail("others", "%d healthy connections ended, only %d were torn down while another peer does not read", gone, stops)
	}
	if c.Failed() {
		return
	}
	// resume
	sp.maxLen = 30000
	sp.pause = false
	over := false
	talk(sp, &over)
	c.until(3000*sec, func() bool { return !ob.missing(sp) && directDone }) // KCP probes a closed window every 7 to 120 s, and probes get lost
	over = true
	time.Sleep(100 * ms)
	if sp.eof {
		c.Fail("closed", "the stalled peer's connection was closed by the server: %v", sp.eofErr)
		return
	}
	ob.check(c, "stalled peer after it resumed", sp, true)
	c.Count("buffered_sends", ob.calls)
	c.Count("frames_received", len(sp.frames))
}

// c03Pack: peers that read in the documented way, with the data pack of zinx:
// the head, what it announces, then the payload.
func c03Pack(c *Ctx) {
	r := c.R
	o := defaultOpt()
	o.codec = r.picks("tlv", "ltv")
	o.tls = r.p(100)
	o.workerMode = r.picks("", "Bind", "DynamicBind")
	limit := r.pick(0, 1, 64, 4096, 4096)
	weather(c, "tcp", nil)
	w := newWorld(c, o)
	zconf.GlobalObject.MaxPacketSize = uint32(limit)
	c.Shape("%v limit=%d", o, limit)
	kind := ziface.ZinxDataPack
	if o.codec == "ltv" {
		kind = ziface.ZinxDataPackOld
	}
	dp := zpack.Factory().NewPack(kind) // one for all, as in an application
	if k := dp.GetHeadLen(); k != 8 {
		c.Fail("head-length", "the head of the %s pack has %d bytes", o.codec, k)
	}
	type plan struct{ sizes, ids []int }
	var plans []plan
	for i := 0; i < 4; i++ {
		var p plan
		for k := r.rng(1, 10); k > 0; k-- {
			z := r.pick(0, 1, 12, 63, 64, 65, limit-1, limit, limit+1, r.n(300))
			p.sizes = append(p.sizes, max(z, 0))
			p.ids = append(p.ids, r.pick(0, 1, 255, 256, 70000, 1<<31, 1<<32-1))
		}
		plans = append(plans, p)
	}
	np := r.rng(1, 3)
	w.onStart = func(x *wconn) {
		p := plans[x.n%len(plans)]
		go func() {
			for k := range p.ids {
				d := make([]byte, p.sizes[k])
				for i := range d {
					d[i] = byte(x.n*31 + k*7 + i)
				}
				if err := x.cn.SendMsg(uint32(p.ids[k]), d); err != nil {
					c.Fail("send", "a send to a reading peer fails: %v", err)
					return
				}
			}
		}()
	}
	c.start(w.s, o)
	done, n := 0, 0
	for i := 0; i < np; i++ {
		if !c.Op() {
			continue
		}
		n++
		go func() {
			defer func() { done++ }()
			p := c.mustDial("tcp", o.codec)
			var rd io.Reader = p.tc
			if p.tl != nil {
				rd = p.tl
				if err := p.tl.Handshake(); err != nil {
					return
				}
			}
			c.until(20*sec, func() bool { return w.by(p) != nil })
			x := w.by(p)
			if x == nil {
				c.Fail("start", "a connection does not start within 20 s")
				return
			}
			pl := plans[x.n%len(plans)]
			for k := range pl.ids {
				head := make([]byte, dp.GetHeadLen())
				if _, err := io.ReadFull(rd, head); err != nil {
					c.Fail("read", "frame %d of an open connection cannot be read: %v", k, err)
					return
				}
				want := encode(o.codec, uint32(pl.ids[k]), make([]byte, pl.sizes[k]))[:8]
				if !bytes.Equal(head, want) {
					c.Fail("head", "frame %d has the head % x instead of % x", k, head, want)
					return
				}
				cut := head[:k%8]
				if m, err := dp.Unpack(cut); err == nil {
					c.Fail("unpack", "the pack takes a head of %d bytes for whole: %v", len(cut), m)
				}
				m, err := dp.Unpack(head)
				big := limit > 0 && pl.sizes[k] > limit
				if big != (err != nil) {
					c.Fail("unpack", "a head that announces %d bytes with a maximum of %d: error %v", pl.sizes[k], limit, err)
					return
				}
				if err == nil && (m.GetMsgID() != uint32(pl.ids[k]) || int(m.GetDataLen()) != pl.sizes[k]) {
					c.Fail("unpack", "the head of message %d, %d bytes, is read as message %d, %d bytes", uint32(pl.ids[k]), pl.sizes[k], m.GetMsgID(), m.GetDataLen())
					return
				}
				d := make([]byte, pl.sizes[k])
				if _, err := io.ReadFull(rd, d); err != nil {
					c.Fail("read", "the payload of frame %d cannot be read: %v", k, err)
					return
				}
				for i := range d {
					if d[i] != byte(x.n*31+k*7+i) {
						c.Fail("payload", "byte %d of frame %d is %d", i, k, d[i])
						return
					}
				}
				if k > 0 {
					again, err := dp.Pack(zpack.NewMsgPackage(uint32(pl.ids[k]), d))
					if err != nil || !bytes.Equal(again, append(head, d...)) {
						c.Fail("pack", "packing message %d, %d bytes, once more gives %s (%v)", uint32(pl.ids[k]), len(d), short(again), err)
					}
				}
			}
			p.close()
		}()
	}
	if !c.until(60*sec, func() bool { return done == n }) {
		c.Fail("missing", "%d of %d peers have read all their messages after 60 s", done, n)
	}
	c.Count("peers", n)
}
