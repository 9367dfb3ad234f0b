package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"time"

	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
)

// C01: every complete frame a peer sends reaches the handler registered for its
// message id exactly once, payload intact; nothing else does.

func init() {
	props["C01"] = []scenario{
		{name: "framing", weight: 6, stall: 50 * ms, late: 5 * ms, run: c01Framing},
		{name: "custom-length-field", weight: 3, stall: 50 * ms, late: 5 * ms, run: c01Custom},
		{name: "large-frames", weight: 1, stall: 50 * ms, late: 5 * ms, run: c01Large},
		{name: "client", weight: 2, stall: 50 * ms, late: 5 * ms, run: c01Client},
		{name: "raw", weight: 1, stall: 50 * ms, late: 5 * ms, run: c01Raw},
	}
}

func drawTransport(r *rng) string {
	switch k := r.n(100); {
	case k < 56:
		return "tcp"
	case k < 80:
		return "websocket"
	default:
		return "kcp"
	}
}

func drawServer(r *rng) srvOpt {
	o := defaultOpt()
	o.mode = drawTransport(r)
	o.workerMode = r.picks("", "Hash", "Bind", "DynamicBind", "DynamicBind")
	o.pool = r.pick(1, 2, 3, 8)
	o.maxConn = r.pick(8, 16, 32)
	o.taskLen = r.pick(1, 2, 8, 64, 1024)
	o.chanLen = r.pick(1, 4, 64, 1024)
	o.readBuf = r.pick(1, 7, 16, 64, 512, 1024, 4096)
	if o.mode == "kcp" && o.readBuf < 64 {
		o.readBuf = 64
	}
	o.slices = r.p(400)
	o.reqPool = r.p(400)
	o.tls = r.p(180)
	return o
}

func b2i(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

type sentFrame struct {
	id   uint32
	data []byte // what the handler must see
	reg  bool
}

// stream is one peer's outgoing byte stream, cut into application writes.
type stream struct {
	frames []sentFrame
	wire   []byte
	cuts   []int // write boundaries
	bad    bool  // holds a frame that is not well-formed
}

func (s *stream) add(id uint32, want []byte, reg bool, wire []byte) {
	s.frames = append(s.frames, sentFrame{id, want, reg})
	s.wire = append(s.wire, wire...)
	s.cuts = append(s.cuts, len(s.wire))
}

// recut replaces the frame-aligned write boundaries by others.
func (s *stream) recut(r *rng, style int) {
	switch style {
	case 0: // one write per frame
	case 1: // everything at once
		s.cuts = []int{len(s.wire)}
	case 2: // arbitrary cuts
		var cuts []int
		for at := 0; at < len(s.wire); {
			at += 1 + r.n(40)
			if r.p(100) {
				at += r.n(4000)
			}
			if at > len(s.wire) {
				at = len(s.wire)
			}
			cuts = append(cuts, at)
		}
		s.cuts = cuts
	case 3: // frames split just before their ends and inside their headers
		var cuts []int
		prev := 0
		for _, e := range s.cuts {
			if h := prev + 1 + r.n(8); h < e {
				cuts = append(cuts, h)
			}
			if k := e - 1 - r.n(3); k > prev && (len(cuts) == 0 || k > cuts[len(cuts)-1]) {
				cuts = append(cuts, k)
			}
			prev = e
		}
		if len(cuts) == 0 || cuts[len(cuts)-1] < len(s.wire) {
			cuts = append(cuts, len(s.wire))
		}
		s.cuts = cuts
	}
}

func (s *stream) play(p *peer, r *rng, gap time.Duration) error {
	prev := 0
	for _, e := range s.cuts {
		if e <= prev {
			continue
		}
		if err := p.write(s.wire[prev:e]); err != nil {
			return err
		}
		prev = e
		if gap > 0 && r.p(300) {
			time.Sleep(time.Duration(r.n(int(gap))))
		}
	}
	return nil
}

type gotMsg struct {
	id   uint32
	data []byte
}

// inbox collects what handlers saw, per connection.
type inbox struct {
	c   *Ctx
	got table[string, []gotMsg]
	n   int
}

func (b *inbox) handle(q ziface.IRequest) {
	a := q.GetConnection().RemoteAddrString()
	m := gotMsg{q.GetMsgID(), append([]byte(nil), q.GetData()...)}
	if n := q.GetMessage().GetDataLen(); int(n) != len(m.data) || q.GetMessage().GetMsgID() != m.id {
		b.c.Fail("data-len", "the message with the payload %s says it has %d bytes and id %d", short(m.data), n, q.GetMessage().GetMsgID())
	}
	g := b.got.at(a)
	*g = append(*g, m)
	b.n++
	b.c.Logf("handler: %s id=%d %s", a, m.id, short(m.data))
}

func key(id uint32, d []byte) string { return fmt.Sprintf("%d:%s", id, d) }

// compare checks one peer's deliveries against what it sent.  complete: all of
// it must have arrived (else any subset may).
func (b *inbox) compare(c *Ctx, who string, addr string, sent []sentFrame, complete bool) {
	want := map[string]int{}
	n := 0
	for _, f := range sent {
		if f.reg {
			want[key(f.id, f.data)]++
			n++
		}
	}
	for i, m := range *b.got.at(addr) {
		k := key(m.id, m.data)
		if want[k] == 0 {
			dup := false
			for _, f := range sent {
				if f.reg && f.id == m.id && bytes.Equal(f.data, m.data) {
					dup = true
				}
			}
			if dup {
				c.Fail("duplicate", "%s: message %d (id %d, %s) delivered more often than sent", who, i, m.id, short(m.data))
			} else {
				c.Fail("corrupt", "%s: handler got a message nobody sent: id %d, %s", who, m.id, short(m.data))
			}
			return
		}
		want[k]--
		n--
	}
	if complete && n > 0 {
		for _, f := range sent {
			if f.reg && want[key(f.id, f.data)] > 0 {
				c.Fail("lost", "%s: %d of %d messages never reached a handler, e.g. id %d, %s", who, n, len(sent), f.id, short(f.data))
				return
			}
		}
	}
}

type c01peer struct {
	p    *peer
	s    stream
	rude bool // closes with unread data possible: only integrity is checked
	err  error
}

func c01Run(c *Ctx, o srvOpt, in *inbox, mk func(r *rng, i int) (stream, bool)) {
	r := c.R
	n := r.rng(1, 4)
	var ps []*c01peer
	total := 0
	for i := 0; i < n; i++ {
		st, _ := mk(r, i)
		st.recut(r, r.n(4))
		for _, f := range st.frames {
			if f.reg && !st.bad {
				total++
			}
		}
		ps = append(ps, &c01peer{s: st})
	}
	gap := time.Duration(r.pick(0, 0, 200, 5000)) * time.Microsecond
	closers := r.p(300)
	done := 0
	for i, q := range ps {
		pr := r.fork()
		q.rude = closers && i%2 == 1
		go func() {
			q.p = c.mustDial(o.mode, o.codec)
			q.p.recv()
			q.err = q.s.play(q.p, pr, gap)
			if q.rude && q.err == nil && o.mode != "kcp" {
				q.p.close()
			}
			done++
		}()
	}
	arrived := func() bool { return done == len(ps) && in.n >= total }
	bound := 60 * sec
	if o.mode == "kcp" {
		bound = 240 * sec
	}
	c.until(bound, arrived)
	time.Sleep(300 * ms)
	for i, q := range ps {
		if q.p == nil {
			c.Fail("dial", "peer %d could not connect in %v", i, bound)
			continue
		}
		complete := q.err == nil && !q.s.bad && !(q.rude && c.faults["rst-on-close"])
		if q.err != nil && !q.rude && !q.s.bad {
			c.Fail("closed", "peer %d: the server closed a connection that sent only well-formed frames: %v", i, q.err)
		}
		in.compare(c, fmt.Sprintf("peer %d", i), q.p.addr(), q.s.frames, complete)
	}
	c.Count("frames_sent", total)
	c.Count("messages_delivered", in.n)
}

func c01Framing(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = r.picks("tlv", "tlv", "ltv", "htlv")
	if r.p(150) {
		o.pool = 0
		o.workerMode = ""
	}
	weather(c, o.mode, nil)
	c.Shape("%v", o)
	s := newServer(o)
	in := &inbox{c: c}
	for _, id := range []uint32{1, 2, 7, 0xF3} {
		route(s, o, id, in.handle)
	}
	c.start(s, o)
	maxBody := 3000
	if o.codec == "htlv" {
		maxBody = 255
	}
	if o.readBuf < 16 {
		maxBody = min(maxBody, 200)
	}
	c01Run(c, o, in, func(r *rng, i int) (stream, bool) {
		var st stream
		n := r.rng(1, 20)
		badAt := -1
		if o.codec == "htlv" && o.mode != "kcp" && r.p(250) { // ends the connection; a closed KCP session is begun anew by what its peer repeats
			badAt = r.n(n)
		}
		for k := 0; k < n; k++ {
			id := uint32(r.pick(1, 2, 7, 0xF3, 0xF3, 99))
			var body []byte
			if sz := r.size(maxBody); sz >= 12 && o.codec != "htlv" {
				body = tag(i, k, sz)
			} else {
				body = r.bytes(sz)
				if sz >= 3 {
					body[0], body[1], body[2] = byte(i), byte(k), byte(k>>8)
				}
			}
			if !c.Op() {
				continue
			}
			w := encode(o.codec, id, body)
			want := body
			if o.codec == "htlv" {
				want = w
			}
			if k == badAt { // the checksum does not match: never handled
				at := r.pick(0, 1, 3, len(w)-2, len(w)-2, len(w)-1, len(w)-1)
				w[at] ^= byte(1 << r.n(8))
				if at == 1 && r.p(500) {
					w[1] = byte(id) ^ 1 ^ 2 // 1 and 2 are both registered
				}
				st.bad = true
				st.wire = append(st.wire, w...)
				st.cuts = append(st.cuts, len(st.wire))
				continue
			}
			st.add(id, want, id != 99, w)
		}
		return st, true
	})
}

// c01Client: the same for what a server sends to a zinx client.
func c01Client(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.slices = r.picks("tcp", "tcp", "websocket"), false // a client has routers only
	o.codec = r.picks("tlv", "tlv", "ltv", "htlv")
	if r.p(150) {
		o.pool, o.workerMode = 0, ""
	}
	weather(c, o.mode, nil)
	setConf(o)
	c.Shape("client %v", o)
	in := &inbox{c: c}
	n := r.rng(1, 3) // connections, one after another
	var sts []stream
	for i := 0; i < n; i++ {
		var st stream
		for k, m := 0, r.rng(1, 20); k < m; k++ {
			id := uint32(r.pick(1, 2, 7, 0xF3, 99))
			body := tag(i, k, r.size(b2i(o.readBuf < 16, 200, b2i(o.codec == "htlv", 255, 3000))))
			if !c.Op() {
				continue
			}
			w := encode(o.codec, id, body)
			if o.codec == "htlv" {
				body = w
			}
			st.add(id, body, id != 99, w)
		}
		st.recut(r, r.n(4))
		sts = append(sts, st)
	}
	gap := time.Duration(r.pick(0, 0, 200, 5000)) * time.Microsecond
	b := &bareServer{c: c}
	cl := b.newClient(o)
	switch o.codec {
	case "ltv":
		cl.SetDecoder(zdecoder.NewLTV_Little_Decoder())
	case "htlv":
		cl.SetDecoder(zdecoder.NewHTLVCRCDecoder())
	}
	for _, id := range []uint32{1, 2, 7, 0xF3} {
		cl.AddRouter(id, &routerFunc{f: func(q ziface.IRequest) {
			g := in.got.at(q.GetConnection().LocalAddrString())
			*g = append(*g, gotMsg{q.GetMsgID(), append([]byte(nil), q.GetData()...)})
			in.n++
		}})
	}
	played := make([]error, n)
	done := 0
	b.onNew = func(p *peer) {
		k := len(b.peers) - 1
		if k >= n {
			return
		}
		pr := r.fork()
		go func() {
			played[k] = sts[k].play(p, pr, gap)
			done++
		}()
	}
	b.up()
	cl.Start()
	for k := 0; k < n; k++ {
		if !c.until(30*sec, func() bool {
			return len(b.peers) > k && cl.Conn() != nil && cl.Conn().LocalAddrString() == b.peers[k].remote()
		}) {
			c.Fail("dial", "the client does not connect (round %d)", k)
			return
		}
		reg := 0
		for _, f := range sts[k].frames {
			reg += b2i(f.reg, 1, 0)
		}
		p := b.peers[k]
		at := p.remote()
		c.until(60*sec, func() bool { return done > k && len(*in.got.at(at)) >= reg })
		time.Sleep(20 * ms)
		if played[k] != nil {
			c.Fail("closed", "the client closed a connection that carried only well-formed frames: %v", played[k])
		}
		in.compare(c, fmt.Sprintf("client connection %d", k), at, sts[k].frames, true)
		c.Count("frames_sent", len(sts[k].frames))
		if k+1 < n {
			if r.p(500) {
				p.close()
			} else {
				cl.Conn().Stop()
			}
			if !c.until(30*sec, func() bool { return cl.Conn().Context().Err() != nil }) {
				c.Fail("end", "the client's connection does not end")
			}
			cl.Restart()
		}
	}
	c.Count("messages_delivered", in.n)
}

// lfDecoder is a user-defined decoder: a length field with drawn parameters.
type lfDecoder struct{ lf ziface.LengthField }

func (d *lfDecoder) GetLengthField() *ziface.LengthField { l := d.lf; return &l }

func (d *lfDecoder) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ch.GetIMessage()
	if m == nil {
		return ch.ProceedWithIMessage(m, nil)
	}
	m.SetMsgID(5)
	return ch.ProceedWithIMessage(m, m.GetData())
}

func c01Custom(c *Ctx) { c01LengthField(c, false) }

// c01Large: frames whose lengths need more than two bytes.
func c01Large(c *Ctx) { c01LengthField(c, true) }

func c01LengthField(c *Ctx, large bool) {
	r := c.R
	o := drawServer(r)
	if large {
		o.mode = r.picks("tcp", "tcp", "websocket")
		o.readBuf = r.pick(4096, 20000, 65536)
		weather(c, o.mode, func(n *net.SimNetConfig) { n.Seg, n.Cap, n.Merge = 0, 256<<10, 1000 })
	} else {
		weather(c, o.mode, nil)
	}
	off := r.pick(0, 0, 1, 2, 5)
	ll := r.pick(1, 2, 3, 4, 8)
	if large {
		ll = r.pick(3, 3, 4, 8)
	}
	var order binary.ByteOrder = binary.BigEndian
	if r.p(500) {
		order = binary.LittleEndian
	}
	adj := r.pick(0, 0, 1, 4) // bytes of a second header after the length
	hdr2 := adj
	whole := r.p(300)
	if whole { // the length counts the whole frame
		adj = -(off + ll)
	}
	head := off + ll + hdr2
	strip := r.pick(0, 0, off+ll, head)
	maxBody := 600
	if ll == 1 {
		maxBody = 255 - head
	}
	max := uint64(math.MaxUint32)
	oversize := r.p(350) && !large
	if oversize {
		max = uint64(head + r.rng(10, 100))
	}
	if o.readBuf < 16 {
		maxBody = min(maxBody, 250)
	}
	bias := uint64(0) // what the length field counts too much
	if r.p(300) && !large {
		bias = []uint64{1: 0x80, 2: 0x8000, 3: 0x800000, 4: 0x80000000, 8: 1 << 62}[ll]
		if r.p(500) {
			bias = []uint64{1: 0x40, 2: 0xf000, 3: 0xff0000, 4: 0xfff00000, 8: 1 << 40}[ll]
		}
		adj -= int(bias)
		if ll == 1 {
			maxBody = 100 - head
		}
	}
	lf := ziface.LengthField{MaxFrameLength: max, LengthFieldOffset: off, LengthFieldLength: ll, LengthAdjustment: adj, InitialBytesToStrip: strip, Order: order}
	if order == binary.BigEndian && r.p(300) {
		lf.Order = nil
	}
	o.decoder, o.hasDecoder, o.codec = &lfDecoder{lf}, true, "raw"
	c.Shape("%v off=%d len=%d adj=%d strip=%d over=%v", o, off, ll, adj, strip, oversize)
	s := newServer(o)
	in := &inbox{c: c}
	route(s, o, 5, in.handle)
	c.start(s, o)
	c01Run(c, o, in, func(r *rng, i int) (stream, bool) {
		var st stream
		for k, m := 0, r.rng(1, b2i(large, 3, 20)); k < m; k++ {
			sz := r.size(maxBody)
			if large && r.p(700) {
				sz = r.pick(65535, 65536, 65536-head, 65537, 80000, 131072+r.n(1000), 200000)
			}
			body := r.bytes(sz)
			if !oversize || r.p(700) {
				if uint64(head+len(body)) > max {
					body = body[:max-uint64(head)-uint64(r.n(3))]
				}
			}
			h := r.bytes(head)
			if !c.Op() {
				continue
			}
			if len(body) >= 3 {
				body[0], body[1], body[2] = byte(i), byte(k), byte(k>>8)
			}
			n := uint64(len(body)) + bias
			if whole {
				n += uint64(head)
			}
			lb := h[off : off+ll]
			for b := 0; b < ll; b++ {
				if order == binary.LittleEndian {
					lb[b] = byte(n >> (8 * b))
				} else {
					lb[ll-1-b] = byte(n >> (8 * b))
				}
			}
			w := append(h, body...)
			st.add(5, append([]byte(nil), w[strip:]...), uint64(len(w)) <= max, w)
		}
		return st, true
	})
}

// c01Raw: no decoder; the chunks handed to the handler, in order, are the bytes
// the peer sent (websocket: message by message).
func c01Raw(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.codec = "raw"
	weather(c, o.mode, nil)
	c.Shape("%v", o)
	s := newServer(o)
	var got table[string, []byte]
	var msgs table[string, [][]byte]
	route(s, o, 0, func(q ziface.IRequest) {
		a := q.GetConnection().RemoteAddrString()
		d := append([]byte(nil), q.GetData()...)
		g, m := got.at(a), msgs.at(a)
		*g = append(*g, d...)
		*m = append(*m, d)
	})
	c.start(s, o)
	n := r.rng(1, 3)
	type rp struct {
		p    *peer
		sent []byte
		ms   [][]byte
		done bool
	}
	var ps []*rp
	for i := 0; i < n; i++ {
		q := &rp{}
		ps = append(ps, q)
		var chunks [][]byte
		for k, m := 0, r.rng(1, 25); k < m; k++ {
			b := r.bytes(1 + r.size(500))
			if c.Op() {
				chunks = append(chunks, b)
			}
		}
		gap := r.pick(0, 100, 2000)
		go func() {
			q.p = c.mustDial(o.mode, o.codec)
			q.p.recv()
			for _, b := range chunks {
				if q.p.write(b) != nil {
					break
				}
				q.sent = append(q.sent, b...)
				q.ms = append(q.ms, b)
				if gap > 0 {
					time.Sleep(time.Duration(gap) * time.Microsecond)
				}
			}
			q.done = true
		}()
	}
	c.until(120*sec, func() bool {
		for _, q := range ps {
			if !q.done || len(*got.at(q.p.addr())) < len(q.sent) {
				return false
			}
		}
		return true
	})
	time.Sleep(200 * ms)
	for i, q := range ps {
		if q.p == nil {
			c.Fail("dial", "peer %d could not connect", i)
			continue
		}
		g := *got.at(q.p.addr())
		if !bytes.Equal(g, q.sent) {
			k := 0
			for k < len(g) && k < len(q.sent) && g[k] == q.sent[k] {
				k++
			}
			c.Fail("raw", "peer %d: sent %d bytes, handlers saw %d, first difference at %d", i, len(q.sent), len(g), k)
			continue
		}
		if o.mode == "websocket" {
			m := *msgs.at(q.p.addr())
			for k := range m {
				if k >= len(q.ms) || !bytes.Equal(m[k], q.ms[k]) {
					c.Fail("raw", "peer %d: websocket message %d arrived as %s", i, k, short(m[k]))
					break
				}
			}
		}
	}
	c.Count("frames_sent", n)
}
