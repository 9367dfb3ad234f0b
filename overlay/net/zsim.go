// Simulated network under the real net API (added by overlay).  Every stream
// and datagram socket of the process lives here: the rest of net, crypto/tls,
// net/http, gorilla/websocket, kcp-go and zinx run unchanged on top.

package net

import (
	"context"
	"internal/poll"
	"io"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// SimNetConfig is the weather of one simulated run.  Times are nanoseconds,
// rates are per 1000.
type SimNetConfig struct {
	Seed   uint64
	LatMin int64 // one-way latency
	LatMax int64
	Seg    int // 0 whole writes, 1 random cuts, 2 tiny (1..4 bytes), 3 mixed, 4 one byte
	Merge  int // per 1000: a read returns everything arrived (else one segment)
	Short  int // per 1000: a read returns fewer bytes than it could
	Cap    int // bytes a direction can hold before the writer blocks

	// datagrams
	Loss, Dup, Reorder int
	UMin, UMax         int64
	UCap               int // receive queue, packets

	RefuseDial  int // per 1000 dials refused
	ResetRate   int // per 1000 writes: reset the connection
	CloseRST    bool
	AcceptError int // per 1000 accepts fail with EMFILE/ECONNABORTED first
}

type SimNetCounters struct {
	Dials, Refused, Accepts, AcceptErrs  uint64
	Segments, ShortReads, Resets         uint64
	Bytes                                uint64
	Packets, Lost, Duped, Reordered      uint64
	WriterBlocked, Held, RSTOnClose, Fin uint64
	Conns                                uint64
	SynDropped                           uint64
	QueueDrop                            uint64
}

type simNetState struct {
	mu        sync.Mutex
	cfg       SimNetConfig
	cnt       SimNetCounters
	listeners map[int]*simFD
	dgrams    map[int]*simFD
	nextPort  int
	ordinal   uint64
	acceptN   uint64
	dialN     uint64
	acceptErr map[int][]error
	accFault  map[int]error
	accLog    map[int][]int64
	synDrop   map[int]bool
	closed    bool
}

var simNet = simNetState{
	cfg:       SimNetConfig{LatMin: 1000, LatMax: 1000, Cap: 1 << 18, Merge: 500, UMin: 1000, UMax: 2000, UCap: 1024},
	listeners: map[int]*simFD{},
	dgrams:    map[int]*simFD{},
	acceptErr: map[int][]error{},
	accFault:  map[int]error{},
	accLog:    map[int][]int64{},
	synDrop:   map[int]bool{},
	nextPort:  40000,
}

// SimNetSetup sets the weather; connections made before keep theirs.
func SimNetSetup(c SimNetConfig) {
	simNet.mu.Lock()
	simNet.cfg = c
	simNet.mu.Unlock()
}

func SimNetStats() SimNetCounters {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return simNet.cnt
}

// SimNetCalm stops all random faults; latency stays.
func SimNetCalm() {
	simNet.mu.Lock()
	c := &simNet.cfg
	c.Loss, c.Dup, c.Reorder, c.RefuseDial, c.ResetRate, c.AcceptError = 0, 0, 0, 0, 0, 0
	simNet.mu.Unlock()
}

// SimNetAcceptErrors queues errors for the next accepts on port.
func SimNetAcceptErrors(port int, errs ...error) {
	simNet.mu.Lock()
	simNet.acceptErr[port] = append(simNet.acceptErr[port], errs...)
	if l := simNet.listeners[port]; l != nil {
		l.acc.wake()
	}
	simNet.mu.Unlock()
}

// SimNetAcceptFault makes every accept on port that has a peer waiting fail
// with err, until it is called with nil. The peers stay in the backlog.
func SimNetAcceptFault(port int, err error) {
	simNet.mu.Lock()
	simNet.accFault[port] = err
	if l := simNet.listeners[port]; l != nil {
		l.acc.wake()
	}
	simNet.mu.Unlock()
}

// SimNetAcceptErrorsLeft returns how many queued errors are left.
func SimNetAcceptErrorsLeft(port int) int {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return len(simNet.acceptErr[port])
}

// SimNetAcceptFaults returns when accepts on port failed.
func SimNetAcceptFaults(port int) []int64 {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return append([]int64(nil), simNet.accLog[port]...)
}

// SimNetDropSyn makes the network drop the SYNs of dials to port.
func SimNetDropSyn(port int, on bool) {
	simNet.mu.Lock()
	simNet.synDrop[port] = on
	simNet.mu.Unlock()
}

// SimNetListening reports whether a stream listener is bound to port.
func SimNetListening(port int) bool {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return simNet.listeners[port] != nil
}

// SimNetDgramListening reports whether a datagram socket is bound to port.
func SimNetDgramListening(port int) bool {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return simNet.dgrams[port] != nil
}

func simConnOf(c Conn) *simFD {
	switch c := c.(type) {
	case *TCPConn:
		return c.fd.sim
	case *UDPConn:
		return c.fd.sim
	}
	return nil
}

// SimNetReset resets the connection as a failing network or host would.
func SimNetReset(c Conn) {
	f := simConnOf(c)
	if f == nil || f.in == nil {
		return
	}
	simNet.mu.Lock()
	simNet.cnt.Resets++
	f.in.reset()
	f.out.reset()
	simNet.mu.Unlock()
}

// SimNetHold stops (or restarts) delivery: toPeer is what c writes.
func SimNetHold(c Conn, toPeer, fromPeer bool) {
	f := simConnOf(c)
	if f == nil || f.in == nil {
		return
	}
	simNet.mu.Lock()
	simNet.cnt.Held++
	f.out.hold(toPeer)
	f.in.hold(fromPeer)
	simNet.mu.Unlock()
}

// SimNetPeerClosed reports whether the other end has closed its socket.
func SimNetPeerClosed(c Conn) bool {
	f := simConnOf(c)
	if f == nil || f.in == nil {
		return false
	}
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	return f.peer.closed
}

// SimNetOpen counts the open stream sockets accepted on port.
func SimNetOpen(port int) int {
	simNet.mu.Lock()
	defer simNet.mu.Unlock()
	n := 0
	for _, f := range simAccepted {
		if f.lport == port && !f.closed {
			n++
		}
	}
	return n
}

var simAccepted []*simFD

type simBell struct{ ch chan struct{} }

// wake wakes every waiter.
func (b *simBell) wake() {
	if b.ch != nil {
		close(b.ch)
		b.ch = nil
	}
}

// wait waits for wake or until the clock reaches at (0: no limit).  mu is held
// on entry and on return.
func (b *simBell) wait(mu *sync.Mutex, at int64) {
	if b.ch == nil {
		b.ch = make(chan struct{})
	}
	ch := b.ch
	mu.Unlock()
	if at == 0 {
		<-ch
	} else {
		d := at - runtime.SimNow()
		if d < 1 {
			d = 1
		}
		t := time.NewTimer(time.Duration(d))
		select {
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
	mu.Lock()
}

type simSeg struct {
	data []byte
	at   int64
}

// simPipe is one direction of a stream.
type simPipe struct {
	key    uint64
	draws  uint64
	cfg    SimNetConfig
	segs   []simSeg // in flight, in order
	cur    []simSeg // arrived
	size   int      // bytes in segs and cur
	lastAt int64
	fin    bool
	finAt  int64
	rst    bool
	held   bool
	rd, wr simBell
	rgone  bool // the reading socket is closed
}

func (p *simPipe) rnd() uint64 {
	p.draws++
	return runtime.SimRandFor(p.key, p.draws)
}

func (p *simPipe) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.rnd() % uint64(n))
}

func (p *simPipe) chance(perMille int) bool {
	return perMille > 0 && p.n(1000) < perMille
}

func (p *simPipe) latency() int64 {
	d := p.cfg.LatMax - p.cfg.LatMin
	if d <= 0 {
		return p.cfg.LatMin
	}
	return p.cfg.LatMin + int64(p.rnd()%uint64(d+1))
}

func (p *simPipe) reset() {
	if p.rst {
		return
	}
	p.rst = true
	p.segs, p.cur, p.size = nil, nil, 0
	p.rd.wake()
	p.wr.wake()
}

func (p *simPipe) hold(on bool) {
	if p.held == on {
		return
	}
	p.held = on
	if !on {
		now := runtime.SimNow()
		at := now + p.latency()
		for i := range p.segs {
			if p.segs[i].at < at {
				p.segs[i].at = at
			}
		}
		if p.lastAt < at {
			p.lastAt = at
		}
		if p.fin && p.finAt < at {
			p.finAt = at
		}
		p.rd.wake()
	}
}

func (p *simPipe) arrive() {
	if p.held {
		return
	}
	now := runtime.SimNow()
	for len(p.segs) > 0 && p.segs[0].at <= now {
		p.cur = append(p.cur, p.segs[0])
		p.segs = p.segs[1:]
	}
}

func (p *simPipe) push(b []byte) {
	now := runtime.SimNow()
	mode := p.cfg.Seg
	if mode == 3 {
		mode = p.n(3)
	}
	for len(b) > 0 {
		k := len(b)
		switch mode {
		case 1:
			k = 1 + p.n(len(b))
		case 2:
			k = 1 + p.n(4)
		case 4:
			k = 1
		}
		if k > len(b) {
			k = len(b)
		}
		at := now + p.latency()
		if at < p.lastAt {
			at = p.lastAt
		}
		p.lastAt = at
		p.segs = append(p.segs, simSeg{append([]byte(nil), b[:k]...), at})
		simNet.cnt.Segments++
		simNet.cnt.Bytes += uint64(k)
		p.size += k
		b = b[k:]
	}
	p.rd.wake()
}

// simFD is a simulated socket.
type simFD struct {
	kind   int // 1 listener, 2 stream, 3 datagram
	lport  int
	rport  int
	closed bool
	rdl    int64 // deadlines: 0 none
	wdl    int64
	id     uint64

	// listener
	backlog []*simFD
	acc     simBell

	// stream
	in, out *simPipe
	peer    *simFD
	wclosed bool
	wmu     sync.Mutex // one writer at a time, like poll.FD
	rmu     sync.Mutex

	// datagram
	q     []simPkt
	dr    simBell
	key   uint64
	draws uint64
	conn  int // connected remote port
}

type simPkt struct {
	data []byte
	from int
	at   int64
}

func simPort(sa sockaddr) int {
	switch a := sa.(type) {
	case *TCPAddr:
		if a != nil {
			return a.Port
		}
	case *UDPAddr:
		if a != nil {
			return a.Port
		}
	}
	return 0
}

func simIsNil(sa sockaddr) bool {
	switch a := sa.(type) {
	case nil:
		return true
	case *TCPAddr:
		return a == nil
	case *UDPAddr:
		return a == nil
	}
	return false
}

func (s *simNetState) ephemeral() int {
	for {
		s.nextPort++
		if s.nextPort > 60000 {
			s.nextPort = 40001
		}
		if s.listeners[s.nextPort] == nil && s.dgrams[s.nextPort] == nil {
			return s.nextPort
		}
	}
}

func simNetFD(family, sotype int, network string, f *simFD, laddr, raddr Addr) *netFD {
	fd := newFD(-1, family, sotype, network)
	fd.sim = f
	fd.laddr, fd.raddr = laddr, raddr
	return fd
}

var simIP = IP{127, 0, 0, 1}

func simSocket(ctx context.Context, network string, family, sotype int, laddr, raddr sockaddr) (*netFD, error) {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ordinal++
	if sotype == syscall.SOCK_DGRAM {
		f := &simFD{kind: 3, id: s.ordinal, key: s.cfg.Seed*0x9e3779b97f4a7c15 ^ s.ordinal*0xbf58476d1ce4e5b9 ^ 3}
		f.lport = simPort(laddr)
		if f.lport == 0 {
			f.lport = s.ephemeral()
		}
		if s.dgrams[f.lport] != nil {
			return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
		s.dgrams[f.lport] = f
		var ra Addr
		if !simIsNil(raddr) {
			f.conn = simPort(raddr)
			ra = &UDPAddr{IP: simIP, Port: f.conn}
		}
		fd := simNetFD(family, sotype, network, f, &UDPAddr{IP: simIP, Port: f.lport}, ra)
		fd.isConnected = f.conn != 0
		return fd, nil
	}
	if !simIsNil(laddr) && simIsNil(raddr) {
		f := &simFD{kind: 1, id: s.ordinal}
		f.lport = simPort(laddr)
		if f.lport == 0 {
			f.lport = s.ephemeral()
		}
		if s.listeners[f.lport] != nil {
			return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
		s.listeners[f.lport] = f
		return simNetFD(family, sotype, network, f, &TCPAddr{IP: simIP, Port: f.lport}, nil), nil
	}
	// dial
	rp := simPort(raddr)
	s.dialN++
	s.cnt.Dials++
	dk := s.cfg.Seed*0x9e3779b97f4a7c15 ^ s.dialN*0x94d049bb133111eb ^ 7
	pm := func(i uint64) int { return int(runtime.SimRandFor(dk, i) % 1000) }
	lat := s.cfg.LatMin
	if d := s.cfg.LatMax - s.cfg.LatMin; d > 0 {
		lat += int64(runtime.SimRandFor(dk, 1) % uint64(d+1))
	}
	drop := s.synDrop[rp]
	refuse := pm(2) < s.cfg.RefuseDial
	if refuse || drop {
		s.cnt.Refused++
	}
	s.mu.Unlock()
	if drop { // retransmitted like a kernel does: after 1, 2, 4 ... s, given up after 127 s
		s.cnt.SynDropped++
		for wait := time.Second; drop; wait *= 2 {
			if wait > 64*time.Second {
				s.mu.Lock()
				return nil, os.NewSyscallError("connect", syscall.ETIMEDOUT)
			}
			rt := time.NewTimer(wait)
			select {
			case <-ctx.Done():
				rt.Stop()
				s.mu.Lock()
				return nil, mapErr(ctx.Err())
			case <-rt.C:
			}
			s.mu.Lock()
			drop = s.synDrop[rp]
			s.mu.Unlock()
		}
	}
	t := time.NewTimer(time.Duration(lat))
	var cerr error
	select {
	case <-t.C:
	case <-ctx.Done():
		t.Stop()
		cerr = mapErr(ctx.Err())
	}
	s.mu.Lock()
	if cerr != nil {
		return nil, cerr
	}
	l := s.listeners[rp]
	if l == nil || refuse {
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	s.cnt.Conns++
	n := s.cnt.Conns
	lp := s.ephemeral()
	mk := func(dir uint64) *simPipe {
		return &simPipe{key: s.cfg.Seed*0x9e3779b97f4a7c15 ^ n*0xbf58476d1ce4e5b9 ^ dir*0x94d049bb133111eb, cfg: s.cfg}
	}
	c2s, s2c := mk(1), mk(2)
	cf := &simFD{kind: 2, id: s.ordinal, lport: lp, rport: rp, in: s2c, out: c2s}
	sf := &simFD{kind: 2, id: s.ordinal, lport: rp, rport: lp, in: c2s, out: s2c}
	cf.peer, sf.peer = sf, cf
	l.backlog = append(l.backlog, sf)
	l.acc.wake()
	fd := simNetFD(family, sotype, network, cf, &TCPAddr{IP: simIP, Port: lp}, &TCPAddr{IP: simIP, Port: rp})
	fd.isConnected = true
	return fd, nil
}

func (f *simFD) accept(fd *netFD) (*netFD, error) {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if f.closed {
			return nil, poll.ErrNetClosing
		}
		now := runtime.SimNow()
		if f.rdl != 0 && f.rdl <= now {
			return nil, poll.ErrDeadlineExceeded
		}
		if q := s.acceptErr[f.lport]; len(q) > 0 {
			s.acceptErr[f.lport] = q[1:]
			s.cnt.AcceptErrs++
			s.accLog[f.lport] = append(s.accLog[f.lport], now)
			return nil, os.NewSyscallError("accept4", q[0])
		}
		if len(f.backlog) > 0 {
			if err := s.accFault[f.lport]; err != nil {
				s.cnt.AcceptErrs++
				s.accLog[f.lport] = append(s.accLog[f.lport], now)
				return nil, os.NewSyscallError("accept4", err)
			}
			s.acceptN++
			ak := s.cfg.Seed*0x9e3779b97f4a7c15 ^ 11
			if int(runtime.SimRandFor(ak, s.acceptN)%1000) < s.cfg.AcceptError {
				s.cnt.AcceptErrs++
				if runtime.SimRandFor(ak+1, s.acceptN)&1 == 0 {
					return nil, os.NewSyscallError("accept4", syscall.EMFILE)
				}
				return nil, os.NewSyscallError("accept4", syscall.ECONNABORTED)
			}
			nf := f.backlog[0]
			f.backlog = f.backlog[1:]
			s.cnt.Accepts++
			simAccepted = append(simAccepted, nf)
			n := simNetFD(fd.family, fd.sotype, fd.net, nf, &TCPAddr{IP: simIP, Port: nf.lport}, &TCPAddr{IP: simIP, Port: nf.rport})
			n.isConnected = true
			return n, nil
		}
		f.acc.wait(&s.mu, f.rdl)
	}
}

func (f *simFD) close() error {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.closed {
		return poll.ErrNetClosing
	}
	f.closed = true
	switch f.kind {
	case 1:
		if s.listeners[f.lport] == f {
			delete(s.listeners, f.lport)
		}
		for _, b := range f.backlog {
			b.closed = true
			b.in.reset()
			b.out.reset()
		}
		f.backlog = nil
		f.acc.wake()
	case 2:
		f.in.rgone = true
		if f.in.cfg.CloseRST && f.in.size > 0 && !f.in.rst {
			// unread data: the kernel answers with RST
			s.cnt.RSTOnClose++
			f.out.reset()
		}
		f.shutWrite()
		f.in.rd.wake()
		f.in.wr.wake()
		f.out.wr.wake()
		f.in.segs, f.in.cur, f.in.size = nil, nil, 0
	case 3:
		if s.dgrams[f.lport] == f {
			delete(s.dgrams, f.lport)
		}
		f.dr.wake()
	}
	return nil
}

func (f *simFD) shutWrite() {
	if f.wclosed {
		return
	}
	f.wclosed = true
	p := f.out
	if !p.fin && !p.rst {
		simNet.cnt.Fin++
		p.fin = true
		p.finAt = runtime.SimNow() + p.latency()
		if p.finAt < p.lastAt {
			p.finAt = p.lastAt
		}
		p.lastAt = p.finAt
		p.rd.wake()
	}
	p.wr.wake()
}

func (f *simFD) shutdown(how int) error {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.closed {
		return poll.ErrNetClosing
	}
	if f.kind != 2 {
		return syscall.ENOTCONN
	}
	if how == syscall.SHUT_WR || how == syscall.SHUT_RDWR {
		f.shutWrite()
	}
	return nil
}

func simMin(a, b int64) int64 {
	if a == 0 {
		return b
	}
	if b == 0 || a < b {
		return a
	}
	return b
}

func (f *simFD) read(b []byte) (int, error) {
	s := &simNet
	if f.kind == 3 {
		n, _, err := f.recv(b)
		return n, err
	}
	f.rmu.Lock()
	defer f.rmu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	p := f.in
	for {
		if f.closed {
			return 0, poll.ErrNetClosing
		}
		now := runtime.SimNow()
		if f.rdl != 0 && f.rdl <= now {
			return 0, poll.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if p.rst {
			return 0, syscall.ECONNRESET
		}
		p.arrive()
		if len(p.cur) > 0 {
			n := 0
			merge := p.chance(p.cfg.Merge)
			lim := len(b)
			if p.chance(p.cfg.Short) {
				lim = 1 + p.n(len(b))
				s.cnt.ShortReads++
			}
			for len(p.cur) > 0 && n < lim {
				k := copy(b[n:lim], p.cur[0].data)
				n += k
				p.cur[0].data = p.cur[0].data[k:]
				if len(p.cur[0].data) == 0 {
					p.cur = p.cur[1:]
				}
				if !merge {
					break
				}
			}
			p.size -= n
			p.wr.wake()
			return n, nil
		}
		at := int64(0)
		if !p.held {
			if len(p.segs) > 0 {
				at = p.segs[0].at
			} else if p.fin {
				if p.finAt <= now {
					return 0, io.EOF
				}
				at = p.finAt
			}
		}
		p.rd.wait(&s.mu, simMin(at, f.rdl))
	}
}

func (f *simFD) write(b []byte) (int, error) {
	s := &simNet
	if f.kind == 3 {
		return f.send(b, f.conn)
	}
	f.wmu.Lock()
	defer f.wmu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	p := f.out
	if !p.rst && !f.closed && p.chance(p.cfg.ResetRate) {
		s.cnt.Resets++
		f.in.reset()
		p.reset()
	}
	nn := 0
	blocked := false
	for {
		if f.closed || f.wclosed {
			if f.closed {
				return nn, poll.ErrNetClosing
			}
			return nn, syscall.EPIPE
		}
		if p.rst {
			return nn, syscall.EPIPE
		}
		if f.wdl != 0 && f.wdl <= runtime.SimNow() {
			return nn, poll.ErrDeadlineExceeded
		}
		if nn == len(b) {
			return nn, nil
		}
		if p.rgone {
			// the peer's socket is gone: this write provokes a RST
			nn = len(b)
			p.reset()
			f.in.reset()
			return nn, nil
		}
		if room := p.cfg.Cap - p.size; room > 0 {
			k := len(b) - nn
			if k > room {
				k = room
			}
			p.push(b[nn : nn+k])
			nn += k
			continue
		}
		if !blocked {
			blocked = true
			s.cnt.WriterBlocked++
		}
		p.wr.wait(&s.mu, f.wdl)
	}
}

func (f *simFD) dchance(pm int) bool {
	if pm <= 0 {
		return false
	}
	f.draws++
	return int(runtime.SimRandFor(f.key, f.draws)%1000) < pm
}

func (f *simFD) send(b []byte, to int) (int, error) {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.closed {
		return 0, poll.ErrNetClosing
	}
	s.cnt.Packets++
	d := s.dgrams[to]
	copies := 1
	if f.dchance(s.cfg.Loss) {
		s.cnt.Lost++
		copies = 0
	} else if f.dchance(s.cfg.Dup) {
		s.cnt.Duped++
		copies = 2
	}
	for i := 0; i < copies && d != nil; i++ {
		lat := s.cfg.UMin
		f.draws++
		if w := s.cfg.UMax - s.cfg.UMin; w > 0 {
			lat += int64(runtime.SimRandFor(f.key, f.draws) % uint64(w+1))
		}
		if f.dchance(s.cfg.Reorder) {
			s.cnt.Reordered++
			lat += 4 * (s.cfg.UMax + 1)
		}
		if len(d.q) >= s.cfg.UCap {
			s.cnt.QueueDrop++
			continue
		}
		pk := simPkt{append([]byte(nil), b...), f.lport, runtime.SimNow() + lat}
		j := len(d.q)
		for j > 0 && d.q[j-1].at > pk.at {
			j--
		}
		d.q = append(d.q, simPkt{})
		copy(d.q[j+1:], d.q[j:])
		d.q[j] = pk
		d.dr.wake()
	}
	return len(b), nil
}

func (f *simFD) recv(b []byte) (int, int, error) {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if f.closed {
			return 0, 0, poll.ErrNetClosing
		}
		now := runtime.SimNow()
		if f.rdl != 0 && f.rdl <= now {
			return 0, 0, poll.ErrDeadlineExceeded
		}
		at := int64(0)
		if len(f.q) > 0 {
			if f.q[0].at <= now {
				pk := f.q[0]
				f.q = f.q[1:]
				return copy(b, pk.data), pk.from, nil
			}
			at = f.q[0].at
		}
		f.dr.wait(&s.mu, simMin(at, f.rdl))
	}
}

func (f *simFD) setDeadline(t time.Time, r, w bool) error {
	s := &simNet
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.closed {
		return poll.ErrNetClosing
	}
	at := int64(0)
	if !t.IsZero() {
		d := time.Until(t)
		at = runtime.SimNow() + int64(d)
		if at <= 0 {
			at = 1
		}
	}
	if r {
		f.rdl = at
		if f.in != nil {
			f.in.rd.wake()
		}
		f.acc.wake()
		f.dr.wake()
	}
	if w {
		f.wdl = at
		if f.out != nil {
			f.out.wr.wake()
		}
	}
	return nil
}

func simSA4(port int) syscall.SockaddrInet4 {
	return syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}
}

func simSA6(port int) syscall.SockaddrInet6 {
	return syscall.SockaddrInet6{Port: port, Addr: [16]byte{10: 0xff, 11: 0xff, 12: 127, 15: 1}}
}

func simSAPort(sa syscall.Sockaddr) int {
	switch a := sa.(type) {
	case *syscall.SockaddrInet4:
		return a.Port
	case *syscall.SockaddrInet6:
		return a.Port
	}
	return 0
}
