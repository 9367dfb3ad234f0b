package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

const (
	ms  = time.Millisecond
	sec = time.Second

	tcpPort = 8999
	wsPort  = 9000
	kcpPort = 9001
)

// ---------------------------------------------------------------- weather

// weather draws the network: latency, segmentation, coalescing, short reads,
// small socket buffers; for datagrams loss, duplication and reordering.
func weather(c *Ctx, mode string, edit func(*net.SimNetConfig)) net.SimNetConfig {
	f := c.F
	n := net.SimNetConfig{Seed: f.u(), LatMin: int64(20 * time.Microsecond), LatMax: int64(100 * time.Microsecond), Merge: 1000, Cap: 256 << 10,
		UMin: int64(50 * time.Microsecond), UMax: int64(300 * time.Microsecond), UCap: 512}
	latk, segk, mg, sh, capk := f.n(3), f.n(4), f.pick(0, 300, 700), f.pick(50, 300), f.pick(64, 512, 4096, 20000)
	loss, dup, reo := f.pick(20, 100, 300), f.pick(20, 200), f.pick(50, 300)
	if c.Fault("latency", 600) {
		n.LatMax = []int64{int64(ms), int64(8 * ms), int64(40 * ms)}[latk]
		n.UMax = []int64{int64(ms), int64(8 * ms), int64(40 * ms)}[latk]
	}
	if mode != "kcp" && c.Fault("segmentation", 700) {
		n.Seg = 1 + segk
		n.Merge = mg
	}
	if mode != "kcp" && c.Fault("short-read", 400) {
		n.Short = sh
	}
	if mode != "kcp" && c.Fault("small-socket-buffer", 250) {
		n.Cap = capk
	}
	if mode == "kcp" && c.Fault("udp-loss", 600) {
		n.Loss = loss
	}
	if mode == "kcp" && c.Fault("udp-dup", 500) {
		n.Dup = dup
	}
	if mode == "kcp" && c.Fault("udp-reorder", 500) {
		n.Reorder = reo
	}
	if mode != "kcp" && c.Fault("rst-on-close", 300) {
		n.CloseRST = true
	}
	if edit != nil {
		edit(&n)
	}
	net.SimNetSetup(n)
	return n
}

// ---------------------------------------------------------------- server

type srvOpt struct {
	mode       string // tcp, websocket, kcp, "" (tcp and websocket)
	workerMode string
	pool       int
	maxConn    int
	taskLen    int
	chanLen    int
	readBuf    int
	slices     bool
	reqPool    bool
	hbMax      int
	codec      string
	decoder    ziface.IDecoder
	hasDecoder bool
	tls        bool // the TCP listener speaks TLS
	off        int  // added to its ports
}

func defaultOpt() srvOpt {
	return srvOpt{mode: "tcp", pool: 4, maxConn: 64, taskLen: 64, chanLen: 64, readBuf: 1024, hbMax: 10, codec: "tlv"}
}

func (o srvOpt) String() string {
	return fmt.Sprintf("%s%s/%s/p%d/m%d/q%d/b%d/r%d/%s%s%s", o.mode, b2s(o.tls && (o.mode == "tcp" || o.mode == ""), "+tls"), o.workerMode, o.pool, o.maxConn, o.taskLen, o.chanLen, o.readBuf, o.codec, b2s(o.slices, "/slices"), b2s(o.reqPool, "/pool"))
}

func b2s(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func setConf(o srvOpt) {
	g := zconf.GlobalObject
	g.Host, g.TCPPort, g.WsPort, g.KcpPort, g.WsPath = "127.0.0.1", tcpPort, wsPort, kcpPort, "/"
	g.Mode, g.WorkerMode = o.mode, o.workerMode
	g.WorkerPoolSize, g.MaxConn = uint32(o.pool), o.maxConn
	g.MaxWorkerTaskLen, g.MaxMsgChanLen = uint32(o.taskLen), uint32(o.chanLen)
	g.IOReadBuffSize = uint32(o.readBuf)
	g.RouterSlicesMode, g.RequestPoolMode = o.slices, o.reqPool
	g.HeartbeatMax = o.hbMax
	g.CertFile, g.PrivateKeyFile = "", ""
	if useTLS = o.tls; useTLS {
		g.CertFile, g.PrivateKeyFile = "/simfs/tls/cert.pem", "/simfs/tls/key.pem"
		os.SimFSPut(g.CertFile, []byte(simCert))
		os.SimFSPut(g.PrivateKeyFile, []byte(simKey))
	}
}

// wsPath is the path of the WebSocket server under test.
var wsPath = "/"

// useTLS: the server under test speaks TLS on its TCP port.
var useTLS bool

func newServer(o srvOpt) ziface.IServer {
	setConf(o)
	zconf.GlobalObject.TCPPort += o.off
	zconf.GlobalObject.WsPort += o.off
	zconf.GlobalObject.KcpPort += o.off
	s := znet.NewServer()
	switch o.codec {
	case "ltv":
		s.SetDecoder(zdecoder.NewLTV_Little_Decoder())
		s.SetPacket(zpack.Factory().NewPack(ziface.ZinxDataPackOld))
	case "htlv":
		s.SetDecoder(zdecoder.NewHTLVCRCDecoder())
	case "raw":
		s.SetDecoder(nil)
	}
	if o.hasDecoder {
		s.SetDecoder(o.decoder)
	}
	return s
}

func (c *Ctx) start(s ziface.IServer, o srvOpt) {
	s.Start()
	c.awaitListen(o.mode, o.off)
}

func listening(mode string, off int) bool {
	switch mode {
	case "tcp":
		return net.SimNetListening(tcpPort + off)
	case "websocket":
		return net.SimNetListening(wsPort + off)
	case "kcp":
		return net.SimNetDgramListening(kcpPort + off)
	}
	return net.SimNetListening(tcpPort+off) && net.SimNetListening(wsPort+off)
}

func (c *Ctx) awaitListen(mode string, off int) {
	ok := c.until(20*sec, func() bool { return listening(mode, off) })
	if !ok {
		c.Fail("not-listening", "the server did not start listening (mode %q)", mode)
		c.finish()
	}
}

// routerFunc is a router with only a Handle step.
type routerFunc struct {
	znet.BaseRouter
	f func(ziface.IRequest)
}

func (r *routerFunc) Handle(q ziface.IRequest) { r.f(q) }

// route registers one handler function under either routing mode.
func route(s ziface.IServer, o srvOpt, id uint32, f func(ziface.IRequest)) {
	if o.slices {
		s.AddRouterSlices(id, f)
	} else {
		s.AddRouter(id, &routerFunc{f: f})
	}
}

// ---------------------------------------------------------------- frames

type frame struct {
	id   uint32
	data []byte
	at   time.Duration
}

func crc16(b []byte) uint16 { // Modbus
	crc := uint16(0xFFFF)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

func encode(codec string, id uint32, data []byte) []byte {
	switch codec {
	case "ltv":
		b := make([]byte, 8, 8+len(data))
		binary.LittleEndian.PutUint32(b, uint32(len(data)))
		binary.LittleEndian.PutUint32(b[4:], id)
		return append(b, data...)
	case "htlv":
		b := append([]byte{0xA2, byte(id), byte(len(data))}, data...)
		k := crc16(b)
		return append(b, byte(k), byte(k>>8))
	case "raw":
		return append([]byte(nil), data...)
	}
	b := make([]byte, 8, 8+len(data))
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint32(b[4:], uint32(len(data)))
	return append(b, data...)
}

var errBadFrame = errors.New("bad frame")

// decodeOne takes one frame off b; ok is false when it is incomplete.
func decodeOne(codec string, b []byte, maxLen int) (f frame, rest []byte, ok bool, err error) {
	if len(b) < 8 {
		return frame{}, b, false, nil
	}
	var n, id uint32
	if codec == "ltv" {
		n, id = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:])
	} else {
		id, n = binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	}
	if int(n) > maxLen {
		return frame{}, b, false, errBadFrame
	}
	if len(b) < 8+int(n) {
		return frame{}, b, false, nil
	}
	return frame{id: id, data: append([]byte(nil), b[8:8+n]...)}, b[8+n:], true, nil
}

// ---------------------------------------------------------------- peers

// peer is a scripted remote end: it speaks the transport with a reference
// implementation, and the framing with the code above, not with zinx's.
type peer struct {
	c      *Ctx
	mode   string
	codec  string
	tc     net.Conn
	ws     *websocket.Conn
	kc     *kcp.UDPSession
	tl     *tls.Conn // over tc
	name   string
	frames []frame
	rx     []byte
	rxN    int
	bad    string        // first framing error seen
	eof    bool          // the stream has ended
	eofAt  time.Duration // when
	eofErr error
	maxLen int
	onFr   func(frame)
	pause  bool
}

var errDial = errors.New("dial")

func (c *Ctx) dial(mode, codec string) (*peer, error) { return c.dialAt(mode, codec, 0) }

// dialAt dials the server whose ports are off above the usual ones.
func (c *Ctx) dialAt(mode, codec string, off int) (*peer, error) {
	p := &peer{c: c, mode: mode, codec: codec, maxLen: 1 << 20}
	switch mode {
	case "websocket":
		d := websocket.Dialer{HandshakeTimeout: 20 * sec}
		w, _, err := d.Dial(fmt.Sprintf("ws://127.0.0.1:%d%s", wsPort+off, wsPath), nil)
		if err != nil {
			return nil, err
		}
		p.ws = w
		p.tc = w.UnderlyingConn()
	case "kcp":
		k, err := kcp.DialWithOptions(fmt.Sprintf("127.0.0.1:%d", kcpPort+off), nil, zconf.GlobalObject.KcpFecDataShards, zconf.GlobalObject.KcpFecParityShards)
		if err != nil {
			return nil, err
		}
		g := zconf.GlobalObject
		k.SetACKNoDelay(g.KcpACKNoDelay)
		k.SetStreamMode(g.KcpStreamMode)
		k.SetNoDelay(g.KcpNoDelay, g.KcpInterval, g.KcpResend, g.KcpNc)
		k.SetWindowSize(g.KcpSendWindow, g.KcpRecvWindow)
		p.kc = k
	default:
		t, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", tcpPort+off))
		if err != nil {
			return nil, err
		}
		p.tc = t
		if useTLS {
			p.tl = tls.Client(t, &tls.Config{InsecureSkipVerify: true, CurvePreferences: []tls.CurveID{tls.X25519}})
		}
	}
	return p, nil
}

func (c *Ctx) mustDial(mode, codec string) *peer {
	for i := 0; ; i++ {
		p, err := c.dial(mode, codec)
		if err == nil {
			return p
		}
		if i > 20 {
			c.Fail("dial", "a peer cannot connect: %v", err)
			c.finish()
		}
		time.Sleep(time.Duration(5*(i+1)) * ms)
	}
}

func (p *peer) addr() string {
	switch {
	case p.kc != nil:
		return p.kc.LocalAddr().String()
	default:
		return p.tc.LocalAddr().String()
	}
}

// remote is the other end's address.
func (p *peer) remote() string { return p.tc.RemoteAddr().String() }

// write puts bytes on the wire (websocket: as one binary message).
func (p *peer) write(b []byte) error {
	switch {
	case p.ws != nil:
		return p.ws.WriteMessage(websocket.BinaryMessage, b)
	case p.kc != nil:
		_, err := p.kc.Write(b)
		return err
	case p.tl != nil:
		_, err := p.tl.Write(b)
		return err
	}
	_, err := p.tc.Write(b)
	return err
}

func (p *peer) send(id uint32, data []byte) error { return p.write(encode(p.codec, id, data)) }

func (p *peer) close() {
	switch {
	case p.ws != nil:
		p.ws.Close()
	case p.kc != nil:
		p.kc.Close()
	case p.tl != nil:
		p.tl.Close()
	default:
		p.tc.Close()
	}
}

// recv starts the receiving side.
func (p *peer) recv() { go p.recvLoop() }

func (p *peer) recvLoop() {
	buf := make([]byte, 4096)
	for {
		for p.pause {
			time.Sleep(ms)
		}
		var b []byte
		var err error
		switch {
		case p.ws != nil:
			_, b, err = p.ws.ReadMessage()
		case p.kc != nil:
			var n int
			n, err = p.kc.Read(buf)
			b = buf[:n]
		case p.tl != nil:
			var n int
			n, err = p.tl.Read(buf)
			b = buf[:n]
		default:
			var n int
			n, err = p.tc.Read(buf)
			b = buf[:n]
		}
		if len(b) > 0 {
			p.rxN += len(b)
			p.rx = append(p.rx, b...)
			p.parse()
		}
		if err != nil {
			p.eof, p.eofAt, p.eofErr = true, p.c.Now(), err
			return
		}
	}
}

func (p *peer) parse() {
	if p.codec == "raw" || p.bad != "" {
		return
	}
	for {
		f, rest, ok, err := decodeOne(p.codec, p.rx, p.maxLen)
		if err != nil {
			p.bad = fmt.Sprintf("after %d frames, %d bytes: header % x", len(p.frames), p.rxN, p.rx[:8])
			return
		}
		if !ok {
			return
		}
		p.rx = rest
		f.at = p.c.Now()
		p.frames = append(p.frames, f)
		if p.onFr != nil {
			p.onFr(f)
		}
	}
}

// tag makes a self-describing payload: who, sequence number, length, noise.
func tag(who, seq, size int) []byte {
	if size < 12 {
		size = 12
	}
	b := make([]byte, size)
	binary.BigEndian.PutUint32(b, uint32(who))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	binary.BigEndian.PutUint32(b[8:], uint32(size))
	s := uint64(who)<<32 ^ uint64(seq)*0x9e3779b97f4a7c15 ^ uint64(size)
	for i := 12; i < size; i++ {
		s = s*6364136223846793005 + 1442695040888963407
		b[i] = byte(s >> 56)
	}
	return b
}

// untag checks and reads such a payload.
func untag(b []byte) (who, seq int, ok bool) {
	if len(b) < 12 {
		return 0, 0, false
	}
	who, seq = int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
	n := int(binary.BigEndian.Uint32(b[8:]))
	if n != len(b) {
		return who, seq, false
	}
	return who, seq, bytes.Equal(b, tag(who, seq, n))
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("% x… (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func isEOF(err error) bool { return errors.Is(err, io.EOF) }

// table is a small map without scheduling points inside.
type table[K comparable, V any] struct {
	ks []K
	vs []*V
}

// at returns the entry of k, made on first use.
func (t *table[K, V]) at(k K) *V {
	for i, x := range t.ks {
		if x == k {
			return t.vs[i]
		}
	}
	t.ks = append(t.ks, k)
	t.vs = append(t.vs, new(V))
	return t.vs[len(t.vs)-1]
}

func (t *table[K, V]) has(k K) bool {
	for _, x := range t.ks {
		if x == k {
			return true
		}
	}
	return false
}
