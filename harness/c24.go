package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
)

// C24: a configuration sets what it names and nothing else, and is what the
// server then works by.

func init() {
	props["C24"] = []scenario{
		{name: "config", weight: 1, stall: 20 * ms, late: 5 * ms, run: c24Config},
	}
}

const c24File = "/simfs/conf/zinx.json"

// c24Draw makes a configuration and says which fields it names.
func c24Draw(r *rng, last bool) (zconf.Config, []string) {
	var g zconf.Config
	v := reflect.ValueOf(&g).Elem()
	var names []string
	dens := r.pick(100, 400, 800)
	for i := 0; i < v.NumField(); i++ {
		n, f := v.Type().Field(i).Name, v.Field(i)
		on := r.p(dens)
		var s string
		var k int
		switch n {
		case "Host":
			s = r.picks("127.0.0.1", "0.0.0.0")
		case "TCPPort":
			k = r.rng(20000, 20999)
		case "WsPort":
			k = r.rng(21000, 21999)
		case "KcpPort":
			k = r.rng(22000, 22999)
		case "WsPath":
			s = r.picks("/", "/ws", "/a/b")
		case "Name", "Version":
			s = r.picks("x", "Zinx 服务", "a\"b\\c", "V9.9")
		case "Mode":
			s = r.picks("tcp", "websocket", "kcp", "tcp")
		case "WorkerMode":
			s = r.picks("Hash", "Bind", "DynamicBind")
		case "MaxConn":
			k = r.rng(1, 6)
			on = on || last // the default would take long to fill
		case "WorkerPoolSize":
			k = r.rng(1, 5)
		case "IOReadBuffSize":
			k = r.rng(256, 4096)
		case "LogDir":
			s = r.picks("/simfs/lg1", "/simfs/lg2")
			on = on || last
		case "LogFile":
			s = r.picks("a.log", "b.log")
		case "LogFileSize":
			k = r.pick(600, 100000)
		case "LogIsolationLevel":
			k = r.rng(1, 3)
		case "KcpInterval":
			k = r.rng(10, 40)
		case "KcpSendWindow", "KcpRecvWindow":
			k = r.rng(32, 256)
		case "KcpNoDelay", "KcpNc":
			k = 1
		case "KcpResend":
			k = r.rng(1, 3)
		case "KcpFecDataShards", "KcpFecParityShards":
			k = r.rng(1, 3)
		case "CertFile":
			s, on = "/simfs/tls/cert.pem", on && dens == 800
		case "PrivateKeyFile":
			s, on = "/simfs/tls/key.pem", g.CertFile != ""
		default:
			k = r.rng(1, 1000)
		}
		if !on {
			continue
		}
		names = append(names, n)
		switch f.Kind() {
		case reflect.String:
			f.SetString(s)
		case reflect.Bool:
			f.SetBool(r.p(700))
		case reflect.Uint32:
			f.SetUint(uint64(k))
		default:
			f.SetInt(int64(k))
		}
	}
	if (g.KcpFecDataShards == 0) != (g.KcpFecParityShards == 0) {
		g.KcpFecDataShards, g.KcpFecParityShards = 0, 0
		var keep []string
		for _, n := range names {
			if !strings.HasPrefix(n, "KcpFec") {
				keep = append(keep, n)
			}
		}
		names = keep
	}
	return g, names
}

func c24Diff(a, b *zconf.Config) string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		if p, q := x.Field(i).Interface(), y.Field(i).Interface(); p != q {
			return fmt.Sprintf("%s is %v, expected %v", x.Type().Field(i).Name, p, q)
		}
	}
	return ""
}

func c24Config(c *Ctx) {
	r := c.R
	g := zconf.GlobalObject
	def := zconf.Config{Name: "ZinxServerApp", Version: "V1.0", TCPPort: 8999, WsPort: 9000, WsPath: "/", KcpPort: 9001, Host: "0.0.0.0", MaxConn: 12000,
		MaxPacketSize: 4096, WorkerPoolSize: 10, MaxWorkerTaskLen: 1024, MaxMsgChanLen: 1024, LogDir: g.LogDir, HeartbeatMax: 10, IOReadBuffSize: 1024,
		Mode: "tcp", KcpStreamMode: true, KcpNoDelay: 1, KcpInterval: 10, KcpResend: 2, KcpNc: 1, KcpRecvWindow: 32, KcpSendWindow: 32}
	if d := c24Diff(g, &def); d != "" {
		c.Fail("default", "without a configuration %s", d)
		return
	}
	g.LogDir, def.LogDir = "/simfs/lg0", "/simfs/lg0" // was in the working directory
	os.SimFSPut("/simfs/tls/cert.pem", []byte(simCert))
	os.SimFSPut("/simfs/tls/key.pem", []byte(simKey))
	os.MkdirAll("/simfs/std", 0o755)
	realErr := os.Stderr
	os.Stderr, _ = os.OpenFile("/simfs/std/err", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	defer func() { os.Stderr = realErr }()
	zlog.SetLogger(stdLogger)

	m := def // what is to be in effect
	logPath, level, levelKnown, cons := "", 0, true, false
	logSize := int64(0)
	var s ziface.IServer
	steps := r.rng(1, 4)
	for i := 0; i < steps; i++ {
		user := r.p(500)
		cfg, names := c24Draw(r, i == steps-1)
		fr := r.fork()
		bad := ""
		if !user {
			kinds := []string{"stat", "open", "read", "syntax", "type"}
			k := kinds[c.F.n(len(kinds))]
			if c.Fault("config-"+k, 150) {
				bad = k
			}
		}
		if !c.Op() {
			continue
		}
		before := *g
		s = nil
		if !user {
			c.Logf("file: %v %s", names, bad)
			kv := map[string]any{}
			v := reflect.ValueOf(cfg)
			for _, n := range names {
				kv[n] = v.FieldByName(n).Interface()
			}
			if fr.p(300) {
				kv["NoSuchField"] = []int{1, 2}
			}
			if bad == "type" {
				kv["HeartbeatMax"] = "ten"
			}
			b, _ := json.MarshalIndent(kv, "", fr.picks("", " ", "\t"))
			if bad == "syntax" {
				b = b[:fr.n(len(b))]
			}
			os.SimFSPut(c24File, b)
			err := []error{syscall.EIO, syscall.EACCES, syscall.EMFILE}[fr.n(3)]
			if bad == "stat" || bad == "open" || bad == "read" {
				os.SimFSHook = func(o os.SimFSOp) (d os.SimFSVerdict) {
					if o.Op == bad && o.Path == c24File {
						d.Err = err
						c.Count("config_errors", 1)
					}
					return
				}
			}
			pan := func() (e any) {
				defer func() { e = recover() }()
				g.Reload()
				return nil
			}()
			os.SimFSHook = nil
			switch {
			case bad == "type":
				// which of the others have been taken is not promised
				w, x, y := reflect.ValueOf(g).Elem(), reflect.ValueOf(before), reflect.ValueOf(cfg)
				for k := 0; k < w.NumField(); k++ {
					n := w.Type().Field(k).Name
					now := w.Field(k).Interface()
					if now != x.Field(k).Interface() && (kv[n] == nil || n == "HeartbeatMax" || now != y.Field(k).Interface()) {
						c.Fail("half-loaded", "a file with a value of the wrong type changes %s to %v", n, now)
					}
				}
				m = *g
				levelKnown, logPath = false, "?"
			case bad != "":
				if d := c24Diff(g, &before); d != "" {
					c.Fail("failed-reload", "a reload that fails (%s) changes the configuration: %s", bad, d)
				}
			case pan != nil:
				c.Fail("reload", "the reload of a sound file fails: %v\n%s", pan, b)
				return
			default:
				w := reflect.ValueOf(&m).Elem()
				for _, n := range names {
					w.FieldByName(n).Set(v.FieldByName(n))
				}
			}
		} else {
			c.Logf("user configuration: %v", names)
			v, w := reflect.ValueOf(cfg), reflect.ValueOf(&m).Elem()
			for k := 0; k < w.NumField(); k++ {
				if !v.Field(k).IsZero() {
					w.Field(k).Set(v.Field(k))
				}
			}
			if cfg.RouterSlicesMode && fr.p(500) {
				s = znet.NewUserConfDefaultRouterSlicesServer(&cfg)
			} else {
				s = znet.NewUserConfServer(&cfg)
			}
			// for these two, false and zero may count as named
			if !cfg.KcpStreamMode {
				m.KcpStreamMode = g.KcpStreamMode
			}
			if cfg.LogIsolationLevel == 0 {
				if g.LogIsolationLevel != 0 && g.LogIsolationLevel != before.LogIsolationLevel {
					c.Fail("level", "a configuration without a level sets level %d", g.LogIsolationLevel)
				}
				if m.LogIsolationLevel != 0 {
					levelKnown = false
				}
				m.LogIsolationLevel = g.LogIsolationLevel
			}
			if m.WorkerMode == "Bind" { // one worker per connection
				m.WorkerPoolSize = uint32(m.MaxConn)
			}
		}
		if bad == "" || bad == "stat" { // what happens to the log
			if m.LogFile != "" && (!user || cfg.LogFile != "") {
				logPath, cons, logSize = m.LogDir+"/"+m.LogFile, m.LogCons, m.LogFileSize
			} else if user && logPath != "" {
				cons = cons || cfg.LogCons
				if cfg.LogFileSize > 0 {
					logSize = cfg.LogFileSize
				}
			}
			if m.LogIsolationLevel > 0 {
				level, levelKnown = m.LogIsolationLevel, true
			} else if level != 0 {
				levelKnown = false // whether a level of 0 takes it back is not said
			}
		}
		if d := c24Diff(g, &m); d != "" {
			c.Fail("wrong", "after a configuration (file %v, %v) %s", !user, names, d)
			return
		}
	}
	c.Shape("steps=%d mode=%s wm=%s log=%v", steps, m.Mode, m.WorkerMode, logPath != "")
	if s == nil {
		if m.MaxConn > 100 { // the step that would have set it was left out or failed
			g.MaxConn, m.MaxConn = 5, 5
		}
		if fail := r.p(200); fail && !m.RouterSlicesMode {
			s = znet.NewDefaultRouterSlicesServer()
			m.RouterSlicesMode = true
		} else {
			s = znet.NewServer()
		}
		if m.WorkerMode == "Bind" {
			m.WorkerPoolSize = uint32(m.MaxConn)
		}
		if d := c24Diff(g, &m); d != "" {
			c.Fail("wrong", "after NewServer %s", d)
			return
		}
	}
	c24Serve(c, s, &m)
	if !c.Failed() && logPath != "?" && levelKnown {
		c24Log(c, logPath, level, cons, logSize)
	}
}

// c24Serve: the server works by configuration m.
func c24Serve(c *Ctx, s ziface.IServer, m *zconf.Config) {
	r := c.R
	weather(c, m.Mode, func(n *net.SimNetConfig) { n.Seg, n.Short, n.Cap = 0, 0, 256<<10 })
	if s.ServerName() != m.Name {
		c.Fail("name", "the server is called %q, configured %q", s.ServerName(), m.Name)
	}
	o := srvOpt{slices: m.RouterSlicesMode}
	started, ended := 0, 0
	s.SetOnConnStart(func(cn ziface.IConnection) {
		started++
		if w := cn.GetWorkerID(); int(w) >= int(m.WorkerPoolSize) && int(w) >= m.MaxConn {
			c.Fail("worker", "a connection has worker %d of %d", w, m.WorkerPoolSize)
		}
	})
	s.SetOnConnStop(func(cn ziface.IConnection) { ended++ })
	route(s, o, 1, func(q ziface.IRequest) { q.GetConnection().SendMsg(2, q.GetData()) })
	s.Start()
	ports := func() (l [3]bool) {
		return [3]bool{net.SimNetListening(m.TCPPort), net.SimNetListening(m.WsPort), net.SimNetDgramListening(m.KcpPort)}
	}
	want := [3]bool{m.Mode == "tcp", m.Mode == "websocket", m.Mode == "kcp"}
	if !c.until(20*sec, func() bool { return ports() == want }) {
		c.Fail("ports", "mode %s, ports %d, %d, %d: listening (tcp, websocket, kcp) %v", m.Mode, m.TCPPort, m.WsPort, m.KcpPort, ports())
		return
	}
	useTLS, wsPath = m.CertFile != "" && m.PrivateKeyFile != "" && m.Mode == "tcp", m.WsPath
	off := map[string]int{"tcp": m.TCPPort - tcpPort, "websocket": m.WsPort - wsPort, "kcp": m.KcpPort - kcpPort}[m.Mode]
	if m.Mode == "websocket" && m.WsPath != "/" && r.p(300) {
		wsPath = "/nothing"
		if _, err := c.dialAt(m.Mode, "tlv", off); err == nil {
			c.Fail("path", "a WebSocket handshake at /nothing succeeds, the path is %s", m.WsPath)
		}
		wsPath = m.WsPath
	}
	patience := 30 * sec
	if m.Mode == "kcp" {
		patience = 120 * sec
	}
	n, done := m.MaxConn, 0
	var peers []*peer
	for i := 0; i < n; i++ {
		if !c.Op() {
			continue
		}
		n := len(peers)
		peers = append(peers, nil)
		go func() {
			defer func() { done++ }()
			var p *peer
			for k := 0; p == nil; k++ {
				q, err := c.dialAt(m.Mode, "tlv", off)
				if err == nil {
					p = q
				} else if k > 20 {
					c.Fail("dial", "a peer cannot connect where the configuration says: %v", err)
					return
				} else {
					time.Sleep(5 * ms)
				}
			}
			peers[n] = p
			p.recv()
			for k := 0; k < 3; k++ {
				if err := p.send(1, tag(i, k, 40)); err != nil {
					c.Fail("send", "one of %d peers is cut off, MaxConn is %d: %v", m.MaxConn, m.MaxConn, err)
					return
				}
				if !c.until(patience, func() bool { return len(p.frames) > k || p.eof }) || len(p.frames) <= k {
					c.Fail("unserved", "one of up to %d peers is not answered, MaxConn is %d", m.MaxConn, m.MaxConn)
					return
				}
			}
		}()
	}
	if !c.until(5*patience, func() bool { return done == len(peers) }) {
		c.Fail("stuck", "the peers are not done")
		return
	}
	if m.Mode != "kcp" && !c.Failed() && len(peers) == m.MaxConn && r.p(400) {
		if p, err := c.dialAt(m.Mode, "tlv", off); err == nil {
			p.recv()
			go p.send(1, tag(99, 0, 40))
			time.Sleep(300 * ms)
			if started > m.MaxConn {
				c.Fail("max-conn", "%d connections are served, MaxConn is %d", started, m.MaxConn)
			}
			p.tc.Close()
		}
	}
	c.Count("peers", len(peers))
	for _, p := range peers {
		if p != nil {
			p.close()
		}
	}
	s.Stop()
	time.Sleep(sec)
}

// c24Log: the log goes where the configuration says.
func c24Log(c *Ctx, path string, level int, cons bool, size int64) {
	mark := "[MARK] "
	emit := []func(string){func(t string) { zlog.Debugf("%s", t) }, func(t string) { zlog.Infof("%s", t) }, func(t string) { zlog.Warnf("%s", t) }, func(t string) { zlog.Ins().ErrorF("%s", t) }}
	for i := 0; i < 20; i++ {
		emit[i%4](fmt.Sprintf("%s%d %s", mark, i, strings.Repeat("y", 80)))
	}
	time.Sleep(5*sec + 500*ms + time.Duration(c.NStall+1)*c.Stall + 4*c.Late)
	ns, ds := os.SimFSFiles()
	var file, stderr []byte
	parts := 0
	stem := strings.TrimSuffix(path, ".log")
	for i, n := range ns {
		switch {
		case n == "/simfs/std/err":
			stderr = ds[i]
		case path != "" && strings.HasPrefix(n, stem):
			parts++
			if n == path || strings.HasSuffix(n, ".log") {
				file = append(file, ds[i]...)
			}
		case strings.HasPrefix(n, "/simfs/lg") && strings.Contains(string(ds[i]), mark):
			c.Fail("log-elsewhere", "the log is written to %s, configured %s", n, path)
		}
	}
	at := func(b []byte, i int) bool { return strings.Contains(string(b), fmt.Sprintf("%s%d ", mark, i)) }
	rotates := size > 0 && size < 1000
	for i := 0; i < 20; i++ {
		on := i%4 >= level
		toFile, toErr := at(file, i), at(stderr, i)
		if wantErr := on && (path == "" || cons); toErr != wantErr {
			c.Fail("log-console", "line %d of level %d on standard error: %v, level %d, file %q, console %v", i, i%4, toErr, level, path, cons)
			return
		}
		if wantFile := on && path != ""; toFile != wantFile && !(rotates && wantFile) {
			c.Fail("log-file", "line %d of level %d in %q: %v, level %d", i, i%4, path, toFile, level)
			return
		}
	}
	if path != "" && rotates && level < 3 && parts < 2 {
		c.Fail("log-size", "with files of %d bytes %d files are written", size, parts)
	}
	c.Count("log_checks", 1)
}
