package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
)

// C23: the WebSocket handshake. Requests the authentication function refuses
// are answered 401 and never served; accepted ones are served with what the
// function put into the request's context; subprotocols are negotiated per peer.

func init() {
	props["C23"] = []scenario{
		{name: "handshake", weight: 1, stall: 40 * ms, late: 5 * ms, run: c23Handshake},
	}
}

type c23Key struct{}

func c23Handshake(c *Ctx) {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec = "websocket", "tlv"
	o.maxConn = 64
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	o.taskLen = max(o.taskLen, 8)
	weather(c, o.mode, func(n *net.SimNetConfig) { n.CloseRST = false })
	w := newWorld(c, o)
	noAuth := r.p(150)
	useCtx := r.p(700)
	slow := r.pick(0, 0, 300, 20000)
	var asked table[string, int] // by user
	ar := r.fork()
	if !noAuth {
		w.s.SetWebsocketAuth(func(q *http.Request) error {
			u := q.Header.Get("X-User")
			*asked.at(u)++
			if slow > 0 {
				time.Sleep(time.Duration(ar.n(slow)) * time.Microsecond)
			}
			switch q.URL.Query().Get("token") {
			case "good":
				if useCtx {
					*q = *q.WithContext(context.WithValue(q.Context(), c23Key{}, u))
				}
				return nil
			case "panic":
				panic("auth")
			}
			return errors.New("no")
		})
	}
	userOf := func(cn ziface.IConnection) string {
		rc, _ := cn.Context().Value(znet.WsConnectionHttpReqCtxKey{}).(context.Context)
		if rc == nil {
			return ""
		}
		u, _ := rc.Value(c23Key{}).(string)
		return u
	}
	var owner table[string, string] // remote address -> user, once the dial has returned
	var refused table[string, bool] // remote addresses of refused requests
	check := func(cn ziface.IConnection, where string) {
		a := cn.RemoteAddrString()
		if refused.has(a) {
			c.Fail("refused-served", "a connection whose authentication was refused reaches the %s", where)
		}
		if u := userOf(cn); !noAuth && useCtx {
			if u == "" {
				c.Fail("context-lost", "what the authentication function put into the context is not there in the %s", where)
			} else if owner.has(a) && *owner.at(a) != u {
				c.Fail("context-mixed", "the connection of user %s has the context of user %s in the %s", *owner.at(a), u, where)
			} else if *asked.at(u) == 0 {
				c.Fail("not-asked", "user %s is served, the authentication function was not asked", u)
			}
		}
	}
	w.onStart = func(x *wconn) { check(x.cn, "start hook") }
	w.onStop = func(x *wconn) { check(x.cn, "stop hook") }
	route(w.s, o, 1, func(q ziface.IRequest) {
		check(q.GetConnection(), "handler")
		q.GetConnection().SendMsg(2, append([]byte(userOf(q.GetConnection())+"/"), q.GetData()...))
	})
	c.start(w.s, o)
	slack := 2*c.Stall*time.Duration(max(c.NStall, 1)) + 10*c.Late
	n := r.rng(2, 7)
	spread := r.pick(0, 0, 100, 3000, 300000)
	lives := r.rng(1, 3)
	c.Shape("%v n=%d/%d auth=%v ctx=%v slow=%d spread=%d", o, n, lives, !noAuth, useCtx, slow, spread)
	protos := []string{"chat", "chat.v2", "soap", "mqtt", "wamp"}
	done, ops, good := 0, 0, 0
	for i := 0; i < n; i++ {
		pr := r.fork()
		if !c.Op() {
			continue
		}
		ops++
		go func() {
			defer func() { done++ }()
			for l := 0; l < lives; l++ {
				if spread > 0 {
					time.Sleep(time.Duration(pr.n(spread)) * time.Microsecond)
				}
				user := fmt.Sprintf("u%d.%d", i, l)
				token := pr.picks("good", "good", "good", "good", "bad", "", "panic")
				var offer []string
				for k, at := pr.pick(0, 1, 1, 2, 3), pr.n(len(protos)); k > 0; k-- {
					offer = append(offer, protos[(at+k)%len(protos)])
				}
				stay := time.Duration(pr.pick(0, 5, 100)) * ms
				plain := pr.p(120)
				extra := pr.picks("", "Upgrade: websocket\r\n", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: x\r\n")
				var local string
				d := websocket.Dialer{HandshakeTimeout: 30 * sec, Subprotocols: offer,
					NetDial: func(nw, a string) (net.Conn, error) {
						t, err := net.Dial(nw, a)
						if err == nil {
							local = t.LocalAddr().String()
							*owner.at(local) = user
							if !noAuth && token != "good" {
								*refused.at(local) = true
							}
						}
						return t, err
					}}
				if plain { // not a WebSocket handshake at all
					t, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", wsPort))
					if err != nil {
						continue
					}
					*refused.at(t.LocalAddr().String()) = true
					fmt.Fprintf(t, "GET /?token=%s HTTP/1.1\r\nHost: x\r\nX-User: %s\r\nConnection: close\r\n%s\r\n", token, user, extra)
					var b [64]byte
					t.SetReadDeadline(time.Now().Add(20 * sec))
					k, _ := t.Read(b[:])
					if k > 12 && string(b[9:12]) == "101" {
						c.Fail("plain-upgraded", "a request that is no WebSocket handshake was upgraded")
					}
					time.Sleep(stay)
					t.Close()
					c.Count("plain", 1)
					continue
				}
				t0 := c.Now()
				ws, resp, err := d.Dial(fmt.Sprintf("ws://127.0.0.1:%d/?token=%s", wsPort, token), http.Header{"X-User": {user}})
				took := c.Now() - t0
				if took > 10*sec+slack {
					c.Fail("slow", "the handshake of user %s took %v (token %q, error %v)", user, took, token, err)
				}
				if !noAuth && token != "good" {
					c.Count("refused", 1)
					if err == nil {
						c.Fail("refused-upgraded", "a request with the token %q was upgraded, the authentication function refuses it", token)
						ws.Close()
					} else if token != "panic" && (resp == nil || resp.StatusCode != 401) {
						c.Fail("refused-answer", "a refused request is not answered with status 401 (%v)", err)
					}
					continue
				}
				if err != nil {
					c.Fail("good-refused", "the handshake of user %s, whom the authentication function accepts, fails: %v", user, err)
					return
				}
				if got := ws.Subprotocol(); !oneOf(got, offer) && (len(offer) > 0 || got != "") {
					c.Fail("subprotocol", "user %s offered the subprotocols %v, the server chose %q", user, offer, got)
				}
				good++
				p := &peer{c: c, mode: "websocket", codec: "tlv", maxLen: 1 << 20, ws: ws, tc: ws.UnderlyingConn()}
				p.recv()
				p.send(1, []byte("hi "+user))
				wantA := "/hi " + user
				if !noAuth && useCtx {
					wantA = user + wantA
				}
				if !c.until(10*sec+slack, func() bool { return len(p.frames) > 0 || p.eof }) || len(p.frames) == 0 {
					c.Fail("unserved", "user %s connected, its message is not answered", user)
				} else if string(p.frames[0].data) != wantA {
					c.Fail("answer", "user %s got the answer %q, not %q", user, p.frames[0].data, wantA)
				}
				time.Sleep(stay)
				w.gone(p, pr.picks("close", "reset", "abrupt"))
			}
		}()
	}
	if !c.until(200*sec, func() bool { return done == ops }) {
		c.Fail("stuck", "the peers cannot finish")
	}
	c.until(20*sec, func() bool { return w.s.GetConnMgr().Len() == 0 })
	if k := w.s.GetConnMgr().Len(); k != 0 {
		c.Fail("left-over", "all peers have gone, %d connections are left", k)
	}
	if len(w.conns) != good {
		c.Fail("served-count", "%d peers completed the handshake, %d connections were started", good, len(w.conns))
	}
	w.checkHooks(true)
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
