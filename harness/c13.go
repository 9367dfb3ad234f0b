package main

import (
	"encoding/json"
	"fmt"
	"net"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zutils"
)

// C13: the sharded map is linearizable per key; enumerations are faithful.
// C20: so are the properties of a connection.

func init() {
	props["C13"] = []scenario{
		{name: "map", weight: 3, stall: 2 * ms, late: ms, run: c13Map},
		{name: "enumerate", weight: 1, stall: 2 * ms, late: ms, run: c13Enum},
	}
	props["C20"] = []scenario{
		{name: "properties", weight: 1, stall: 2 * ms, late: ms, run: c20Props},
	}
}

// oneHash puts all keys into few shards.
type oneHash struct{ m uint32 }

func (h oneHash) Sum(k string) uint32 {
	s := uint32(7)
	for _, b := range []byte(k) {
		s = s*31 + uint32(b)
	}
	return s % h.m
}

func c13New(r *rng) (zutils.ShardLockMaps, string) {
	n := r.pick(32, 32, 1, 2, 5)
	zutils.ShardCount = n
	if r.p(500) {
		return zutils.NewShardLockMaps(), fmt.Sprint("shards=", n)
	}
	return zutils.NewWithCustomHash(oneHash{uint32(r.pick(1, 2, 1<<31))}), fmt.Sprint("custom shards=", n)
}

func asInt(v interface{}) int {
	switch v := v.(type) {
	case nil:
		return 0
	case int:
		return v
	case float64:
		return int(v)
	}
	return -1
}

func c13Map(c *Ctx) {
	r := c.R
	m, sh := c13New(r)
	nk := r.rng(1, 3)
	keys := []string{"a", "key-1", "the third key"}[:nk]
	hist := make([]linHist, nk)
	tick, nextV := 0, 0
	ng := r.rng(2, 5)
	done, ops := 0, 0
	perKey := 0
	c.Shape("%s keys=%d", sh, nk)
	now := func() int { tick++; return tick }
	rec := func(k, call int, what string, f func(int) (int, bool)) {
		hist[k].ops = append(hist[k].ops, linOp{call, now(), what, f})
	}
	// all records what one enumeration saw of every key
	all := func(call int, what string, got *table[string, []int]) {
		for i, k := range got.ks {
			known := false
			for _, x := range keys {
				known = known || x == k
			}
			if !known {
				c.Fail("phantom", "%s returns the key %q, which was never there", what, k)
			}
			if len(*got.vs[i]) > 1 {
				c.Fail("twice", "%s returns the key %q %d times", what, k, len(*got.vs[i]))
			}
		}
		for k, x := range keys {
			v := 0
			if l := *got.at(x); len(l) > 0 {
				v = l[0]
			}
			if what == "Keys" {
				rec(k, call, fmt.Sprintf("Keys: %v", v != 0), opHas(v != 0))
			} else {
				rec(k, call, fmt.Sprintf("%s: %d", what, v), opGet(v))
			}
		}
	}
	for g := 0; g < ng; g++ {
		pr := r.fork()
		n := pr.rng(2, 7)
		if perKey+n > 20 {
			n = max(1, 20-perKey)
		}
		perKey += n
		type op struct{ kind, k, us int }
		var os []op
		for i := 0; i < n; i++ {
			x := op{pr.n(100), pr.n(nk), pr.pick(0, 0, 20, 200)}
			if c.Op() {
				os = append(os, x)
				ops++
			}
		}
		go func() {
			defer func() { done++ }()
			for _, x := range os {
				if x.us > 0 {
					time.Sleep(time.Duration(x.us) * time.Microsecond)
				}
				k, key := x.k, keys[x.k]
				nextV++
				v := nextV
				call := now()
				switch {
				case x.kind < 16:
					m.Set(key, v)
					rec(k, call, fmt.Sprint("Set ", v), opSet(v))
				case x.kind < 30:
					g, ok := m.Get(key)
					if ok != (g != nil) {
						c.Fail("get", "Get returns %v, %v", g, ok)
					}
					rec(k, call, fmt.Sprint("Get ", asInt(g)), opGet(asInt(g)))
				case x.kind < 36:
					b := m.Has(key)
					rec(k, call, fmt.Sprint("Has ", b), opHas(b))
				case x.kind < 44:
					m.Remove(key)
					rec(k, call, "Remove", opRemove())
				case x.kind < 54:
					g, ok := m.Pop(key)
					if ok != (g != nil) {
						c.Fail("pop", "Pop returns %v, %v", g, ok)
					}
					rec(k, call, fmt.Sprint("Pop ", asInt(g)), opPop(asInt(g)))
				case x.kind < 66:
					b := m.SetNX(key, v)
					rec(k, call, fmt.Sprint("SetNX ", v, " ", b), opSetNX(v, b))
				case x.kind < 74:
					saw, rm := 0, false
					calls := 0
					b := m.RemoveCb(key, func(kk string, vv interface{}, ex bool) bool {
						calls++
						saw = asInt(vv)
						if ex != (saw != 0) || kk != key {
							c.Fail("removecb", "RemoveCb is given %q, %v, %v", kk, vv, ex)
						}
						time.Sleep(10 * time.Microsecond)
						rm = saw%2 == 1 || !ex && v%2 == 1
						return rm
					})
					if b != rm || calls != 1 {
						c.Fail("removecb", "RemoveCb returns %v, its callback %v (called %d times)", b, rm, calls)
					}
					rec(k, call, fmt.Sprint("RemoveCb ", saw, " ", rm), opRemoveIf(saw, rm && saw != 0))
				case x.kind < 78:
					d := map[string]interface{}{}
					for _, kk := range keys {
						d[kk] = v
					}
					m.MSet(d)
					for j := range keys {
						rec(j, call, fmt.Sprint("MSet ", v), opSet(v))
					}
				case x.kind < 82:
					var got table[string, []int]
					for _, kk := range m.Keys() {
						*got.at(kk) = append(*got.at(kk), 1)
					}
					all(call, "Keys", &got)
				case x.kind < 85:
					var got table[string, []int]
					for kk, vv := range m.Items() {
						*got.at(kk) = append(*got.at(kk), asInt(vv))
					}
					all(call, "Items", &got)
				case x.kind < 89:
					var got table[string, []int]
					for t := range m.IterBuffered() {
						*got.at(t.Key) = append(*got.at(t.Key), asInt(t.Val))
					}
					all(call, "IterBuffered", &got)
				case x.kind < 93:
					var got table[string, []int]
					m.IterCb(func(kk string, vv interface{}) {
						*got.at(kk) = append(*got.at(kk), asInt(vv))
						if x.us > 0 {
							time.Sleep(5 * time.Microsecond)
						}
					})
					all(call, "IterCb", &got)
				case x.kind < 95:
					b, err := m.MarshalJSON()
					d := map[string]interface{}{}
					if err == nil {
						err = json.Unmarshal(b, &d)
					}
					if err != nil {
						c.Fail("json", "MarshalJSON: %v", err)
						break
					}
					var got table[string, []int]
					for kk, vv := range d {
						*got.at(kk) = append(*got.at(kk), asInt(vv))
					}
					all(call, "MarshalJSON", &got)
				case x.kind < 97:
					if err := m.UnmarshalJSON([]byte(fmt.Sprintf(`{%q: %d}`, key, v))); err != nil {
						c.Fail("json", "UnmarshalJSON: %v", err)
					}
					rec(k, call, fmt.Sprint("UnmarshalJSON ", v), opSet(v))
				default:
					m.Clear()
					for j := range keys {
						rec(j, call, "Clear", opRemove())
					}
				}
			}
		}()
	}
	if !c.until(5*sec, func() bool { return done == ng }) {
		c.Fail("blocked", "operations on the map do not return")
		return
	}
	n := 0
	if !c.within(5*sec, func() {
		for k, key := range keys {
			call := now()
			g, _ := m.Get(key)
			rec(k, call, fmt.Sprint("Get ", asInt(g)), opGet(asInt(g)))
			if g != nil {
				n++
			}
		}
		if k := m.Count(); k != n {
			c.Fail("count", "Count is %d, %d keys are present", k, n)
		}
		if b := m.IsEmpty(); b != (n == 0) {
			c.Fail("count", "IsEmpty is %v, %d keys are present", b, n)
		}
		for _, key := range keys {
			m.Set(key, 1)
		}
	}) {
		c.Fail("blocked", "a lock is left held")
		return
	}
	for k := range keys {
		if len(hist[k].ops) <= 62 && !hist[k].linearizable(0) {
			c.Fail("not-linearizable", "key %q:%s", keys[k], hist[k].String())
		}
		c.Count("operations", len(hist[k].ops))
	}
}

// c13Enum: many keys; those present throughout are seen by every enumeration.
func c13Enum(c *Ctx) {
	r := c.R
	m, sh := c13New(r)
	ns, nv := r.rng(1, 40), r.rng(1, 20)
	c.Shape("%s stable=%d changing=%d", sh, ns, nv)
	for i := 0; i < ns; i++ {
		m.Set(fmt.Sprint("s", i), i)
	}
	stop, done, ng := false, 0, r.rng(1, 3)
	for g := 0; g < ng; g++ {
		pr := r.fork()
		n := pr.rng(1, 60)
		if !c.Op() {
			n = 0
		}
		go func() {
			defer func() { done++ }()
			for i := 0; i < n && !stop; i++ {
				k := fmt.Sprint("v", pr.n(nv))
				switch pr.n(5) {
				case 0:
					m.Remove(k)
				case 1:
					m.Pop(k)
				case 2:
					m.SetNX(k, -7)
				default:
					m.Set(k, -7)
				}
				if pr.p(200) {
					time.Sleep(5 * time.Microsecond)
				}
			}
		}()
	}
	ne := r.rng(1, 3)
	for g := 0; g < ne; g++ {
		pr := r.fork()
		n := pr.rng(1, 5)
		if !c.Op() {
			n = 0
		}
		go func() {
			defer func() { done++ }()
			for i := 0; i < n; i++ {
				seen := make([]int, ns)
				seenV := make([]int, nv)
				check := func(what, k string, v interface{}) {
					var i int
					switch {
					case len(k) > 1 && k[0] == 's':
						fmt.Sscan(k[1:], &i)
						if i >= 0 && i < ns && (what == "Keys" || asInt(v) == i) {
							seen[i]++
							return
						}
					case len(k) > 1 && k[0] == 'v':
						fmt.Sscan(k[1:], &i)
						if i >= 0 && i < nv && (what == "Keys" || asInt(v) == -7) {
							seenV[i]++
							return
						}
					}
					c.Fail("phantom", "%s returns %q: %v", what, k, v)
				}
				what := ""
				switch pr.n(7) {
				case 0:
					what = "Keys"
					for _, k := range m.Keys() {
						check(what, k, nil)
					}
				case 1:
					what = "Items"
					for k, v := range m.Items() {
						check(what, k, v)
					}
				case 2:
					what = "IterBuffered"
					for t := range m.IterBuffered() {
						check(what, t.Key, t.Val)
						if pr.p(100) {
							time.Sleep(20 * time.Microsecond)
						}
					}
				case 3:
					what = "IterCb"
					m.IterCb(func(k string, v interface{}) { check(what, k, v) })
				case 4: // abandoned half way: holds nothing up
					for range m.IterBuffered() {
						break
					}
					continue
				case 5:
					k := m.Count()
					if k < ns || k > ns+nv {
						c.Fail("count", "Count is %d with %d keys always and %d sometimes present", k, ns, nv)
					}
					if m.IsEmpty() {
						c.Fail("count", "IsEmpty with %d keys present", ns)
					}
					continue
				default:
					what = "MarshalJSON"
					b, err := json.Marshal(m)
					d := map[string]interface{}{}
					if err == nil {
						err = json.Unmarshal(b, &d)
					}
					if err != nil {
						c.Fail("json", "%v", err)
					}
					for k, v := range d {
						check(what, k, v)
					}
				}
				for i, k := range seen {
					if k != 1 {
						c.Fail("enumeration", "%s returns the key s%d, present throughout, %d times", what, i, k)
						return
					}
				}
				for i, k := range seenV {
					if k > 1 {
						c.Fail("enumeration", "%s returns the key v%d %d times", what, i, k)
						return
					}
				}
				c.Count("enumerations", 1)
			}
		}()
	}
	if !c.until(5*sec, func() bool { return done == ng+ne }) {
		c.Fail("blocked", "an operation or enumeration does not end")
		return
	}
	if !c.within(5*sec, func() {
		m.Clear()
		if k := m.Count(); k != 0 {
			c.Fail("count", "after Clear the map holds %d keys: %v", k, m.Keys())
		}
		m.Set("x", 1)
	}) {
		c.Fail("blocked", "a lock is left held")
	}
}

func c20Props(c *Ctx) {
	r := c.R
	o := drawServer(r)
	weather(c, o.mode, func(n *net.SimNetConfig) { n.Loss = 0 })
	w := newWorld(c, o)
	c.start(w.s, o)
	nc := r.rng(1, 3)
	var cs []ziface.IConnection
	for i := 0; i < nc; i++ {
		p := c.mustDial(o.mode, o.codec)
		p.recv()
		if o.mode == "kcp" {
			p.send(1, []byte("hello"))
		}
		if !c.until(20*sec, func() bool { return w.by(p) != nil && w.by(p).started }) {
			c.Fail("no-start", "the connection was not started")
			return
		}
		cs = append(cs, w.by(p).cn)
	}
	if o.mode != "kcp" && r.p(300) { // a client's connection, too
		var cl ziface.IClient
		if o.mode == "tcp" {
			cl = znet.NewClient("127.0.0.1", tcpPort)
			if o.tls {
				cl = znet.NewTLSClient("127.0.0.1", tcpPort)
			}
		} else {
			cl = znet.NewWsClient("127.0.0.1", wsPort)
		}
		cl.Start()
		if c.until(20*sec, func() bool { return cl.Conn() != nil }) {
			cs = append(cs, cl.Conn())
			nc++
		}
	}
	nk := r.rng(1, 3)
	keys := []string{"user", "", "房间"}[:nk]
	hist := make([]linHist, nc*nk)
	tick, nextV := 0, 0
	now := func() int { tick++; return tick }
	ng := r.rng(2, 4)
	done := 0
	c.Shape("%s conns=%d keys=%d", o.mode, nc, nk)
	for g := 0; g < ng; g++ {
		pr := r.fork()
		type op struct{ kind, c, k, us int }
		var os []op
		for i := pr.rng(2, 12); i > 0; i-- {
			x := op{pr.n(10), pr.n(nc), pr.n(nk), pr.pick(0, 0, 0, 50)}
			if c.Op() {
				os = append(os, x)
			}
		}
		go func() {
			defer func() { done++ }()
			for _, x := range os {
				if x.us > 0 {
					time.Sleep(time.Duration(x.us) * time.Microsecond)
				}
				cn, key, h := cs[x.c], keys[x.k], &hist[x.c*nk+x.k]
				nextV++
				v := nextV
				call := now()
				switch {
				case x.kind < 4:
					cn.SetProperty(key, v)
					h.ops = append(h.ops, linOp{call, now(), fmt.Sprint("set ", v), opSet(v)})
				case x.kind < 8:
					g, err := cn.GetProperty(key)
					if (err == nil) != (g != nil) {
						c.Fail("get", "GetProperty returns %v, %v", g, err)
					}
					h.ops = append(h.ops, linOp{call, now(), fmt.Sprint("get ", asInt(g)), opGet(asInt(g))})
				default:
					cn.RemoveProperty(key)
					h.ops = append(h.ops, linOp{call, now(), "remove", opRemove()})
				}
			}
		}()
	}
	closing := c.Fault("connection-ends", 200)
	if closing {
		go func() {
			time.Sleep(time.Duration(r.n(100)) * time.Microsecond)
			cs[0].Stop()
		}()
	}
	if !c.until(5*sec, func() bool { return done == ng }) {
		c.Fail("blocked", "operations on properties do not return")
		return
	}
	for i := range hist {
		h := &hist[i]
		call := now()
		g, _ := cs[i/nk].GetProperty(keys[i%nk])
		h.ops = append(h.ops, linOp{call, now(), fmt.Sprint("get ", asInt(g)), opGet(asInt(g))})
		if len(h.ops) <= 62 && !h.linearizable(0) {
			c.Fail("not-linearizable", "%s, connection %d, property %q:%s", o.mode, i/nk, keys[i%nk], h.String())
		}
		c.Count("operations", len(h.ops))
	}
}
