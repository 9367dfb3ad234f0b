package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"simharness/mmo"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/golang/protobuf/proto"
)

// C27: the world of the MMO demo: players see who is around them, chat reaches
// everyone, who has left is gone.

func init() {
	props["C27"] = []scenario{
		{name: "one-by-one", weight: 2, stall: 10 * ms, late: 2 * ms, run: c27Serial},
		{name: "crowd", weight: 3, stall: 40 * ms, late: 5 * ms, run: c27Crowd},
	}
}

type mpos struct{ x, z, y, v float32 } // place on the map, height, direction

// mplayer is a player as its own client sees it.
type mplayer struct {
	c      *Ctx
	n      int
	p      *peer
	pid    int32
	at     mpos // what it has told the server last
	placed bool
	view   table[int32, *mpos] // whom it shows; nil: gone again
	moves  table[int32, int]   // move broadcasts seen, by player
	chats  table[string, int]
	online bool
	joined time.Duration // its first chat or move may be seen by others from here
	left   time.Duration
	moved  bool
}

func (m *mplayer) name() string { return fmt.Sprintf("player %d", m.pid) }

func (m *mplayer) frame(f frame) {
	see := func(pid int32, q *pb.Position) {
		if q != nil {
			*m.view.at(pid) = &mpos{q.X, q.Z, q.Y, q.V}
		}
	}
	switch f.id {
	case 1:
		s := &pb.SyncPID{}
		if proto.Unmarshal(f.data, s) == nil {
			if m.pid != 0 {
				m.c.Fail("pid", "a player is told its id twice")
			}
			m.pid = s.PID
		}
	case 200:
		b := &pb.BroadCast{}
		if err := proto.Unmarshal(f.data, b); err != nil {
			m.c.Fail("message", "a broadcast cannot be read: %v", err)
			return
		}
		switch b.Tp {
		case 1:
			*m.chats.at(fmt.Sprintf("%d:%s", b.PID, b.GetContent()))++
		case 2:
			if b.PID == m.pid && !m.placed && b.GetP() != nil {
				m.placed = true
				m.at = mpos{b.GetP().X, b.GetP().Z, b.GetP().Y, b.GetP().V}
			}
			see(b.PID, b.GetP())
		case 4:
			*m.moves.at(b.PID)++
			see(b.PID, b.GetP())
		}
	case 201:
		s := &pb.SyncPID{}
		if proto.Unmarshal(f.data, s) == nil {
			*m.view.at(s.PID) = nil
		}
	case 202:
		s := &pb.SyncPlayers{}
		if err := proto.Unmarshal(f.data, s); err != nil {
			m.c.Fail("message", "the list of players cannot be read: %v", err)
			return
		}
		for _, q := range s.Ps {
			see(q.PID, q.P)
		}
	}
}

// cell is the grid of a position; what is beyond the map belongs to its edge.
func cell(p mpos) (int, int) {
	return min(max((int(p.x)-85)/32, 0), 9), min(max((int(p.z)-75)/16, 0), 19)
}

func near(a, b mpos) bool {
	ax, ay := cell(a)
	bx, by := cell(b)
	return max(ax-bx, bx-ax) <= 1 && max(ay-by, by-ay) <= 1
}

type mworld struct {
	c  *Ctx
	o  srvOpt
	s  ziface.IServer
	ps []*mplayer
}

func newMMO(c *Ctx) *mworld {
	r := c.R
	o := drawServer(r)
	o.mode, o.codec, o.tls, o.slices = r.picks("tcp", "tcp", "websocket"), "ltv", false, false
	o.maxConn = 64
	if o.workerMode == "Bind" {
		o.pool = o.maxConn
	}
	o.readBuf = r.pick(64, 512, 4096)
	weather(c, o.mode, nil)
	w := &mworld{c: c, o: o}
	os.Stdout = nil // it talks a lot
	setConf(o)
	mmo.Running = func(s ziface.IServer) { w.s = s }
	mmo.Main()
	c.start(w.s, o)
	c.Shape("%v", o)
	return w
}

func (w *mworld) join() *mplayer {
	m := &mplayer{c: w.c, n: len(w.ps)}
	m.p = w.c.mustDial(w.o.mode, "ltv")
	m.p.onFr = m.frame
	m.p.recv()
	if !w.c.until(20*sec, func() bool { return m.pid != 0 && m.placed }) {
		w.c.Fail("welcome", "a player that has connected is not told its id and place within 20 s")
		w.c.finish()
	}
	for _, q := range w.ps {
		if q.pid == m.pid {
			w.c.Fail("pid", "player id %d is given out twice", m.pid)
		}
	}
	m.online = true
	m.joined = w.c.Now()
	w.ps = append(w.ps, m)
	return m
}

func (m *mplayer) send(id uint32, p proto.Message) error {
	b, err := proto.Marshal(p)
	if err != nil {
		return err
	}
	return m.p.send(id, b)
}

func (m *mplayer) move(to mpos) error {
	m.at = to
	return m.send(3, &pb.Position{X: to.x, Y: to.y, Z: to.z, V: to.v})
}

func (m *mplayer) leave(how string) {
	m.online, m.left = false, m.c.Now()
	if how == "abrupt" {
		m.p.tc.Close()
	} else {
		m.p.close()
	}
}

func drawPos(r *rng) mpos {
	x, z := drawPlace(r)
	return mpos{x, z, float32(r.n(4)), float32(r.n(360))}
}

func drawPlace(r *rng) (x, z float32) {
	switch r.n(8) {
	case 0: // the edges of the map, and beyond
		return float32(r.pick(85, 86, 404, 405, 409, 410, 84, 20, -100, 900)), float32(r.pick(75, 76, 394, 395, 399, 400, 74, 10, -100, 900))
	case 1:
		return float32(85 + r.n(325)), float32(75 + r.n(325))
	case 2:
		return float32(405 + r.n(5)), float32(75 + r.n(60))
	case 3:
		return float32(85 + r.n(40)), float32(85 + r.n(70))
	}
	return float32(150 + r.n(110)), float32(125 + r.n(70))
}

// structure: the world and its grids hold exactly the players online, each in the grid of its place.
func (w *mworld) structure(when string) {
	var want, got []string
	for _, m := range w.ps {
		if m.online {
			want = append(want, fmt.Sprint(m.pid))
		}
	}
	for _, p := range core.WorldMgrObj.GetAllPlayers() {
		got = append(got, fmt.Sprint(p.PID))
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		w.c.Fail("world", "%s: players %v are online, the world has %v", when, want, got)
	}
	for g := 0; g < 200; g++ {
		want, got = nil, nil
		for _, m := range w.ps {
			if x, y := cell(m.at); m.online && y*10+x == g {
				want = append(want, fmt.Sprint(m.pid))
			}
		}
		for _, pid := range core.WorldMgrObj.AoiMgr.GetPIDsByGID(g) {
			got = append(got, fmt.Sprint(pid))
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			w.c.Fail("grid", "%s: players %v are in grid %d, it lists %v", when, want, g, got)
		}
	}
}

func c27Serial(c *Ctx) {
	r := c.R
	w := newMMO(c)
	chat := 0
	for k, n := 0, r.rng(6, 24); k < n; k++ {
		kind, who, to := r.n(10), r.n(1000), drawPos(r)
		step := r.p(300)
		dx, dz := float32(r.n(41)-20), float32(r.n(25)-12)
		how := r.picks("close", "abrupt")
		if !c.Op() {
			continue
		}
		var on []*mplayer
		for _, m := range w.ps {
			if m.online {
				on = append(on, m)
			}
		}
		if len(on) < 2 {
			kind = 0
		}
		what := ""
		var mover *mplayer
		before := make([]int, len(w.ps))
		switch {
		case kind <= 1 && len(on) < 7:
			m := w.join()
			what = m.name() + " has joined"
		case kind == 2:
			m := on[who%len(on)]
			m.leave(how)
			what = m.name() + " has left"
		case kind == 3:
			m := on[who%len(on)]
			chat++
			m.send(2, &pb.Talk{Content: fmt.Sprint("hello ", chat)})
			what = m.name() + " has spoken"
			time.Sleep(3 * sec)
			for _, q := range on {
				if got := *q.chats.at(fmt.Sprintf("%d:hello %d", m.pid, chat)); got != 1 {
					c.Fail("chat", "%s: %s hears it %d times", what, q.name(), got)
				}
			}
		default:
			m := on[who%len(on)]
			if step {
				to.x, to.z = m.at.x+dx, m.at.z+dz
			}
			for i, q := range w.ps {
				before[i] = *q.moves.at(m.pid)
			}
			mover = m
			m.move(to)
			what = fmt.Sprintf("%s has moved to %v", m.name(), to)
		}
		time.Sleep(8 * sec) // 200 ms for each player met or parted with
		c.Logf("%s", what)
		w.structure(what)
		for i, q := range w.ps {
			if !q.online {
				continue
			}
			if mover != nil {
				want := 0
				if near(q.at, mover.at) {
					want = 1
				}
				if got := *q.moves.at(mover.pid) - before[i]; got != want {
					c.Fail("move", "%s: %s at %v is told %d times", what, q.name(), q.at, got)
				}
			}
			for _, m := range w.ps {
				if m == q {
					continue
				}
				v := *q.view.at(m.pid)
				switch {
				case m.online && near(m.at, q.at) && v == nil:
					c.Fail("unseen", "%s: %s at %v does not see %s at %v", what, q.name(), q.at, m.name(), m.at)
				case m.online && near(m.at, q.at) && *v != m.at:
					c.Fail("place", "%s: %s sees %s at %v, it is at %v", what, q.name(), m.name(), *v, m.at)
				case !m.online && v != nil:
					c.Fail("ghost", "%s: %s sees %s, who has left", what, q.name(), m.name())
				case m.online && !near(m.at, q.at) && v != nil:
					c.Fail("far", "%s: %s at %v sees %s at %v", what, q.name(), q.at, m.name(), m.at)
				}
			}
		}
		if c.Failed() {
			return
		}
		c.Count("steps", 1)
	}
}

func c27Crowd(c *Ctx) {
	r := c.R
	w := newMMO(c)
	type talk struct {
		by      *mplayer
		text    string
		at, end time.Duration
		ok      bool
	}
	var talks []*talk
	type step struct {
		by *mplayer
		to mpos
		at time.Duration
	}
	var steps []*step
	done, n := 0, r.rng(2, 9)
	lives := r.rng(1, 3)
	for j := 0; j < n*lives; j++ {
		life := j / n
		type act struct {
			kind int
			to   mpos
			gap  time.Duration
		}
		var as []act
		statue := r.p(400) // never moves
		for k, q := 0, r.rng(1, 8); k < q; k++ {
			a := act{r.pick(0, 0, 0, 1, 1, 2), drawPos(r), time.Duration(r.pick(0, 1, 50, 400)) * ms}
			if c.Op() {
				as = append(as, a)
			}
		}
		if statue {
			for k := range as {
				as[k].kind = max(as[k].kind, 1)
			}
		}
		wait := time.Duration(r.pick(0, 0, r.n(300), r.n(3000))) * ms
		how := r.picks("", "", "close", "abrupt")
		if life < lives-1 && how == "" {
			how = "close"
		}
		go func() {
			defer func() { done++ }()
			time.Sleep(wait)
			m := w.join()
			for k, a := range as {
				switch a.kind {
				case 0:
					st := &step{by: m, to: a.to, at: c.Now()}
					m.moved = true
					if m.move(a.to) == nil {
						steps = append(steps, st)
					}
				case 1:
					t := &talk{by: m, text: fmt.Sprintf("%d of %d", k, j), at: c.Now()}
					talks = append(talks, t)
					t.ok = m.send(2, &pb.Talk{Content: t.text}) == nil
				case 2: // nonsense
					m.p.send(uint32(2+k%2), []byte{0xff, 0xff, byte(k)})
				}
				time.Sleep(a.gap)
			}
			if how != "" {
				m.leave(how)
			}
		}()
	}
	if !c.until(120*sec, func() bool { return done == n*lives }) {
		c.Fail("stuck", "%d of %d players are done after 2 min", done, n*lives)
		return
	}
	time.Sleep(time.Duration(4*n*n+60) * sec) // one worker may have it all to do
	w.structure("when all is quiet")
	for _, t := range talks {
		if !t.ok || !t.by.online {
			continue
		}
		for _, q := range w.ps {
			if got := *q.chats.at(fmt.Sprintf("%d:%s", t.by.pid, t.text)); got > 1 || got == 0 && q.online && q.joined+sec < t.at {
				c.Fail("chat", "%s says %q, %s hears it %d times", t.by.name(), t.text, q.name(), got)
			}
		}
	}
	// one that stays where it is is told of every move near it, and sees everyone else who stays
	for _, q := range w.ps {
		if !q.online || q.moved {
			continue
		}
		for _, m := range w.ps {
			if m == q || !m.online {
				continue
			}
			least, most := 0, 0
			for _, st := range steps {
				if st.by == m && near(st.to, q.at) {
					most++
					if st.at > q.joined+sec {
						least++
					}
				}
			}
			if got := *q.moves.at(m.pid); got < least || got > most {
				c.Fail("move", "%s makes %d moves (%d of them in time) near %s, who stays at %v and is told of %d", m.name(), most, least, q.name(), q.at, got)
			}
			if !m.moved && near(m.at, q.at) && *q.view.at(m.pid) == nil {
				c.Fail("unseen", "%s, who stays at %v, does not see %s, who stays at %v", q.name(), q.at, m.name(), m.at)
			}
		}
	}
	// now one after the other: everyone around is told of a step
	for _, m := range w.ps {
		if !m.online {
			continue
		}
		before := make([]int, len(w.ps))
		for i, q := range w.ps {
			before[i] = *q.moves.at(m.pid)
		}
		m.move(m.at)
		time.Sleep(3 * sec)
		for i, q := range w.ps {
			want := 0
			if near(q.at, m.at) {
				want = 1
			}
			if got := *q.moves.at(m.pid) - before[i]; q.online && got != want {
				c.Fail("move", "in the end %s steps at %v, %s at %v is told %d times", m.name(), m.at, q.name(), q.at, got)
			}
		}
	}
	c.Count("players", len(w.ps))
}
