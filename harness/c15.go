package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/zutils"
)

// C15: the log file keeps every accepted line whole, once and in order, through
// rotation, file-system errors and crashes.

func init() {
	props["C15"] = []scenario{
		{name: "lines", weight: 4, stall: 100 * ms, late: 20 * ms, run: c15Lines},
		{name: "errors", weight: 4, stall: 100 * ms, late: 20 * ms, run: c15Errors},
		{name: "crash", weight: 4, stall: 100 * ms, late: 20 * ms, run: c15Crash},
		{name: "fatal", weight: 1, stall: 100 * ms, late: 20 * ms, run: c15Fatal},
	}
}

const c15Dir = "/simfs/log"

type lineRec struct {
	who, seq  int
	text      string
	at, back  time.Duration
	ret, ok   bool
	life, day int
	found     int
	err       error
}

type c15 struct {
	c     *Ctx
	recs  []*lineRec
	life  int
	torn  bool // fragments may occur
	slow  int  // slow operations, per 1000
	slowN int
	dr    *rng
	fsops int
	// in a run without file-system errors: no file is larger, none spans two days
	maxSize int64

	// errors
	failing bool
	fails   map[string]int // operation -> rate per 1000
	errs    int
	wFrom   []time.Duration
	wTo     []time.Duration

	// crash at the n-th operation of the living process
	killAt int
	dead   bool
	diedAt []time.Duration
}

func newC15(c *Ctx) *c15 {
	l := &c15{c: c, dr: newRng(c.F.u(), 7)}
	if c.Fault("slow-disk", 500) {
		l.slow = c.F.pick(20, 200, 600)
	}
	os.SimFSHook = l.hook
	return l
}

// hook decides about every call that reaches the file system.
func (l *c15) hook(o os.SimFSOp) os.SimFSVerdict {
	if runtime.SimGroup() != 0 {
		l.fsops++
		if l.killAt > 0 && l.fsops == l.killAt {
			l.crash()
			select {}
		}
	}
	var v os.SimFSVerdict
	d := time.Duration(2+l.dr.n(20)) * time.Microsecond
	if l.slow > 0 && l.dr.n(1000) < l.slow {
		d = time.Duration(l.dr.n(l.dr.pick(300, 3000, 30000))) * time.Microsecond
		l.c.Count("fault.disk_slow", 1)
	}
	time.Sleep(d)
	if o.Op == "write" && o.Len > 1 && l.dr.n(4) == 0 {
		v.Split = 1 + l.dr.n(o.Len-1)
		g := runtime.SimGroup()
		v.Pause = func() {
			if g != 0 {
				l.fsops++
				if l.killAt > 0 && l.fsops == l.killAt {
					l.crash()
					select {}
				}
			}
			time.Sleep(time.Duration(l.dr.n(300)) * time.Microsecond)
		}
	}
	if l.failing {
		if p := l.fails[o.Op]; p > 0 && l.dr.n(1000) < p {
			l.errs++
			l.c.Count("fault.disk_"+o.Op, 1)
			v = os.SimFSVerdict{Err: []error{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EMFILE}[l.dr.n(4)]}
			if o.Op == "write" {
				v.Err = []error{syscall.ENOSPC, syscall.EIO}[l.dr.n(2)]
				if l.dr.n(2) == 0 {
					v.N = l.dr.n(o.Len)
				}
			}
		}
	}
	return v
}

// crash kills the living process.
func (l *c15) crash() {
	if l.dead {
		return
	}
	l.dead = true
	l.torn = true
	l.diedAt = append(l.diedAt, l.c.Now())
	l.c.Count("fault.process_crash", 1)
	l.c.Logf("the process dies")
	runtime.SimKill(l.life)
}

func c15Text(who, seq, size int) string {
	b := []byte(fmt.Sprintf("w%d.%d:", who, seq))
	for i := 0; len(b) < size; i++ {
		b = append(b, byte('a'+(who*7+seq*13+i)%26))
	}
	return string(append(b, ';'))
}

// sink is one of the two ways to log.
type sink interface {
	line(s string) error
}

type coreSink struct {
	lg *zlog.ZinxLoggerCore
}

func (s coreSink) line(t string) error { return s.lg.OutPut(zlog.LogInfo, t) }

type fileSink struct{ w *zutils.Writer }

func (s fileSink) line(t string) error {
	n, err := s.w.Write([]byte(t + "\n"))
	if err == nil && n != len(t)+1 {
		return io.ErrShortWrite
	}
	return err
}

func (l *c15) log(s sink, who, seq, size int) *lineRec {
	r := &lineRec{who: who, seq: seq, text: c15Text(who, seq, size), at: l.c.Now(), life: l.life}
	defer func() { r.day = time.Now().YearDay() }()
	l.recs = append(l.recs, r)
	err := s.line(r.text)
	r.ret, r.ok, r.back, r.err = true, err == nil, l.c.Now(), err
	return r
}

// files reads the log directory as a user would: the rotated files and archives
// in the order of their names, the current file last.
func (l *c15) files(base string) (out [][]byte, names []string) {
	ns, ds := os.SimFSFiles()
	type ent struct {
		name string
		data []byte
	}
	has := func(n string) bool {
		for _, x := range ns {
			if x == n {
				return true
			}
		}
		return false
	}
	var es []ent
	var cur *ent
	for i, n := range ns {
		n2, ok := strings.CutPrefix(n, c15Dir+"/"+base+".")
		if !ok {
			continue
		}
		switch {
		case n2 == "log":
			cur = &ent{n, ds[i]}
		case strings.HasSuffix(n2, ".log"):
			es = append(es, ent{n, ds[i]})
		case strings.HasSuffix(n2, ".zip"):
			if has(strings.TrimSuffix(n, ".zip") + ".log") {
				continue // not finished, or its original not yet removed
			}
			if bytes.Equal(ds[i], []byte("old")) {
				continue // put there by the scenario
			}
			b, err := unzip(ds[i])
			if err != nil {
				l.c.Fail("archive", "the archive %s cannot be read (%v) and its original is gone", n, err)
				continue
			}
			es = append(es, ent{n, b})
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		return es[i].name[:len(es[i].name)-4] < es[j].name[:len(es[j].name)-4]
	})
	if cur != nil {
		es = append(es, *cur)
	}
	for _, e := range es {
		out, names = append(out, e.data), append(names, e.name)
	}
	return
}

func unzip(b []byte) ([]byte, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	var out []byte
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out = append(out, d...)
	}
	return out, nil
}

// judge compares the files with what was logged.  Lines for which need is false
// may be missing.
func (l *c15) judge(when string, bases []string, order bool, need func(*lineRec) bool) {
	idx := map[string]*lineRec{}
	for _, r := range l.recs {
		r.found = 0
		idx[r.text] = r
	}
	last := map[[2]int]int{}
	nf := 0
	for bi, b := range bases {
		fs, names := l.files(b)
		nf += len(fs)
		for i, d := range fs {
			size, nl := len(d), 0
			var in []*lineRec
			for len(d) > 0 {
				k := bytes.IndexByte(d, '\n')
				ln := d
				if k >= 0 {
					ln, d = d[:k], d[k+1:]
				} else {
					d = nil
					if !l.torn {
						l.c.Fail("cut", "%s: %s ends in the middle of a line: %s", when, names[i], short(ln))
						return
					}
				}
				r := idx[string(ln)]
				if r == nil && l.torn { // a fragment may stand before it
					for at := len(ln) - 1; at > 0 && r == nil; at-- {
						if ln[at] == 'w' {
							r = idx[string(ln[at:])]
						}
					}
				}
				if r == nil {
					if l.torn {
						continue
					}
					l.c.Fail("mixed", "%s: %s has a line nobody logged: %s", when, names[i], short(ln))
					return
				}
				r.found++
				nl++
				in = append(in, r)
				if r.found > 1 {
					l.c.Fail("twice", "%s: line %d of caller %d is in the files %d times", when, r.seq, r.who, r.found)
					return
				}
				if order {
					k := [2]int{bi, r.who}
					if r.seq < last[k] {
						l.c.Fail("order", "%s: line %d of caller %d stands after line %d (%s)", when, r.seq, r.who, last[k], names[i])
						return
					}
					last[k] = r.seq
				}
			}
			if l.maxSize > 0 && bi == 0 && nl > 1 && int64(size) > l.maxSize {
				l.c.Fail("size", "%s: %s has %d bytes in %d lines, the maximum is %d", when, names[i], size, nl, l.maxSize)
			}
			// a restart goes by the time of the last flush
			for k := 1; k < len(in) && l.maxSize > 0; k++ {
				a, b := in[k-1], in[k]
				if a.ret && l.wall(a.back+l.flushTime())/86400 < l.wall(b.at)/86400 {
					l.c.Fail("day", "%s: %s goes on over midnight, from line %d of caller %d to line %d of caller %d", when, names[i], a.seq, a.who, b.seq, b.who)
					break
				}
			}
		}
	}
	miss := 0
	var ex *lineRec
	for _, r := range l.recs {
		if r.ret && r.ok && r.found == 0 && need(r) {
			miss++
			if ex == nil {
				ex = r
			}
		}
	}
	if miss > 0 {
		l.c.Fail("lost", "%s: %d of %d accepted lines are in no file, e.g. line %d of caller %d, logged at %v (now %v)", when, miss, len(l.recs), ex.seq, ex.who, ex.at, l.c.Now())
	}
	l.c.Count("lines_logged", len(l.recs))
	l.c.Count("files_read", nf)
}

// wall is the wall clock in seconds at t of the run.
func (l *c15) wall(t time.Duration) int64 {
	return time.Now().Add(t - l.c.Now()).Unix()
}

type c15Plan struct {
	core    bool
	maxSize int64
	callers int
	lines   int
	gap     int // µs
	big     int // per 1000
	age     int
}

func drawC15(r *rng) c15Plan {
	p := c15Plan{core: r.p(600), callers: r.rng(1, 4), lines: r.pick(3, 10, 25, 50), gap: r.pick(0, 0, 200, 5000, 300000), big: r.pick(0, 0, 50), age: r.pick(31, 31, 1, 0, 400)}
	p.maxSize = int64(r.pick(300, 1000, 5000, 50000))
	if p.big > 0 && p.maxSize < 1000 {
		p.maxSize = 5000
	}
	return p
}

func (l *c15) open(p c15Plan, base string) (sink, *zutils.Writer, *zlog.ZinxLoggerCore) {
	if p.core {
		lg := zlog.NewZinxLog("", 0)
		runtime.SetFinalizer(lg, nil)
		lg.SetLogFile(c15Dir, base+".log")
		lg.SetMaxSize(p.maxSize)
		lg.SetMaxAge(p.age)
		return coreSink{lg}, nil, lg
	}
	w := zutils.New(c15Dir + "/" + base + ".log")
	w.SetMaxSize(p.maxSize)
	w.SetMaxAge(p.age)
	return fileSink{w}, w, nil
}

// callers starts the logging goroutines; they count down *left.
func (l *c15) callers(p c15Plan, s sink, left *int, from int) {
	for i := 0; i < p.callers; i++ {
		pr := l.c.R.fork()
		n := l.c.R.rng(1, p.lines)
		if !l.c.Op() {
			continue
		}
		*left++
		who := from + i
		go func() {
			for k := 0; k < n; k++ {
				sz := pr.rng(8, 200)
				if pr.p(p.big) {
					sz = pr.rng(3000, 9000)
				}
				l.log(s, who, k+1, sz)
				if p.gap > 0 && pr.p(700) {
					time.Sleep(time.Duration(pr.n(p.gap)) * time.Microsecond)
				}
			}
			*left--
		}()
	}
}

// toMidnight sleeps until shortly before the date changes.
func (l *c15) toMidnight(before time.Duration) {
	now := time.Now()
	next := time.Date(now.Year(), now.Month(), now.Day()+1, 0, 0, 0, 0, now.Location())
	if d := next.Sub(now) - before; d > 0 {
		time.Sleep(d)
	}
}

func (l *c15) flushTime() time.Duration {
	return 5*sec + 500*ms + time.Duration(l.c.NStall+1)*l.c.Stall + 4*l.c.Late
}

func c15Lines(c *Ctx) {
	r := c.R
	l := newC15(c)
	p := drawC15(r)
	l.maxSize = p.maxSize
	night := r.p(350)
	switches := 0
	if r.p(300) {
		switches = r.rng(1, 4)
	}
	c.Shape("core=%v max=%d callers=%d lines=%d gap=%d night=%v switches=%d age=%d", p.core, p.maxSize, p.callers, p.lines, p.gap, night, switches, p.age)
	os.MkdirAll(c15Dir, 0o755)
	keep := []string{"other.2020-01-01-000000.000000.zip", "app.txt", "appx.2020-01-01-000000.000000.zip", "notes.zip", "app.log.1", "app-2020-01-01.zip"}
	old := "app.2020-01-02-030405.000006.zip"
	young := "app.2023-11-14-010203.000004.zip"
	for _, n := range append(append([]string(nil), keep...), old, young) {
		os.SimFSPut(c15Dir+"/"+n, []byte("old"))
	}
	dirs := []string{"app.2020-01-03-030405.000006.zip", "app.2020-01-04-030405.000006"} // named like the log's own, but directories
	for _, n := range dirs {
		if err := os.MkdirAll(c15Dir+"/"+n, 0o755); err != nil {
			c.Fail("harness", "%v", err)
		}
	}
	if night {
		l.toMidnight(time.Duration(r.n(3000)) * ms)
	}
	day := time.Now().YearDay()
	s, w, lg := l.open(p, "app")
	bases := []string{"app"}
	if lg != nil && switches > 0 {
		bases = append(bases, "bpp")
	}
	left := 0
	l.callers(p, s, &left, 0)
	// meanwhile the file is closed, or another one is chosen
	for i := 0; i < switches; i++ {
		d, b := time.Duration(r.n(r.pick(200, 5000, 400000)))*time.Microsecond, r.picks("app", "bpp")
		if !c.Op() {
			continue
		}
		time.Sleep(d)
		if w != nil {
			w.Close()
			c.Count("closes", 1)
		} else if b == "bpp" { // once: two writers of one file are not promised to work
			lg.SetLogFile(c15Dir, b+".log")
			c.Count("closes", 1)
			break
		}
	}
	lim := 120*sec + time.Duration(c.NStall)*c.Stall
	if !c.until(lim, func() bool { return left == 0 }) {
		c.Fail("stuck", "%d callers have not finished logging in %v", left, lim)
		return
	}
	for _, x := range l.recs {
		if !x.ok {
			c.Fail("refused", "a line is refused (%v), the file system works", x.err)
			return
		}
	}
	if night {
		time.Sleep(4 * sec)
		l.log(s, 90, 1, 50)
	}
	time.Sleep(l.flushTime())
	l.judge("at the end", bases, switches == 0, func(*lineRec) bool { return true })
	ns, _ := os.SimFSFiles()
	has := func(n string) bool {
		for _, x := range ns {
			if x == c15Dir+"/"+n {
				return true
			}
		}
		return false
	}
	for _, n := range keep {
		if !has(n) {
			c.Fail("foreign-file", "a file that is not one of the log's own has been deleted: %s", n)
		}
	}
	for _, n := range dirs {
		if st, err := os.Stat(c15Dir + "/" + n); err != nil || !st.IsDir() {
			c.Fail("foreign-file", "a directory, which is no file of the log, has been deleted: %s", n)
		}
	}
	// the archives are looked through when a line finds that the date has changed
	crossed := false
	for _, x := range l.recs {
		if x.day == day {
			crossed = switches == 0 && night && time.Now().YearDay() != day
		}
	}
	if has(old) && crossed && p.age > 0 || !has(old) && p.age <= 0 {
		c.Fail("retention", "an archive of 2020 with a retention of %d days: still there %v (a day has passed: %v)", p.age, has(old), crossed)
	}
	if !has(young) && (p.age <= 0 || p.age > 2) {
		c.Fail("retention", "an archive of %s is deleted, the retention is %d days", young, p.age)
	}
	if crossed {
		c.Count("midnights", 1)
	}
}

func c15Errors(c *Ctx) {
	r := c.R
	l := newC15(c)
	p := drawC15(r)
	p.age = 31
	p.gap = r.pick(100000, 400000)
	night := r.p(300)
	l.fails = map[string]int{}
	for _, op := range []string{"open", "create", "write", "rename", "sync", "close", "stat", "remove", "readdir", "read", "mkdir"} {
		rate := c.F.pick(1000, 1000, 500, 100)
		if c.Fault("disk-"+op, 250) {
			l.fails[op] = rate
			if op == "write" {
				l.torn = true
			}
		}
	}
	c.Shape("core=%v max=%d callers=%d night=%v", p.core, p.maxSize, p.callers, night)
	early := c.Fault("disk-error-at-start", 150)
	if !early {
		os.MkdirAll(c15Dir, 0o755)
	} else {
		os.MkdirAll("/simfs", 0o755)
	}
	if night {
		l.toMidnight(time.Duration(4000+r.n(20000)) * ms)
	}
	begin := func() { l.failing = true; l.wFrom = append(l.wFrom, c.Now()); c.Logf("file-system errors start") }
	end := func() { l.failing = false; l.wTo = append(l.wTo, c.Now()); c.Logf("file-system errors stop") }
	if early {
		begin()
	}
	s, _, _ := l.open(p, "app")
	stop, left := false, 0
	for i := 0; i < p.callers; i++ {
		pr := r.fork()
		if !c.Op() && i > 0 {
			continue
		}
		left++
		go func() {
			for k := 1; !stop; k++ {
				sz := pr.rng(8, 200)
				if pr.p(p.big) {
					sz = pr.rng(3000, 9000)
				}
				l.log(s, i, k, sz)
				time.Sleep(time.Duration(1000+pr.n(p.gap)) * time.Microsecond)
			}
			left--
		}()
	}
	for i, n := 0, r.rng(1, 2); i < n; i++ {
		quiet, bad := time.Duration(r.n(20000))*ms, time.Duration(r.pick(1, 10, 300, 4000, 12000))*ms
		if !(early && i == 0) {
			time.Sleep(quiet)
			begin()
		}
		time.Sleep(bad)
		end()
	}
	time.Sleep(20 * sec)
	stop = true
	lim := 120 * sec
	if !c.until(lim, func() bool { return left == 0 }) {
		c.Fail("stuck", "%d callers have not finished logging in %v", left, lim)
		return
	}
	time.Sleep(l.flushTime())
	ft := l.flushTime()
	clear := func(x *lineRec) bool { // far enough from any error
		for i := range l.wFrom {
			if x.back > l.wFrom[i]-ft && x.at < l.wTo[i]+ft {
				return false
			}
		}
		return true
	}
	for _, x := range l.recs {
		if !x.ok && clear(x) {
			c.Fail("refused", "a line logged %v after the last file-system error is refused: %v", x.at-l.wTo[len(l.wTo)-1], x.err)
			return
		}
	}
	l.judge("after the errors", []string{"app"}, false, clear)
	c.Count("fault.disk_errors", l.errs)
}

func c15Crash(c *Ctx) {
	r := c.R
	l := newC15(c)
	p := drawC15(r)
	p.gap = r.pick(0, 2000, 100000, 600000)
	p.age = 400
	l.maxSize = p.maxSize
	night := r.p(300)
	lives := r.rng(2, 4)
	c.Shape("core=%v max=%d callers=%d lines=%d gap=%d night=%v lives=%d", p.core, p.maxSize, p.callers, p.lines, p.gap, night, lives)
	os.MkdirAll(c15Dir, 0o755)
	if night {
		l.toMidnight(time.Duration(r.n(40000)) * ms)
	}
	need := func(x *lineRec) bool {
		if x.life <= len(l.diedAt) {
			return x.back < l.diedAt[x.life-1]-l.flushTime()
		}
		return true
	}
	for life := 1; life <= lives && !c.Failed(); life++ {
		l.life, l.dead, l.fsops, l.killAt = life, false, 0, 0
		after := time.Duration(r.n(r.pick(10, 1000, 15000, 30000))) * ms
		byOp, opN := r.p(600), 1+r.n(r.pick(10, 60, 400))
		pause := time.Duration(10+r.n(r.pick(20, 2000, 20000))) * ms
		pr := r.fork()
		if byOp && life < lives {
			l.killAt = opN
		}
		left, up := 0, false
		go func() {
			runtime.SimSetGroup(life)
			s, _, _ := l.open(p, "app")
			for i := 0; i < p.callers; i++ {
				cr := pr.fork()
				n := pr.rng(1, p.lines)
				left++
				go func() {
					for k := 0; k < n; k++ {
						sz := cr.rng(8, 200)
						if cr.p(p.big) {
							sz = cr.rng(3000, 9000)
						}
						l.log(s, life*10+i, k+1, sz)
						if p.gap > 0 && cr.p(700) {
							time.Sleep(time.Duration(cr.n(p.gap)) * time.Microsecond)
						}
					}
					left--
				}()
			}
			up = true
		}()
		if life < lives {
			t := c.Now()
			c.until(60*sec, func() bool {
				return l.dead || (!byOp && c.Now()-t >= after) || (up && left == 0 && c.Now()-t > 20*sec)
			})
			l.crash()
			l.judge(fmt.Sprintf("after crash %d", life), []string{"app"}, true, need)
			time.Sleep(pause)
			continue
		}
		if !c.until(180*sec, func() bool { return up && left == 0 }) {
			c.Fail("stuck", "%d callers have not finished logging in 180s (up %v)", left, up)
			return
		}
		for _, x := range l.recs {
			if x.life == life && !x.ok {
				c.Fail("refused", "after a restart a line is refused: %v", x.err)
				return
			}
		}
		time.Sleep(l.flushTime())
		l.judge("at the end", []string{"app"}, true, need)
	}
}

func c15Fatal(c *Ctx) {
	r := c.R
	l := newC15(c)
	p := drawC15(r)
	p.core = true
	how := r.n(4)
	c.Shape("max=%d callers=%d how=%d", p.maxSize, p.callers, how)
	os.MkdirAll(c15Dir, 0o755)
	s, _, lg := l.open(p, "app")
	left := 0
	l.callers(p, s, &left, 0)
	wait := r.p(500)
	if wait {
		c.until(60*sec, func() bool { return left == 0 })
	} else {
		time.Sleep(time.Duration(r.n(5000)) * time.Microsecond)
	}
	last := &lineRec{who: 99, seq: 1, text: c15Text(99, 1, 60), ret: true, ok: true}
	var at time.Duration
	check := func() {
		l.torn = true // other callers may be in the middle of a line
		l.recs = append(l.recs, last)
		l.judge("when the process ends", []string{"app"}, false, func(x *lineRec) bool { return x == last || x.back < at })
	}
	os.SimFSExit = func(int) {
		check()
		c.finish()
	}
	at = c.Now()
	done := false
	go func() {
		defer func() {
			if recover() != nil {
				check()
			}
			done = true
		}()
		switch how {
		case 0:
			lg.Fatal(last.text)
		case 1:
			lg.Fatalf("%s", last.text)
		case 2:
			lg.Panic(last.text)
		default:
			lg.Panicf("%s", last.text)
		}
	}()
	if !c.until(60*sec, func() bool { return done }) {
		c.Fail("stuck", "a fatal line has not ended the process in 60s")
	}
}
