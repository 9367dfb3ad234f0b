package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/aceld/zinx/zlog"
)

// C25: every log call at an enabled level writes one whole line with the header
// the flags ask for, to the output in effect; calls below the level write nothing.

func init() {
	props["C25"] = []scenario{
		{name: "log-lines", weight: 1, stall: 30 * ms, late: 5 * ms, run: c25Lines},
	}
}

type logSet struct { // one state of the logger
	level, flags int
	prefix       string
	from, to     int  // ticks between which it may be in effect
	open         bool // still in effect
}

type logCall struct {
	id         int
	who        int
	level      int
	text       string // what the line says after its header
	file       string
	line       int
	from, to   int
	t0, t1     time.Time
	done       bool
	must, may  bool
	seen, hook int
}

type c25 struct {
	c     *Ctx
	tick  int
	sets  []*logSet
	calls []*logCall
	empty int // lines without text
}

var logLevels = []string{"[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[PANIC]", "[FATAL]"}

func (l *c25) now() int { l.tick++; return l.tick }

// change makes the logger's next state; f applies it.
func (l *c25) change(n logSet, f func()) {
	old := l.sets[len(l.sets)-1]
	s := &n
	s.from, s.open = l.now(), true
	l.sets = append(l.sets, s)
	f()
	old.to, old.open = l.now(), false
}

// during returns the states that may have been in effect in a call.
func (l *c25) during(k *logCall) []*logSet {
	var r []*logSet
	for _, s := range l.sets {
		if s.from < k.to && (s.open || s.to > k.from) {
			r = append(r, s)
		}
	}
	return r
}

func c25Lines(c *Ctx) {
	r := c.R
	l := &c25{c: c}
	std := r.p(500)
	out := r.picks("stderr", "stderr", "file", "file+cons")
	hook := r.p(300)
	flagsOf := func() int {
		f := r.pick(zlog.BitDate, zlog.BitTime, zlog.BitStdFlag, zlog.BitMicroSeconds, zlog.BitStdFlag|zlog.BitMicroSeconds, 0)
		f |= r.pick(0, 0, zlog.BitLevel)
		f |= r.pick(0, zlog.BitShortFile, zlog.BitLongFile, zlog.BitShortFile|zlog.BitLongFile)
		return f
	}
	prefixOf := func() string { return r.picks("", "", "zinx", "a b") }
	first := logSet{flags: flagsOf(), prefix: prefixOf(), open: true}
	if std && r.p(300) {
		first.flags, first.prefix = zlog.BitDefault, ""
	}
	callers, changes := r.rng(1, 4), r.pick(0, 0, 1, 4)
	c.Shape("std=%v out=%s hook=%v callers=%d changes=%d", std, out, hook, callers, changes)

	// another day, another time of day
	time.Sleep(time.Duration(r.n(r.pick(1, 86400, 400*86400)))*sec + time.Duration(r.n(1000000))*time.Microsecond)
	// the standard error and output of the process
	os.MkdirAll("/simfs/std", 0o755)
	realErr, realOut := os.Stderr, os.Stdout
	os.Stderr, _ = os.OpenFile("/simfs/std/err", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	os.Stdout, _ = os.OpenFile("/simfs/std/out", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	defer func() { os.Stderr, os.Stdout = realErr, realOut }()

	lg := zlog.StdZinxLog
	zlog.SetLogger(stdLogger)
	if !std {
		lg = zlog.NewZinxLog(first.prefix, first.flags)
		runtime.SetFinalizer(lg, nil)
	} else if first.flags != zlog.BitDefault || first.prefix != "" {
		zlog.ResetFlags(first.flags)
		zlog.SetPrefix(first.prefix)
	}
	l.sets = []*logSet{&first}
	if out != "stderr" {
		lg.SetLogFile("/simfs/lg", "app.log")
		lg.SetCons(out == "file+cons")
	}
	var hooked [][]byte
	if hook {
		lg.SetLogHook(func(b []byte) { hooked = append(hooked, append([]byte(nil), b...)) })
	}
	empty, er := r.p(200), r.fork()
	left := 0
	for i := 0; i < callers; i++ {
		pr := r.fork()
		n := r.rng(1, 8)
		if !c.Op() {
			continue
		}
		left++
		go func() {
			for k := 0; k < n; k++ {
				if pr.p(300) {
					time.Sleep(time.Duration(pr.n(2000)) * time.Microsecond)
				}
				l.one(lg, std, pr, i)
			}
			left--
		}()
	}
	for i := 0; i < changes; i++ {
		d := time.Duration(r.n(3000)) * time.Microsecond
		kind := r.n(4)
		n, f := logSet{level: r.n(5)}, flagsOf()
		pfx := prefixOf()
		if !c.Op() {
			continue
		}
		time.Sleep(d)
		old := l.sets[len(l.sets)-1]
		level := n.level
		n = *old
		switch kind {
		case 0:
			n.level = level
			l.change(n, func() {
				if std {
					zlog.SetLogLevel(level)
				} else {
					lg.SetLogLevel(level)
				}
			})
		case 1:
			n.flags = f
			l.change(n, func() {
				if std {
					zlog.ResetFlags(f)
				} else {
					lg.ResetFlags(f)
				}
			})
		case 2:
			n.flags |= f
			l.change(n, func() {
				if std {
					zlog.AddFlag(f)
				} else {
					lg.AddFlag(f)
				}
			})
		case 3:
			n.prefix = pfx
			l.change(n, func() {
				if std {
					zlog.SetPrefix(pfx)
				} else {
					lg.SetPrefix(pfx)
				}
			})
		}
		c.Logf("change %d: %+v", kind, n)
		if g := lg.Flags(); g != n.flags {
			c.Fail("flags", "the flags are %x after they were set to %x", g, n.flags)
		}
	}
	lim := 30*sec + time.Duration(c.NStall)*c.Stall
	if !c.until(lim, func() bool { return left == 0 }) {
		c.Fail("stuck", "a log call does not return")
		return
	}
	if empty { // its line ends as well
		last := l.sets[len(l.sets)-1]
		if last.level <= zlog.LogInfo {
			l.empty = 1
		}
		lg.Infof("")
		l.one(lg, std, er, 0)
	}
	if out != "stderr" {
		time.Sleep(5*sec + 500*ms + time.Duration(c.NStall+1)*c.Stall + 4*c.Late)
	}
	for _, k := range l.calls {
		k.may, k.must = false, true
		for _, s := range l.during(k) {
			if k.level >= s.level {
				k.may = true
			} else {
				k.must = false
			}
		}
	}
	var fileLog, errLog []byte
	ns, ds := os.SimFSFiles()
	for i, n := range ns {
		switch {
		case n == "/simfs/std/err":
			errLog = ds[i]
		case strings.HasPrefix(n, "/simfs/lg/"):
			fileLog = append(fileLog, ds[i]...)
		}
	}
	switch out {
	case "stderr":
		l.judge("standard error", errLog)
	case "file":
		l.judge("the log file", fileLog)
		if len(errLog) > 0 {
			c.Fail("stray", "standard error gets %q with a log file set", firstLine(errLog))
		}
	case "file+cons":
		l.judge("the log file", fileLog)
		if !bytes.Equal(fileLog, errLog) {
			c.Fail("console", "standard error and the log file differ: %d and %d bytes", len(errLog), len(fileLog))
		}
	}
	if hook {
		var all []byte
		for _, b := range hooked {
			all = append(all, b...)
		}
		want := errLog
		if out != "stderr" {
			want = fileLog
		}
		if !bytes.Equal(all, want) {
			c.Fail("hook", "the hook was given %d lines, %d bytes, %d bytes were written", len(hooked), len(all), len(want))
		}
	}
	c.Count("lines", len(l.calls))
}

func firstLine(b []byte) string {
	s, _, _ := strings.Cut(string(b), "\n")
	return s
}

// one makes one log call.
func (l *c25) one(lg *zlog.ZinxLoggerCore, std bool, r *rng, who int) {
	id := len(l.calls)
	k := &logCall{id: id, who: who}
	l.calls = append(l.calls, k)
	body := fmt.Sprintf("#%d#", id)
	switch r.n(5) {
	case 0:
		body += strings.Repeat("x", r.n(300))
	case 1:
		body += " %d 100% <b> : [INFO] "
	}
	k.text = body
	way := r.n(2)
	nl := r.p(200)
	f := "%s"
	if nl {
		f = "%s\n"
	}
	k.level = r.pick(0, 0, 1, 1, 2, 3, 3, 4)
	ins := std && r.p(400)
	if ins {
		k.level = r.pick(0, 1, 3)
	}
	k.from, k.t0 = l.now(), time.Now()
	defer func() {
		if k.level == zlog.LogPanic {
			if e := recover(); e == nil {
				l.c.Fail("panic", "Panic returned")
			}
		}
		k.to, k.t1, k.done = l.now(), time.Now(), true
	}()
	at := func() { _, k.file, k.line, _ = runtime.Caller(1); k.line++ }
	x := context.TODO()
	switch {
	case ins:
		fx := way == 1
		switch {
		case k.level == 0 && fx:
			at()
			zlog.Ins().DebugFX(x, f, body)
		case k.level == 0:
			at()
			zlog.Ins().DebugF(f, body)
		case k.level == 1 && fx:
			at()
			zlog.Ins().InfoFX(x, f, body)
		case k.level == 1:
			at()
			zlog.Ins().InfoF(f, body)
		case fx:
			at()
			zlog.Ins().ErrorFX(x, f, body)
		default:
			at()
			zlog.Ins().ErrorF(f, body)
		}
	case std && way == 0:
		switch k.level {
		case 0:
			at()
			zlog.Debugf(f, body)
		case 1:
			at()
			zlog.Infof(f, body)
		case 2:
			at()
			zlog.Warnf(f, body)
		case 3:
			at()
			zlog.Errorf(f, body)
		case 4:
			at()
			zlog.Panicf(f, body)
		}
	case std:
		switch k.level {
		case 0:
			at()
			zlog.Debug(body)
		case 1:
			at()
			zlog.Info(body)
		case 2:
			at()
			zlog.Warn(body)
		case 3:
			at()
			zlog.Error(body)
		case 4:
			at()
			zlog.Panic(body)
		}
	case way == 0:
		switch k.level {
		case 0:
			at()
			lg.Debugf(f, body)
		case 1:
			at()
			lg.Infof(f, body)
		case 2:
			at()
			lg.Warnf(f, body)
		case 3:
			at()
			lg.Errorf(f, body)
		case 4:
			at()
			lg.Panicf(f, body)
		}
	default:
		switch k.level {
		case 0:
			at()
			lg.Debug(body)
		case 1:
			at()
			lg.Info(body)
		case 2:
			at()
			lg.Warn(body)
		case 3:
			at()
			lg.Error(body)
		case 4:
			at()
			lg.Panic(body)
		}
	}
}

func (l *c25) judge(where string, b []byte) {
	c := l.c
	last := make([]int, 8) // per caller, the call last seen
	for i := range last {
		last[i] = -1
	}
	if len(b) > 0 && b[len(b)-1] != '\n' {
		c.Fail("cut", "%s does not end with a whole line", where)
	}
	for _, s := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if s == "" && len(b) == 0 {
			continue
		}
		id := -1
		if i := strings.Index(s, "#"); i >= 0 {
			fmt.Sscanf(s[i:], "#%d#", &id)
		}
		if id < 0 && l.empty > 0 && !strings.Contains(s, "#") {
			l.empty--
			continue
		}
		if id < 0 || id >= len(l.calls) {
			c.Fail("foreign-line", "%s has the line %q", where, s)
			continue
		}
		k := l.calls[id]
		k.seen++
		if k.seen == 2 {
			c.Fail("twice", "%s has a line twice: %q", where, s)
		}
		if !k.may {
			c.Fail("not-suppressed", "%s has the line %q, its level was disabled", where, s)
		}
		if last[k.who] > id {
			c.Fail("order", "%s has line %d after line %d of the same caller", where, id, last[k.who])
		}
		last[k.who] = id
		ok := false
		var want string
		for _, t := range l.during(k) {
			good, w := k.match(t, s)
			ok = ok || good
			want = w
		}
		if !ok {
			c.Fail("line", "%s has the line %q, expected %s", where, s, want)
		}
	}
	for _, k := range l.calls {
		if k.must && k.seen == 0 {
			c.Fail("missing", "%s lacks line %d (level %d)", where, k.id, k.level)
		}
	}
}

// match compares a line with what state t makes of call k.
func (k *logCall) match(t *logSet, s string) (bool, string) {
	layout := ""
	if t.flags&zlog.BitDate != 0 {
		layout += "2006/01/02 "
	}
	unit := time.Second
	if t.flags&(zlog.BitTime|zlog.BitMicroSeconds) != 0 {
		layout += "15:04:05"
		if t.flags&zlog.BitMicroSeconds != 0 {
			layout += ".000000"
			unit = time.Microsecond
		}
		layout += " "
	} else {
		unit = 24 * time.Hour
	}
	rest := ""
	if t.flags&zlog.BitLevel != 0 {
		rest += logLevels[k.level]
	}
	if t.flags&(zlog.BitShortFile|zlog.BitLongFile) != 0 {
		f := k.file
		if t.flags&zlog.BitShortFile != 0 {
			f = filepath.Base(f)
		}
		rest += fmt.Sprintf("%s:%d: ", f, k.line)
	}
	rest += k.text
	pfx := ""
	if t.prefix != "" {
		pfx = "<" + t.prefix + ">"
	}
	want := fmt.Sprintf("%q + time like %q between %v and %v + %q", pfx, layout, k.t0.Format(time.StampMicro), k.t1.Format(time.StampMicro), rest)
	if !strings.HasPrefix(s, pfx) {
		return false, want
	}
	s = s[len(pfx):]
	if len(s) < len(layout) || s[len(layout):] != rest {
		return false, want
	}
	if layout == "" {
		return true, want
	}
	got, err := time.ParseInLocation(layout, s[:len(layout)], time.Local)
	if err != nil {
		return false, want
	}
	if t.flags&zlog.BitDate == 0 { // the day is not given
		y, m, d := k.t0.Date()
		got = time.Date(y, m, d, got.Hour(), got.Minute(), got.Second(), got.Nanosecond(), time.Local)
		if got.Add(12 * time.Hour).Before(k.t0) {
			got = got.AddDate(0, 0, 1)
		}
	}
	lo := k.t0.Truncate(unit)
	if unit == 24*time.Hour {
		y, m, d := k.t0.Date()
		lo = time.Date(y, m, d, 0, 0, 0, 0, time.Local)
	}
	return !got.Before(lo) && !got.After(k.t1), want
}
