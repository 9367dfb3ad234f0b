package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	shmSize = 16384 + (8 << 20)
	logOff  = 16384
	siteOff = 4096
	siteLen = 8192
)

// job is one simulated run: everything that determines it.
type job struct {
	Prop    string     `json:"property"`
	Seed    uint64     `json:"seed"`       // workload, faults, network
	SSeed   uint64     `json:"sched_seed"` // schedule
	Scen    string     `json:"scenario,omitempty"`
	Drop    []int      `json:"dropped_ops,omitempty"`
	NoFault []string   `json:"disabled_faults,omitempty"`
	Sched   [][3]int64 `json:"schedule,omitempty"` // explicit decisions [kind, at, value]
	Fixed   bool       `json:"fixed_schedule"`     // follow Sched, not SSeed
	Verbose bool       `json:"-"`
}

type violation struct {
	Prop string `json:"property"`
	Sig  string `json:"signature"`
	Msg  string `json:"message"`
}

type result struct {
	Scen       string            `json:"scenario"`
	Violations []violation       `json:"violations"`
	Counters   map[string]uint64 `json:"counters"`
	Ops        int               `json:"ops"`
	Faults     []string          `json:"faults"`
	Trace      []string          `json:"trace"`
	Shape      string            `json:"shape"`
	SimNs      int64             `json:"sim_ns"`
	Note       string            `json:"note"`

	// from the scheduler's shared header
	Steps, Picks, Preempts, Hash, Stalls, Lates, MaxReady, Jumps uint64
	EndNow                                                       int64
	Sched                                                        [][3]int64
	Sites                                                        []byte
	Exit                                                         int
	Stderr                                                       string
	Infra                                                        string
	Wall                                                         time.Duration
}

func (r *result) bad() bool { return len(r.Violations) > 0 }

func (r *result) pretty() string {
	var b strings.Builder
	fmt.Fprintf(&b, "scenario=%s exit=%d steps=%d picks=%d preempts=%d stalls=%d lates=%d hash=%016x sim=%.3fs ops=%d shape=%s faults=%v wall=%v\n",
		r.Scen, r.Exit, r.Steps, r.Picks, r.Preempts, r.Stalls, r.Lates, r.Hash, float64(r.EndNow)/1e9, r.Ops, r.Shape, r.Faults, r.Wall)
	ks := make([]string, 0, len(r.Counters))
	for k := range r.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s=%d", k, r.Counters[k])
	}
	b.WriteString("\n")
	for _, t := range r.Trace {
		b.WriteString("  | " + t + "\n")
	}
	if r.Infra != "" {
		fmt.Fprintf(&b, "INFRA: %s\n", r.Infra)
	}
	for _, v := range r.Violations {
		fmt.Fprintf(&b, "VIOLATES %s [%s] %s\n", v.Prop, v.Sig, v.Msg)
	}
	if r.Stderr != "" {
		b.WriteString(r.Stderr + "\n")
	}
	return b.String()
}

type worker struct {
	id   int
	path string
	mem  []byte
	rep  string
	dir  string
}

func newWorker(id int) *worker {
	dir := filepath.Join(buildDir, fmt.Sprintf("w%d-%d", os.Getpid(), id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatalf("%v", err)
	}
	w := &worker{id: id, dir: dir, path: filepath.Join(dir, "shm"), rep: filepath.Join(dir, "rep")}
	f, err := os.OpenFile(w.path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fatalf("%v", err)
	}
	defer f.Close()
	if err := f.Truncate(shmSize); err != nil {
		fatalf("%v", err)
	}
	w.mem, err = syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("mmap: %v", err)
	}
	return w
}

func (w *worker) close() {
	syscall.Munmap(w.mem)
	os.RemoveAll(w.dir)
}

func (w *worker) run(j job) *result {
	r := w.run1(j)
	if r.Infra != "" {
		if r2 := w.run1(j); r2.Infra == "" {
			return r2
		}
	}
	return r
}

func (w *worker) run1(j job) *result {
	start := time.Now()
	for i := 0; i < logOff; i++ {
		w.mem[i] = 0
	}
	args := []string{"-prop", j.Prop, "-seed", strconv.FormatUint(j.Seed, 10), "-sseed", strconv.FormatUint(j.SSeed, 10), "-shm", w.path, "-dir", filepath.Join(w.dir, "fs")}
	if j.Scen != "" {
		args = append(args, "-scen", j.Scen)
	}
	if len(j.Drop) > 0 {
		var s []string
		for _, d := range j.Drop {
			s = append(s, strconv.Itoa(d))
		}
		args = append(args, "-drop", strings.Join(s, ","))
	}
	if len(j.NoFault) > 0 {
		args = append(args, "-nofault", strings.Join(j.NoFault, ","))
	}
	if j.Verbose {
		args = append(args, "-v")
	}
	if j.Fixed {
		buf := make([]byte, 0, 16*len(j.Sched))
		for _, d := range j.Sched {
			buf = binary.LittleEndian.AppendUint64(buf, uint64(d[0])<<56|uint64(d[1]))
			buf = binary.LittleEndian.AppendUint64(buf, uint64(d[2]))
		}
		if err := os.WriteFile(w.rep, buf, 0o644); err != nil {
			return &result{Infra: err.Error()}
		}
		args = append(args, "-replay", w.rep)
	}
	cmd := exec.Command(filepath.Join(buildDir, "harness"), args...)
	cmd.Env = []string{"GOGC=off", "GOMEMLIMIT=2000MiB", "TZ=UTC", "GODEBUG=multipathtcp=0,asyncpreemptoff=1", "GOTRACEBACK=single", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "ZINX_CONFIG_FILE_PATH=/simfs/conf/zinx.json"}
	cmd.Dir = w.dir
	pr, pw, err := os.Pipe()
	if err != nil {
		return &result{Infra: err.Error()}
	}
	var stderr limitBuf
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return &result{Infra: "start: " + err.Error()}
	}
	pw.Close()
	var out bytes.Buffer
	done := make(chan struct{})
	go func() { out.ReadFrom(pr); pr.Close(); close(done) }()
	timedOut := false
	tm := time.AfterFunc(90*time.Second, func() { timedOut = true; cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	<-done
	r := &result{}
	if out.Len() > 0 {
		if e := json.Unmarshal(out.Bytes(), r); e != nil {
			r.Infra = "bad result: " + e.Error()
		}
	}
	r.Wall = time.Since(start)
	h := func(i int) uint64 { return binary.LittleEndian.Uint64(w.mem[8*i:]) }
	r.Steps, r.Picks, r.Preempts, r.Hash, r.EndNow = h(1), h(2), h(3), h(4), int64(h(5))
	r.Stalls, r.Lates, r.MaxReady, r.Jumps = h(7), h(8), h(9), h(10)
	nlog := int(h(6))
	for i := 0; i+1 < nlog; i += 2 {
		a := binary.LittleEndian.Uint64(w.mem[logOff+8*i:])
		v := binary.LittleEndian.Uint64(w.mem[logOff+8*i+8:])
		r.Sched = append(r.Sched, [3]int64{int64(a >> 56), int64(a & (1<<56 - 1)), int64(v)})
	}
	r.Sites = append([]byte(nil), w.mem[siteOff:siteOff+siteLen]...)
	r.Stderr = stderr.String()
	if cmd.ProcessState != nil {
		r.Exit = cmd.ProcessState.ExitCode()
	}
	switch {
	case timedOut:
		r.Infra = "wall-clock watchdog"
	case r.Exit == 0 && out.Len() == 0:
		// the code under test ended the process
		r.Violations = append(r.Violations, violation{j.Prop, "process-exit", "the process exited with status 0 in the middle of the run"})
	case r.Exit == 97:
		r.Violations = append(r.Violations, violation{j.Prop, "livelock", fmt.Sprintf("no end of the run within %d scheduling steps", r.Steps)})
	case r.Exit == 95:
		r.Violations = append(r.Violations, violation{j.Prop, "memory", "memory grew beyond 1.2 GB"})
	case r.Exit != 0 && out.Len() == 0:
		sig, msg := crashSig(r.Stderr)
		if sig == "" {
			r.Infra = fmt.Sprintf("exit %d without a result: %s", r.Exit, r.Stderr)
		} else {
			r.Violations = append(r.Violations, violation{j.Prop, sig, msg})
		}
	}
	return r
}

// crashSig names a crash by its message and the innermost zinx frame.
func crashSig(s string) (string, string) {
	lines := strings.Split(s, "\n")
	head := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			head = l
			break
		}
	}
	if head == "" {
		return "", ""
	}
	if strings.HasPrefix(head, "fatal error: ") && (strings.Contains(head, "out of memory") || strings.Contains(head, "cannot allocate")) {
		return "", ""
	}
	where := ""
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/aceld/zinx/") && i+1 < len(lines) {
			f := l
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			where = strings.TrimPrefix(f, "github.com/aceld/zinx/")
			break
		}
	}
	if i := strings.Index(head, " [recovered"); i > 0 {
		head = head[:i]
	}
	return "crash:" + where, head + " at " + where
}

type limitBuf struct{ b []byte }

func (l *limitBuf) Write(p []byte) (int, error) {
	if room := 65536 - len(l.b); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.b = append(l.b, p[:room]...)
	}
	return len(p), nil
}

func (l *limitBuf) String() string { return string(l.b) }
