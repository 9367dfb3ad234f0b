// simtool builds the simulated zinx binary from /repo's working tree and drives
// seeded runs of it: search, reproduction, minimisation, replay, evidence.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	buildDir = ""
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simtool: "+f+"\n", a...)
	os.Exit(3)
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatalf("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(out))
}

func modDir(name, prefix string) string {
	out, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err != nil {
		fatalf("go env: %v", err)
	}
	m, _ := filepath.Glob(filepath.Join(strings.TrimSpace(string(out)), prefix+"*"))
	if len(m) == 0 {
		return ""
	}
	return m[0]
}

// build makes the simulated binary.  Should the instrumented tree not compile
// (an unforeseen construct), coarser instrumentation is tried before giving up.
func build() error {
	err := buildAt(2)
	for level := 1; level >= 0 && err != nil; level-- {
		err2 := buildAt(level)
		if err2 == nil {
			fmt.Fprintf(os.Stderr, "simtool: built with coarser scheduling points (level %d): %v\n", level, err)
		}
		if err2 == nil || level == 0 {
			err = err2
		}
	}
	return err
}

func buildAt(level int) error {
	gr := goroot()
	b := &builder{goroot: gr, out: filepath.Join(buildDir, "gen"), ov: overlay{map[string]string{}}}
	if err := os.MkdirAll(b.out, 0o755); err != nil {
		return err
	}
	if err := b.runtime(verifDir); err != nil {
		return err
	}
	if err := b.net(verifDir); err != nil {
		return err
	}
	if err := b.os(verifDir); err != nil {
		return err
	}
	kcp := ""
	if d := kcpDir(); d != "" {
		kcp = filepath.Join(buildDir, "kcp-go")
		if err := b.kcp(d, kcp); err != nil {
			return err
		}
	}
	mod := filepath.Join(buildDir, "harness")
	if err := b.modfile(repoDir, kcp, mod); err != nil {
		return err
	}
	in := &instr{norw: level < 2}
	if level > 0 {
		if err := in.tree(b, repoDir); err != nil {
			return err
		}
	}
	if err := in.demo(b, level); err != nil {
		return err
	}
	j, _ := json.Marshal(in.sites)
	if err := os.WriteFile(filepath.Join(buildDir, "sites.json"), j, 0o644); err != nil {
		return err
	}
	ovf := filepath.Join(buildDir, "overlay.json")
	if err := b.write(ovf); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-modfile", mod+".mod", "-o", filepath.Join(buildDir, "harness"), ".")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOEXPERIMENT=norandomizedheapbase64")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the harness: %v\n%s", err, out)
	}
	return nil
}

func kcpDir() string {
	// the version /repo/go.mod asks for
	data, _ := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		for i, w := range f {
			if w == "github.com/xtaci/kcp-go" && i+1 < len(f) {
				return modDir("kcp", "github.com/xtaci/kcp-go@"+f[i+1])
			}
		}
	}
	return ""
}

func main() {
	if v := os.Getenv("SIM_VERIF"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("SIM_REPO"); v != "" {
		repoDir = v
	}
	buildDir = filepath.Join(verifDir, ".build")
	if v := os.Getenv("SIM_BUILD"); v != "" {
		buildDir = v
	}
	if len(os.Args) < 2 {
		fatalf("usage: simtool build|check|run|replay ...")
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	fs := flag.NewFlagSet("simtool", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", envSeed(), "seed")
	n := fs.Int("n", 0, "number of runs (0: tier default)")
	secs := fs.Float64("secs", 0, "time budget (0: tier default)")
	nobuild := fs.Bool("nobuild", false, "reuse the last build")
	scen := fs.String("scen", "", "only this scenario")
	verbose := fs.Bool("v", false, "print the event trace")
	keep := fs.Bool("keep", false, "check: go on after a violation, list the distinct ones")
	workers := fs.Int("j", runtime.NumCPU(), "parallel runs")
	fs.Parse(os.Args[2:])
	os.MkdirAll(buildDir, 0o755)
	start := time.Now()
	if !*nobuild {
		if err := build(); err != nil {
			fatalf("%v", err)
		}
	}
	switch os.Args[1] {
	case "build":
		fmt.Printf("built in %.1fs\n", time.Since(start).Seconds())
	case "run":
		j := job{Prop: *prop, Seed: *seed, SSeed: *seed, Scen: *scen, Verbose: *verbose}
		r := newWorker(0).run(j)
		fmt.Print(r.pretty())
	case "check":
		os.Exit(check(*prop, *tier, *seed, *n, *secs, *scen, *workers, *keep, start))
	case "replay":
		if fs.NArg() != 1 {
			fatalf("usage: simtool replay FILE")
		}
		os.Exit(replay(fs.Arg(0)))
	case "determinism":
		os.Exit(determinism(*prop, *seed, *n, *workers, *scen))
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func envSeed() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}
