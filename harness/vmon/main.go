package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func verifRoot() string {
	if d := os.Getenv("VMON_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func seedEnv() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return h64(s)
	}
	return n
}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

var firstStdout *os.File

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vmon check ID | child ID | one ID STREAM IDX | replay FILE | list")
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			c := checks[id]
			race := ""
			if c.Race {
				race = " race"
			}
			fmt.Printf("%s%s\n", id, race)
		}
	case "check":
		os.Exit(supervise(getCheck(os.Args[2])))
	case "child":
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			// The old file must stay reachable: its finalizer would close descriptor 1,
			// the next pipe would get this number, and writing to it when its reader
			// has gone would end the process by SIGPIPE.
			firstStdout = os.Stdout
			os.Stdout = null // what the library prints (warnings) is of no interest; results go to files
		}
		child(getCheck(os.Args[2]), os.Args[3])
	case "one":
		idx, _ := strconv.Atoi(os.Args[4])
		os.Exit(one(getCheck(os.Args[2]), os.Args[3], idx))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "dict":
		dumpDict()
	case "helper":
		helper(os.Args[2:])
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

func getCheck(id string) *Check {
	c := checks[id]
	if c == nil {
		fatal("no check for property %s", id)
	}
	return c
}

func newRun(c *Check, dir string) *Run {
	return &Run{Check: c, Seed: seedEnv(), Tier: tierEnv(), Dir: dir, Known: loadKnown(verifRoot()),
		counts: map[string]int64{}, dist: map[uint64]struct{}{}, sampl: map[string][]string{}}
}

// child executes all streams in this process and writes result.json.
func child(c *Check, dir string) {
	debug.SetMaxStack(1 << 29)
	r := newRun(c, dir)
	var hits []string
	finding := c.Finding
	if finding == nil {
		finding = c.Probe
	}
	if finding != nil {
		for _, k := range r.Known {
			if k.Kind == "finding" && k.Property == c.ID && k.HTML != "" {
				cfg := Cfg{}
				if k.Cfg != nil {
					cfg = *k.Cfg
				}
				if msg := finding(k.HTML, cfg); msg != "" {
					hits = append(hits, k.ID+": "+k.What)
				}
			}
		}
	}
	r.runAll(openFlight(filepath.Join(dir, "flight")))
	if len(r.viols) > 0 && c.Probe != nil && os.Getenv("VMON_NOSHRINK") == "" {
		for _, v := range r.viols[:min(len(r.viols), shrinkMax())] {
			if v.HTML != "" && v.Cfg != nil {
				shrinkViolation(c, v)
			}
		}
	}
	res := r.result()
	res.KnownHit = hits
	b, err := json.Marshal(res)
	if err != nil {
		fatal("%v", err)
	}
	tmp := filepath.Join(dir, "result.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fatal("%v", err)
	}
	os.Rename(tmp, filepath.Join(dir, "result.json"))
}

// one executes a single case in isolation; exit 0 held, 1 violated.
func one(c *Check, stream string, idx int) int {
	r := newRun(c, os.TempDir())
	for i := range c.Streams {
		s := &c.Streams[i]
		if s.Name == stream {
			cs := r.exec(s, idx, true)
			if cs.viol != nil {
				fmt.Printf("violated: %s\n", cs.viol.What)
				if cs.viol.HTML != "" {
					fmt.Printf("html: %q\n", cs.viol.HTML)
				}
				if cs.viol.Cfg != nil {
					fmt.Printf("cfg: %s\n", cs.viol.Cfg)
				}
				if cs.viol.Detail != "" {
					fmt.Println(cs.viol.Detail)
				}
				return 1
			}
			fmt.Println("held")
			return 0
		}
	}
	fatal("no stream %s", stream)
	return 2
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	c := getCheck(v.Property)
	os.Setenv("VERIF_SEED", fmt.Sprint(v.Seed))
	os.Setenv("VERIF_TIER", v.Tier)
	if v.Cfg != nil && v.HTML != "" && c.Probe != nil {
		fmt.Printf("html: %q\ncfg: %s\n", v.HTML, v.Cfg)
		out, err := v.Cfg.Convert(v.HTML)
		fmt.Printf("markdown:\n%s\nerr: %v\n", out, err)
		if msg := c.Probe(v.HTML, *v.Cfg); msg != "" {
			fmt.Printf("violated: %s\n", msg)
			return 1
		}
	}
	return one(c, v.Stream, v.Idx)
}

func scratchBase() string {
	if d := os.Getenv("VMON_TMP"); d != "" {
		return d
	}
	return os.TempDir()
}

// concurrentMap is the report of the Go runtime that a map of the library was
// accessed concurrently (which ends the process, and need not happen again).
func concurrentMap(stderr string) string {
	i := strings.Index(stderr, "fatal error: concurrent map")
	if i < 0 {
		return ""
	}
	lines := strings.Split(stderr[i:], "\n")
	for _, l := range lines[1:] {
		if strings.Contains(l, "html-to-markdown") && strings.Contains(l, "(") {
			return lines[0] + " in " + strings.TrimSpace(l)
		}
		if strings.HasPrefix(l, "main.") {
			return ""
		}
	}
	return ""
}

const stallLimit = 90 // seconds without progress of one case before it is examined in isolation

func supervise(c *Check) int {
	start := time.Now()
	dir, err := os.MkdirTemp(scratchBase(), "vmon-"+c.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("VMON_DIR", dir)
	var res *Result
	var extra []*Violation
	done := false
	cmd := exec.Command(self(), "child", c.ID, dir)
	var errb bytes.Buffer
	cmd.Stdout = os.Stderr
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if c.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, "race"))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	waitc := make(chan error, 1)
	go func() { waitc <- cmd.Wait() }()
	var suspects []inflight
	hung := false
	for !done {
		select {
		case err := <-waitc:
			done = true
			if b, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil {
				res = &Result{}
				if e := json.Unmarshal(b, res); e != nil {
					fatal("%v", e)
				}
			} else {
				fmt.Fprintf(os.Stderr, "vmon: worker process ended abnormally: %v\n%s\n", err, trunc(errb.String(), 6000))
				if strings.Contains(errb.String(), "MONITOR BUG") {
					fatal("bug in the monitor")
				}
				suspects = readFlight(filepath.Join(dir, "flight"))
			}
		case <-time.After(time.Second):
			now := time.Now().Unix()
			rss := rssMB(cmd.Process.Pid)
			for _, f := range readFlight(filepath.Join(dir, "flight")) {
				if now-f.since > stallLimit || rss > 14000 {
					hung = true
				}
			}
			if hung {
				suspects = readFlight(filepath.Join(dir, "flight"))
				sort.Slice(suspects, func(i, j int) bool { return suspects[i].since < suspects[j].since })
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-waitc
				done = true
			}
		}
	}
	if res == nil {
		// Attribute the crash or hang: run each case that was in flight alone, under limits.
		for _, s := range suspects {
			if msg := isolate(c, s); msg != "" {
				extra = append(extra, &Violation{Property: c.ID, Stream: s.stream, Idx: s.idx, Seed: seedEnv(), Tier: tierEnv(), What: msg})
				break
			}
		}
		if len(extra) == 0 && c.Race {
			if what := concurrentMap(errb.String()); what != "" {
				v := &Violation{Property: c.ID, Seed: seedEnv(), Tier: tierEnv(), What: what}
				if len(suspects) > 0 {
					v.Stream, v.Idx = suspects[0].stream, suspects[0].idx
				}
				extra = append(extra, v)
			} else {
				extra = append(extra, raceViolations(c, dir)...)
			}
		}
		if len(extra) == 0 {
			fmt.Fprintf(os.Stderr, "vmon: the worker process died or stalled but no single case reproduces it; no verdict\n")
			return 2
		}
		res = &Result{Counts: map[string]int64{}}
	}
	viols := append(res.Violations, extra...)
	if c.Race {
		viols = append(viols, raceViolations(c, dir)...)
	}
	for _, k := range res.KnownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	writeEvidence(c, res, viols, time.Since(start))
	if len(viols) > 0 {
		for i, v := range viols {
			if i >= 3 && os.Getenv("VMON_ALL") == "" {
				break
			}
			path := writeReplay(v)
			if os.Getenv("VMON_ALL") != "" {
				fmt.Printf("%s/%d %s %q\n\t%s\n", v.Stream, v.Idx, v.Cfg, trunc(v.HTML, 300), trunc(v.What, 600))
				continue
			}
			fmt.Printf("  %s (stream %s case %d seed %d)\n", trunc(v.What, 3000), v.Stream, v.Idx, v.Seed)
			if v.HTML != "" {
				fmt.Printf("  html: %q\n", trunc(v.HTML, 2000))
			}
			if v.Cfg != nil {
				fmt.Printf("  cfg: %s\n", v.Cfg)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		}
		return 1
	}
	need := c.MinNontrivial
	if need == 0 {
		need = 100
	}
	if os.Getenv("VMON_STREAM") == "" && res.Distinct < need {
		fmt.Fprintf(os.Stderr, "vmon: only %d distinct non-trivial executions were observed (need %d): no verdict\n", res.Distinct, need)
		return 2
	}
	fmt.Printf("%s held: %d executions, %d distinct non-trivial, %.1fs\n", c.ID, res.Evals, res.Distinct, time.Since(start).Seconds())
	return 0
}

func rssMB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

// isolate re-runs one case alone with CPU and address-space limits; a non-empty
// result says how it failed.
func isolate(c *Check, s inflight) string {
	sh := "ulimit -t 60; "
	if !c.Race {
		sh += "ulimit -v 12000000; "
	}
	sh += `exec "$0" "$@"`
	cmd := exec.Command("/bin/sh", "-c", sh, self(), "one", c.ID, s.stream, fmt.Sprint(s.idx))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		return ""
	}
	donec := make(chan error, 1)
	go func() { donec <- cmd.Wait() }()
	select {
	case <-time.After(200 * time.Second):
		// blocked without using CPU: a deadlock
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-donec
		return "the execution blocked for 200 s without finishing (deadlock)"
	case err := <-donec:
		out := b.String()
		if strings.Contains(out, "MONITOR BUG") || err == nil {
			return ""
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return ""
		}
		ws := ee.Sys().(syscall.WaitStatus)
		switch {
		case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL):
			return "the execution used more than 60 s of CPU time without finishing"
		case strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory"):
			return "the execution exhausted 12 GB of address space: " + trunc(out, 400)
		case strings.Contains(out, "fatal error:") || strings.Contains(out, "stack overflow"):
			return "the execution killed the process: " + trunc(out, 1500)
		case ws.ExitStatus() == 1:
			return trunc(out, 1500)
		}
		return ""
	}
}

func writeReplay(v *Violation) string {
	dir := filepath.Join(verifRoot(), "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%08x.json", v.Property, v.Stream, v.Idx, uint32(h64(string(b)))))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

func writeEvidence(c *Check, res *Result, viols []*Violation, wall time.Duration) {
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                c.Rule,
		"observed":            res.Counts,
		"samples":             res.Samples,
	}
	if res.Samples == nil {
		cov["samples"] = []any{}
	}
	if res.Suppressed > 0 {
		cov["suppressed_known_findings"] = res.Suppressed
	}
	if len(viols) > 0 {
		cov["violation"] = trunc(viols[0].What, 2000)
	}
	ev := map[string]any{
		"property": c.ID, "tier": tierEnv(), "seed": seedEnv(), "level": "exploration",
		"coverage": cov, "wall_s": float64(wall.Milliseconds()) / 1000, "violations": len(viols),
		"assumptions": append([]string{"the workload generator's reach; goldmark, golang.org/x/net/html and cascadia are trusted readers"}, c.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func raceViolations(c *Check, dir string) (out []*Violation) {
	m, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range m {
		b, _ := os.ReadFile(f)
		s := string(b)
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			// Only races that involve the code under test count.
			if strings.Contains(s, repoDir()+"/") {
				out = append(out, &Violation{Property: c.ID, Stream: "race", Seed: seedEnv(), Tier: tierEnv(),
					What: "data race reported by the race detector", Detail: trunc(s[i:], 6000)})
				return out
			}
		}
	}
	return nil
}

func shrinkMax() int {
	if os.Getenv("VMON_ALL") != "" {
		return 60
	}
	return 3
}
