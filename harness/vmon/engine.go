package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the monitor for one property.
type Check struct {
	ID      string
	Rule    string // how cases are made, what makes one non-trivial
	Assume  []string
	Streams []Stream
	// Probe evaluates the property's oracle on one concrete document; used for
	// the known-findings list and for replaying shrunk inputs. May be nil.
	Probe         func(html string, cfg Cfg) string
	Finding       func(src string, cfg Cfg) string // the oracle without attributions to findings (default: Probe)
	AnyShape      bool                             // the oracle applies to every document
	Race          bool                             // needs the -race build
	NeedCLI       bool
	Workers       int // 0 = GOMAXPROCS
	MinNontrivial int
}

// Stream is one workload: N cases in the quick tier, NT in the thorough one.
type Stream struct {
	Name  string
	N, NT int
	F     func(c *Case)
	Once  bool // does not depend on the seed: cases 0..N-1 enumerate a finite set
}

// Case is one generated execution.
type Case struct {
	R         *rand.Rand
	Idx       int
	Stream    string
	run       *Run
	sample    string
	counts    map[string]int
	keys      []uint64
	viol      *Violation
	nontriv   bool
	Replaying bool
	mute      bool
	// the conversion under way, for reports about panics
	lastHTML string
	lastCfg  *Cfg
}

type Violation struct {
	Property string `json:"property"`
	Stream   string `json:"stream"`
	Idx      int    `json:"idx"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	What     string `json:"what"`
	HTML     string `json:"html,omitempty"`
	Cfg      *Cfg   `json:"cfg,omitempty"`
	Detail   string `json:"detail,omitempty"`
}

type Run struct {
	Check *Check
	Seed  uint64
	Tier  string
	Dir   string // scratch
	Known []Known

	mu         sync.Mutex
	evals      int64
	counts     map[string]int64
	dist       map[uint64]struct{}
	sampl      map[string][]string
	viols      []*Violation
	stop       atomic.Bool
	suppressed int
}

type caseAbort struct{}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Run) newCase(s *Stream, idx int) *Case {
	var seed [32]byte
	sum := sha256.Sum256([]byte(fmt.Sprintf("%s|%s|%d|%d", r.Check.ID, s.Name, r.Seed, idx)))
	copy(seed[:], sum[:])
	a := binary.LittleEndian.Uint64(seed[0:8])
	b := binary.LittleEndian.Uint64(seed[8:16])
	return &Case{R: rand.New(rand.NewPCG(a, b)), Idx: idx, Stream: s.Name, run: r, counts: map[string]int{}}
}

// Obs counts an observed event.
func (c *Case) Obs(name string, n int) { c.counts[name] += n }

// Seen records the canonical form of a non-trivial observed execution.
func (c *Case) Seen(key string) {
	c.nontriv = true
	c.keys = append(c.keys, h64(c.Stream+"\x00"+key))
}

// Sample offers a written-out case for the evidence file.
func (c *Case) Sample(format string, a ...any) {
	if c.sample == "" {
		c.sample = fmt.Sprintf(format, a...)
	}
}

// Fail records a violation and ends the case.
func (c *Case) Fail(html string, cfg *Cfg, format string, a ...any) {
	c.viol = &Violation{Property: c.run.Check.ID, Stream: c.Stream, Idx: c.Idx, Seed: c.run.Seed, Tier: c.run.Tier,
		What: fmt.Sprintf(format, a...), HTML: html, Cfg: cfg}
	panic(caseAbort{})
}

func (r *Run) exec(s *Stream, idx int, replay bool) (c *Case) {
	c = r.newCase(s, idx)
	c.Replaying = replay
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caseAbort); ok {
				return
			}
			st := string(debug.Stack())
			if c.viol == nil {
				// a panic in monitor code must not be reported as a violation
				if !panicFromRepo(st) {
					panic(fmt.Sprintf("MONITOR BUG in %s/%s/%d: %v\n%s", r.Check.ID, s.Name, idx, p, st))
				}
				c.viol = &Violation{Property: r.Check.ID, Stream: s.Name, Idx: idx, Seed: r.Seed, Tier: r.Tier,
					What: fmt.Sprintf("panic in the code under test: %v", p), Detail: st, HTML: c.lastHTML, Cfg: c.lastCfg}
			}
		}
	}()
	s.F(c)
	return c
}

// panicFromRepo tells whether the innermost non-runtime frames of a panic lie in the code under test.
func panicFromRepo(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") {
			if strings.Contains(l, "/verif/harness/") || strings.Contains(l, "/harness/vmon/") {
				return false
			}
			if strings.HasPrefix(l, repoDir()+"/") {
				return true
			}
		}
	}
	return false
}

func repoDir() string {
	if d := os.Getenv("VMON_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func (r *Run) merge(c *Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	for k, v := range c.counts {
		r.counts[k] += int64(v)
	}
	for _, k := range c.keys {
		r.dist[k] = struct{}{}
	}
	if c.sample != "" && len(r.sampl[c.Stream]) < 3 {
		r.sampl[c.Stream] = append(r.sampl[c.Stream], trunc(c.sample, 600))
	}
	if c.viol != nil {
		if r.isKnown(c.viol) {
			r.suppressed++
		} else {
			r.viols = append(r.viols, c.viol)
			max := 1
			if os.Getenv("VMON_ALL") != "" {
				max = 1 << 30
			}
			if len(r.viols) >= max {
				r.stop.Store(true)
			}
		}
	}
}

func (r *Run) isKnown(v *Violation) bool {
	for _, k := range r.Known {
		if k.Kind == "finding" && k.Property == v.Property && k.HTML == v.HTML && v.HTML != "" {
			return true
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) <= n {
		return strings.ToValidUTF8(s, "\uFFFD")
	}
	return strings.ToValidUTF8(s[:n], "\uFFFD") + "…"
}

// quickMult scales the workloads of the quick tier, so that every check takes
// about ten seconds on eight cores.
var quickMult = map[string]float64{
	"C01": 2, "C06": 2, "C07": 5, "C08": 6, "C09": 4, "C10": 1.5, "C11": 6, "C12": 3, "C13": 4,
	"C14": 3, "C15": 3, "C16": 3, "C17": 3, "C18": 3, "C19": 3, "C20": 3, "C22": 1.6, "C23": 2.2,
	"C24": 3, "C25": 2, "C26": 2.2, "C27": 6, "C28": 1.6, "C29": 6, "C31": 2, "C32": 1.3, "C33": 1.5,
	"C34": 2, "C35": 2, "C36": 2.5, "C37": 2,
}

type job struct {
	s   *Stream
	idx int
}

func (r *Run) runAll(fr *flight) {
	w := r.Check.Workers
	if w == 0 {
		w = runtime.GOMAXPROCS(0)
	}
	var jobs []job
	filter := os.Getenv("VMON_STREAM")
	for i := range r.Check.Streams {
		s := &r.Check.Streams[i]
		if filter != "" && s.Name != filter {
			continue
		}
		n := s.N
		if k := quickMult[r.Check.ID]; k > 0 && !s.Once {
			n = int(float64(n) * k)
		}
		if r.Tier == "thorough" {
			n = s.NT
			if n == 0 {
				n = s.N * 12
			}
			if s.Once {
				n = max(s.N, s.NT)
			}
		}
		if m := os.Getenv("VMON_MULT"); m != "" && !s.Once {
			k := 1.0
			fmt.Sscan(m, &k)
			n = int(float64(n) * k)
		}
		for j := 0; j < n; j++ {
			jobs = append(jobs, job{s, j})
		}
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) || r.stop.Load() {
					return
				}
				if fr != nil {
					fr.begin(slot, jobs[i])
				}
				c := r.exec(jobs[i].s, jobs[i].idx, false)
				r.merge(c)
				if fr != nil {
					fr.end(slot)
				}
			}
		}(k)
	}
	wg.Wait()
}

// flight is a flight recorder: which case each worker is executing, kept in a
// file so that the supervisor can attribute a crash or hang of this process.
type flight struct {
	f *os.File
}

const slotSize = 128

func openFlight(path string) *flight {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fatal("flight recorder: %v", err)
	}
	return &flight{f}
}
func (f *flight) begin(slot int, j job) {
	b := []byte(fmt.Sprintf("%s %d %d", j.s.Name, j.idx, time.Now().Unix()))
	b = append(b, make([]byte, slotSize-len(b))...)
	f.f.WriteAt(b, int64(slot*slotSize))
}
func (f *flight) end(slot int) {
	f.f.WriteAt(make([]byte, slotSize), int64(slot*slotSize))
}

type inflight struct {
	stream string
	idx    int
	since  int64
}

func readFlight(path string) (out []inflight) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := strings.TrimRight(string(b[i:i+slotSize]), "\x00")
		if s == "" {
			continue
		}
		var x inflight
		if n, _ := fmt.Sscanf(s, "%s %d %d", &x.stream, &x.idx, &x.since); n == 3 {
			out = append(out, x)
		}
	}
	return out
}

// Known is one entry of known_findings.json.
type Known struct {
	Kind     string `json:"kind"` // "finding" or "fixed"
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	HTML     string `json:"html,omitempty"`
	Cfg      *Cfg   `json:"cfg,omitempty"`
	Commit   string `json:"commit,omitempty"`
	Entry    string `json:"entry,omitempty"`
}

func loadKnown(root string) []Known {
	var ks struct {
		Entries []Known `json:"entries"`
	}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return ks.Entries
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vmon: "+format+"\n", a...)
	os.Exit(2)
}

type Result struct {
	Evals      int64            `json:"evals"`
	Distinct   int              `json:"distinct"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []any            `json:"samples"`
	Violations []*Violation     `json:"violations"`
	Suppressed int              `json:"suppressed"`
	KnownHit   []string         `json:"known_hit"`
	PerStream  map[string]int   `json:"per_stream"`
}

func (r *Run) result() *Result {
	res := &Result{Evals: r.evals, Distinct: len(r.dist), Counts: r.counts, Violations: r.viols, Suppressed: r.suppressed}
	var names []string
	for k := range r.sampl {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		sort.Strings(r.sampl[k])
		for _, s := range r.sampl[k] {
			res.Samples = append(res.Samples, map[string]string{"stream": k, "case": s})
		}
	}
	return res
}
