package main

// C33: exit status and streams tell the truth, also when I/O fails. Faults come
// from the file system itself (full devices, missing permissions, names that
// are too long, directories in the wrong place) and from strace, which makes a
// chosen system call on a chosen file fail.

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type job33 struct {
	dir    string
	pages  []string // input i is src/p<i>.html
	kind   string   // stdout, file, dir
	args   []string
	k      cliCmd
	out    []string // output file of input i
	stdout string   // file standard output goes to
}

// job33 prepares a run that succeeds when nothing fails.
func (c *Case) lines33() []int {
	if c.Stream == "large" {
		return []int{5000, 20000, 60000}
	}
	return []int{3, 100, 1500, 1500}
}

func newJob33(c *Case, dir string) *job33 {
	r := c.R
	j := &job33{dir: dir, kind: pick(r, []string{"stdout", "file", "dir", "dir", "dir"})}
	n := 1
	if j.kind == "dir" {
		n = 1 + r.IntN(4)
	}
	for i := 0; i < n; i++ {
		var pb strings.Builder
		fmt.Fprintf(&pb, "<h1>d%d</h1>", i)
		for k := r.IntN(pick(r, c.lines33())); k >= 0; k-- {
			fmt.Fprintf(&pb, "<p>line %d of <b>%d</b></p>\n", k, i)
		}
		p := pb.String()
		j.pages = append(j.pages, p)
		mustWrite(filepath.Join(dir, "src", fmt.Sprintf("p%d.html", i)), []byte(p))
	}
	in := filepath.Join(dir, "src", "p0.html")
	switch j.kind {
	case "dir":
		j.args = []string{"--input", filepath.Join(dir, "src") + "/" + pick(r, []string{"*", "*.html", "**/p*.html"}), "--output", filepath.Join(dir, "out") + "/"}
		for i := range j.pages {
			j.out = append(j.out, filepath.Join(dir, "out", fmt.Sprintf("p%d.md", i)))
		}
	case "file":
		o := filepath.Join(dir, "new", "res.md")
		j.args = []string{"--input", in, "--output", o}
		j.out = []string{o}
	case "stdout":
		j.args = []string{"--input", in}
		j.stdout = filepath.Join(dir, "stdout.txt")
	}
	if chance(r, 0.3) && j.kind != "stdout" {
		j.args = append(j.args, "--output-overwrite")
	}
	j.k = cliCmd{Dir: dir}
	return j
}

// withNeutralFlags adds flags that make no difference to these pages.
func withNeutralFlags(r *rand.Rand, args []string) []string {
	var more []string
	add := func(flags ...string) {
		if chance(r, 0.3) {
			more = append(more, flags...)
		}
	}
	add("--domain", pick(r, []string{"example.com", "https://example.com/x", "::"}))
	add("--plugin-strikethrough")
	add("--plugin-table", pick(r, []string{"--opt-table-skip-empty-rows", "--opt-table-header-promotion", "--opt-table-newline-behavior=preserve", "--opt-table-span-cell-behavior=mirror", "--opt-table-presentation-tables", "--opt-table-cell-padding-behavior=none"}))
	add("--exclude-selector", pick(r, []string{"x-none", ".none, #none", "script"}))
	add("--include-selector", "body")
	add("--opt-strong-delimiter", "**")
	if chance(r, 0.5) {
		return append(more, args...)
	}
	return append(append([]string{}, args...), more...)
}

// complete tells what is missing from the outputs; partly: only look at the
// files that exist.
func (j *job33) missing() string {
	if j.kind == "stdout" {
		b, _ := os.ReadFile(j.stdout)
		if w := mustConvert(j.pages[0]) + "\n"; string(b) != w {
			return fmt.Sprintf("standard output holds %d of %d bytes", len(b), len(w))
		}
		return ""
	}
	for i, o := range j.out {
		b, err := os.ReadFile(o)
		if w := mustConvert(j.pages[i]); err != nil || string(b) != w {
			return fmt.Sprintf("%s holds %d of %d bytes (%v)", filepath.Base(o), len(b), len(w), err)
		}
	}
	return ""
}

var straceProbe struct {
	sync.Once
	ok  bool
	why string
}

func haveStrace(dir string) bool {
	p := &straceProbe
	p.Do(func() {
		log := filepath.Join(dir, "probe")
		out, err := exec.Command("strace", "-f", "-o", log, "-e", "trace=openat", "-e", "inject=openat:error=EIO", "-P", dir+"/nothing", "cat", dir+"/nothing").CombinedOutput()
		b, _ := os.ReadFile(log)
		p.ok = bytes.Contains(b, []byte("INJECTED"))
		if !p.ok {
			p.why = fmt.Sprintf("%v %s", err, out)
			fmt.Fprintf(os.Stderr, "vmon: strace cannot inject faults here: %s\n", trunc(p.why, 300))
		}
	})
	return p.ok
}

var errnos = map[string][]string{
	"openat":     {"EACCES", "EMFILE", "ENFILE", "EIO", "ENOSPC", "EROFS", "EPERM", "ELOOP", "ENOMEM"},
	"read":       {"EIO", "EISDIR", "EBADF", "ENOMEM", "ESTALE"},
	"write":      {"ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPERM", "EROFS"},
	"close":      {"EIO", "ENOSPC", "EDQUOT"},
	"mkdirat":    {"EACCES", "ENOSPC", "EROFS", "EMLINK", "EIO"},
	"getdents64": {"EIO", "EACCES", "ENOENT"},
	"newfstatat": {"EACCES", "EIO", "ENOMEM"},
}

func c33inject(c *Case) {
	r := c.R
	dir, clean := c.scratch()
	defer clean()
	if !haveStrace(dir) {
		c.Obs("strace_unavailable", 1)
		return
	}
	j := newJob33(c, dir)
	which := r.IntN(len(j.pages))
	type fault struct {
		sys, path string
		hard      bool // the failure has to be reported
	}
	in := filepath.Join(dir, "src", fmt.Sprintf("p%d.html", which))
	faults := []fault{{"openat", in, true}, {"read", in, true}, {"read", in, true}, {"newfstatat", in, false}}
	if j.kind == "stdout" {
		faults = append(faults, fault{"write", j.stdout, true}, fault{"write", j.stdout, true}, fault{"write", j.stdout, true})
	} else {
		o := j.out[which]
		faults = append(faults, fault{"openat", o, true}, fault{"write", o, true}, fault{"write", o, true}, fault{"close", o, true}, fault{"close", o, true}, fault{"mkdirat", filepath.Dir(o), true})
		if j.kind == "dir" {
			faults = append(faults, fault{"getdents64", filepath.Join(dir, "src"), true}, fault{"openat", filepath.Join(dir, "src"), true})
		}
	}
	if chance(r, 0.2) {
		// standard input and output as pipes
		j = &job33{dir: dir, kind: "stdout", pages: j.pages[:1], stdout: j.stdout}
	}
	f := pick(r, faults)
	errno := pick(r, errnos[f.sys])
	when := ""
	transient := (f.sys == "read" || f.sys == "write" || f.sys == "openat") && chance(r, 0.25)
	if transient {
		errno, when = "EINTR", pick(r, []string{":when=1", ":when=1..3"})
	} else if f.sys == "read" && chance(r, 0.5) {
		when = ":when=" + pick(r, []string{"2+", "2", "3+"}) // the first part can be read
	}
	if j.args == nil {
		f = fault{"write", filepath.Join(dir, "stdout.txt"), true}
		j.stdout = f.path
		errno, when, transient = pick(r, errnos["write"]), "", false
		j.k = cliCmd{Dir: dir, Stdin: []byte(j.pages[0])}
	}
	if j.stdout != "" {
		w, err := os.Create(j.stdout)
		if err != nil {
			fatal("%v", err)
		}
		defer w.Close()
		j.k.Stdout = w
	}
	log := filepath.Join(dir, "trace")
	j.args = withNeutralFlags(r, j.args)
	j.k.Args = j.args
	j.k.Wrap = []string{"strace", "-f", "-qq", "-o", log, "-P", f.path, "-e", "trace=" + f.sys, "-e", "inject=" + f.sys + ":error=" + errno + when}
	o := j.k.run(c)
	if bytes.Contains(o.Err, []byte("strace:")) {
		c.Obs("strace_trouble", 1)
		return
	}
	trace, _ := os.ReadFile(log)
	hits := bytes.Count(trace, []byte("INJECTED"))
	what := fmt.Sprintf("%s on %s fails with %s%s (%d times)", f.sys, strings.TrimPrefix(f.path, dir+"/"), errno, when, hits)
	desc := fmt.Sprintf("\n    %s: %s\n    %s", what, shellWords(j.args), o)
	miss := j.missing()
	if o.Code == 0 && miss != "" {
		c.Fail("", nil, "exit status 0, but %s%s", miss, desc)
	}
	if o.Code != 0 {
		if o.Code != 1 || len(bytes.TrimSpace(o.Err)) == 0 {
			c.Fail("", nil, "a failure has to give exit status 1 and a message%s", desc)
		}
	} else if len(o.Err) > 0 {
		c.Fail("", nil, "exit status 0 with a message%s", desc)
	}
	if len(o.Out) > 0 {
		c.Fail("", nil, "something was written to standard output%s", desc)
	}
	if j.stdout != "" && o.Code != 0 {
		b, _ := os.ReadFile(j.stdout)
		if !strings.HasPrefix(mustConvert(j.pages[0])+"\n", string(b)) {
			c.Fail("", nil, "standard output holds something else than Markdown: %s%s", trunc(quote(string(b)), 200), desc)
		}
	}
	if hits > 0 && transient && o.Code != 0 && f.sys != "openat" {
		c.Fail("", nil, "an interrupted call is no failure%s", desc)
	}
	if hits > 0 && f.hard && !transient && o.Code == 0 {
		c.Fail("", nil, "the failure was not reported%s", desc)
	}
	if hits == 0 && when == "" && f.hard && o.Code == 0 {
		c.Obs("fault_not_reached", 1)
	}
	if hits == 0 && o.Code != 0 {
		c.Fail("", nil, "the run fails although nothing failed%s", desc)
	}
	if hits > 0 {
		c.Obs("faults_injected", hits)
		c.Obs("injected_"+f.sys+"_"+errno, 1)
		c.Seen(fmt.Sprint(f.sys, f.path[len(dir):], errno, when, j.kind, len(j.pages), len(j.pages[0])))
		c.Sample("%s: %s => %s", what, shellWords(j.args), o)
	}
}

var unpriv struct {
	sync.Once
	bin string // a copy of the command an unprivileged user can run, "" = not possible
}

const nobody = 65534

func unprivBin(c *Case) string {
	u := &unpriv
	u.Do(func() {
		if os.Getuid() != 0 || c.run.Dir == os.TempDir() {
			return
		}
		os.Chmod(c.run.Dir, 0o711)
		b, err := os.ReadFile(cliPath())
		if err != nil {
			fatal("%v", err)
		}
		p := filepath.Join(c.run.Dir, "html2markdown")
		if err := os.WriteFile(p, b, 0o755); err != nil {
			fatal("%v", err)
		}
		os.Chmod(p, 0o755)
		cmd := exec.Command(p, "--version")
		cmd.Dir = "/"
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		if out, err := cmd.CombinedOutput(); err == nil {
			u.bin = p
		} else {
			fmt.Fprintf(os.Stderr, "vmon: cannot run as an unprivileged user: %v %s\n", err, trunc(string(out), 200))
		}
	})
	return u.bin
}

// faults of the file system itself
func c33real(c *Case) {
	r := c.R
	dir, clean := c.scratch()
	defer clean()
	os.Chmod(dir, 0o755)
	j := newJob33(c, dir)
	which := r.IntN(len(j.pages))
	in := filepath.Join(dir, "src", fmt.Sprintf("p%d.html", which))
	var kinds = []string{"no-such-input", "input-io-error", "stdin-directory", "stdin-unreadable", "device-full-stdout", "device-full-stdout-stdin", "reader-gone", "version-full", "help-full", "none", "slow-pipes", "unreadable-input", "unreadable-dir", "dir-as-input"}
	if j.kind != "stdout" {
		kinds = append(kinds, "device-full-output", "device-full-output", "output-below-file", "output-is-dir", "name-too-long", "path-too-long", "link-loop", "unwritable-dir", "unwritable-file", "parent-unwritable", "exists", "nul")
	}
	fault := pick(r, kinds)
	needNobody := func() {
		// everything belongs to the unprivileged user
		filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
			os.Lchown(p, nobody, nobody)
			return nil
		})
		j.k.Uid, j.k.Bin = nobody, unprivBin(c)
	}
	switch fault {
	case "unreadable-input", "unreadable-dir", "unwritable-dir", "unwritable-file", "parent-unwritable":
		if unprivBin(c) == "" {
			c.Obs("unprivileged_unavailable", 1)
			return
		}
	}
	overwrite := func() {
		if j.args[len(j.args)-1] != "--output-overwrite" {
			j.args = append(j.args, "--output-overwrite")
		}
	}
	want := 1
	seeStdout := true // judge what arrives on standard output
	switch fault {
	case "none":
		want = 0
	case "slow-pipes":
		want = 0
		j = &job33{dir: dir, kind: "pipe", pages: []string{strings.Repeat(j.pages[0], 1+r.IntN(4))}}
	case "no-such-input":
		j.args[1] = filepath.Join(dir, "src", pick(r, []string{"missing.html", "*.htm", "q*", "p0.html/x"}))
	case "input-io-error":
		j.args[1] = "/proc/self/mem" // reading at offset 0 gives EIO
	case "dir-as-input":
		j.args[1] = filepath.Join(dir, "src") + pick(r, []string{"", "/"})
	case "stdin-directory":
		f, err := os.Open(filepath.Join(dir, "src"))
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		j.k.In = f
		j.args = j.args[2:]
	case "stdin-unreadable": // opened for writing only
		f, err := os.OpenFile(filepath.Join(dir, "wo"), os.O_WRONLY|os.O_CREATE, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		j.k.In = f
		j.args = j.args[2:]
	case "device-full-stdout", "device-full-stdout-stdin", "version-full", "help-full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		j.k.Stdout = f
		switch fault {
		case "device-full-stdout":
			j.args = []string{"--input", filepath.Join(dir, "src", "p0.html")}
		case "device-full-stdout-stdin":
			j.args, j.k.Stdin = nil, []byte(pick(r, []string{j.pages[0], "", "x"}))
		case "version-full":
			j.args = []string{pick(r, []string{"-v", "--version"})}
		case "help-full":
			j.args = []string{pick(r, []string{"-h", "--help", "-help"})}
		}
		j.kind = "full"
	case "reader-gone":
		// no other case may start a process in between: until it runs its
		// program, it would hold a copy of the reading end
		syscall.ForkLock.RLock()
		pr, pw, err := os.Pipe()
		if err == nil {
			pr.Close()
		}
		syscall.ForkLock.RUnlock()
		if err != nil {
			fatal("%v", err)
		}
		defer pw.Close()
		j.k.Stdout = pw
		j.args, j.kind = []string{"--input", filepath.Join(dir, "src", "p0.html")}, "full"
		want = -2 // any failure
	case "device-full-output":
		if j.kind == "dir" {
			os.MkdirAll(filepath.Dir(j.out[which]), 0o755)
			os.Symlink("/dev/full", j.out[which])
		} else {
			os.MkdirAll(filepath.Dir(j.out[0]), 0o755)
			os.Symlink("/dev/full", j.out[0])
			if chance(r, 0.5) {
				j.args[3] = "/dev/full"
			}
		}
		overwrite()
	case "output-below-file":
		mustWrite(filepath.Join(dir, "out"), []byte("a file"))
		if j.kind == "dir" {
			j.args[3] = filepath.Join(dir, "out") + pick(r, []string{"/", "/sub/"})
		} else {
			j.args[3] = filepath.Join(dir, "out", "res.md")
		}
	case "output-is-dir":
		if j.kind == "dir" {
			os.MkdirAll(j.out[which], 0o755)
		} else {
			os.MkdirAll(j.out[0], 0o755)
		}
		if chance(r, 0.6) {
			overwrite()
		}
	case "name-too-long":
		long := strings.Repeat("n", pick(r, []int{253, 254, 255}))
		if j.kind == "dir" {
			mustWrite(filepath.Join(dir, "src", long[:250]+".htm"), []byte("x")) // its output has 253
			mustWrite(filepath.Join(dir, "src", long[:253]), []byte("x"))        // its output has 256
			j.args[1] = filepath.Join(dir, "src") + "/*"
		} else {
			j.args[3] = filepath.Join(dir, long+".md")
		}
	case "path-too-long":
		j.args[3] = dir + strings.Repeat("/"+strings.Repeat("d", 200), 25) + map[string]string{"dir": "/", "file": "/x.md"}[j.kind]
	case "link-loop":
		os.Symlink("loop", filepath.Join(dir, "loop"))
		j.args[3] = filepath.Join(dir, "loop") + map[string]string{"dir": "/", "file": "/x.md"}[j.kind]
	case "exists":
		t := j.out[which]
		mustWrite(t, []byte("already there"))
		if j.args[len(j.args)-1] == "--output-overwrite" {
			want = 0
		}
	case "nul": // cannot be passed; the nearest thing is a name with a newline
		want = 0
		if j.kind == "file" {
			j.args[3] = filepath.Join(dir, "a\nb")
			j.out[0] = j.args[3]
		}
	case "unreadable-input":
		os.Chmod(in, 0o000)
		if j.kind != "dir" {
			os.Chmod(filepath.Join(dir, "src", "p0.html"), 0o000)
		}
		needNobody()
	case "unreadable-dir":
		mustWrite(filepath.Join(dir, "src", "sub", "q.html"), []byte("x"))
		j.args[1] = filepath.Join(dir, "src", pick(r, []string{"**/*", "sub/*", "sub/q.html", "*/*.html", "**/*.html"}))
		needNobody()
		os.Chmod(filepath.Join(dir, "src", "sub"), 0o000)
	case "unwritable-dir":
		os.MkdirAll(filepath.Dir(j.out[0]), 0o755)
		needNobody()
		os.Chmod(filepath.Dir(j.out[0]), 0o555)
	case "parent-unwritable":
		needNobody()
		os.Chmod(dir, 0o555)
	case "unwritable-file":
		mustWrite(j.out[which], []byte("old"))
		overwrite()
		needNobody()
		os.Chmod(j.out[which], 0o444)
	}
	if j.kind == "stdout" {
		w, err := os.Create(j.stdout)
		if err != nil {
			fatal("%v", err)
		}
		defer w.Close()
		j.k.Stdout = w
	}
	j.args = withNeutralFlags(r, j.args)
	j.k.Args = j.args
	var o cliOut
	if fault == "slow-pipes" {
		o = slowRun(c, j)
	} else {
		o = j.k.run(c)
	}
	desc := fmt.Sprintf("\n    %s: %s\n    %s", fault, shellWords(j.args), o)
	switch {
	case want == 0:
		if o.Code != 0 || len(o.Err) > 0 {
			c.Fail("", nil, "the run has to succeed%s", desc)
		}
	case want == -2:
		if o.Code == 0 {
			c.Fail("", nil, "exit status 0 although nobody read the output%s", desc)
		}
	default:
		if o.Code != 1 || len(bytes.TrimSpace(o.Err)) == 0 {
			c.Fail("", nil, "the failure has to give exit status 1 and a message%s", desc)
		}
	}
	switch j.kind {
	case "pipe":
		if string(o.Out) != mustConvert(j.pages[0])+"\n" {
			c.Fail("", nil, "%d bytes arrived through the pipe%s", len(o.Out), desc)
		}
	case "stdout":
		b, _ := os.ReadFile(j.stdout)
		if o.Code != 0 && len(b) > 0 {
			c.Fail("", nil, "a failed run wrote %s to standard output%s", trunc(quote(string(b)), 200), desc)
		}
		if o.Code == 0 {
			if m := j.missing(); m != "" {
				c.Fail("", nil, "exit status 0, but %s%s", m, desc)
			}
		}
	case "full":
	default:
		if seeStdout && len(o.Out) > 0 && !strings.HasPrefix(fault, "stdin-") {
			c.Fail("", nil, "something was written to standard output%s", desc)
		}
		if o.Code == 0 {
			if m := j.missing(); m != "" {
				c.Fail("", nil, "exit status 0, but %s%s", m, desc)
			}
		}
	}
	c.Obs("fault_"+fault, 1)
	c.Seen(fmt.Sprint(fault, j.kind, which, len(j.pages), j.args))
	c.Sample("%s: %s => %s", fault, shellWords(j.args), o)
}

// slowRun feeds standard input in pieces and reads standard output slowly.
func slowRun(c *Case, j *job33) cliOut {
	r := c.R
	cmd := exec.Command(cliPath())
	cmd.Dir = j.dir
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	piece, wait := pick(r, []int{1, 10, 1000, 4096, 65536}), time.Duration(r.IntN(3))*time.Millisecond
	src := []byte(j.pages[0])
	go func() {
		for n := 0; len(src) > 0; n++ {
			k := min(piece, len(src))
			if n > 30 {
				k = len(src)
			}
			if _, err := in.Write(src[:k]); err != nil {
				break
			}
			src = src[k:]
			time.Sleep(wait)
		}
		in.Close()
	}()
	var ob bytes.Buffer
	buf := make([]byte, pick(r, []int{1, 100, 4096, 1 << 16}))
	for n := 0; ; n++ {
		k, err := out.Read(buf)
		ob.Write(buf[:k])
		if err == io.EOF {
			break
		}
		if err != nil {
			break
		}
		if n < 20 {
			time.Sleep(wait)
		} else if n == 20 {
			buf = make([]byte, 1<<16)
		}
	}
	cmd.Wait()
	c.Obs("processes", 1)
	return cliOut{Out: ob.Bytes(), Err: eb.Bytes(), Code: cmd.ProcessState.ExitCode()}
}

func init() {
	register(&Check{
		ID:      "C33",
		Rule:    "the built command run while I/O fails: system calls on its inputs, outputs and streams made to fail by strace (counted only when the injection took place), and faults of the file system itself; exit status, streams and completeness of the outputs judged after each run; distinct by fault, call, file and arguments",
		NeedCLI: true,
		Streams: []Stream{
			{Name: "inject", N: 800, F: c33inject},
			{Name: "real", N: 1800, F: c33real},
			large(150, c33real, c33real, c33inject),
		},
	})
}
