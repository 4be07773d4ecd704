package main

// Running the built command and observing everything it does: exit status,
// both streams, and every file of its scratch directory before and after.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func cliPath() string {
	p := os.Getenv("VMON_CLI")
	if p == "" {
		p = filepath.Join(verifRoot(), "bin", "html2markdown") // development only
	}
	if _, err := os.Stat(p); err != nil {
		fatal("the command was not built: %v", err)
	}
	return p
}

type cliOut struct {
	Out, Err []byte
	Code     int // -1: ended by a signal
	Sig      syscall.Signal
}

func (o cliOut) String() string {
	s := fmt.Sprintf("exit %d", o.Code)
	if o.Code < 0 {
		s = "signal " + o.Sig.String()
	}
	return fmt.Sprintf("%s, stdout %s, stderr %s", s, trunc(quote(string(o.Out)), 500), trunc(quote(string(o.Err)), 400))
}

type cliCmd struct {
	Args   []string
	Dir    string
	Stdin  []byte   // through a pipe
	In     *os.File // instead of Stdin
	Stdout *os.File // nil: captured
	Wrap   []string // put in front of the command
	Uid    uint32   // unprivileged user, 0 = as is
	Bin    string
}

// run waits for the command; a command that does not end in time is reported.
func (k cliCmd) run(c *Case) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	bin := k.Bin
	if bin == "" {
		bin = cliPath()
	}
	argv := append(append(append([]string{}, k.Wrap...), bin), k.Args...)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = k.Dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LANG=C.UTF-8"}
	var out, errb bytes.Buffer
	switch {
	case k.In != nil:
		cmd.Stdin = k.In
	default:
		cmd.Stdin = bytes.NewReader(k.Stdin)
	}
	if k.Stdout != nil {
		cmd.Stdout = k.Stdout
	} else {
		cmd.Stdout = &out
	}
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if k.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: k.Uid, Gid: k.Uid}
	}
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	c.Obs("processes", 1)
	o := cliOut{Out: out.Bytes(), Err: errb.Bytes()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		c.Fail("", nil, "the command did not end within a minute: %s", shellWords(k.Args))
	case err == nil || errors.Is(err, syscall.EPIPE) || errors.Is(err, exec.ErrWaitDelay):
		if cmd.ProcessState != nil {
			o.Code = cmd.ProcessState.ExitCode()
		}
	case errors.As(err, &ee):
		o.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.Sig = ws.Signal()
		}
	default:
		panic(fmt.Sprintf("cannot run the command: %v", err))
	}
	return o
}

func shellWords(a []string) string {
	var q []string
	for _, s := range a {
		q = append(q, "'"+strings.ReplaceAll(s, "'", `'\''`)+"'")
	}
	return "html2markdown " + strings.Join(q, " ")
}

// scratch makes a directory of this case's own.
func (c *Case) scratch() (string, func()) {
	base := c.run.Dir
	d, err := os.MkdirTemp(base, fmt.Sprintf("%s-%d-", c.Stream, c.Idx))
	if err != nil {
		fatal("%v", err)
	}
	return d, func() {
		filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(d)
	}
}

func mustWrite(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

type fileState struct {
	Mode    fs.FileMode
	Ino     uint64
	Nlink   uint64
	Mtime   time.Time
	Content string // of files, or where a link points
}

// snapshot describes everything below a directory.
func snapshot(dir string) map[string]fileState {
	m := map[string]fileState{}
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		f := fileState{Mode: st.Mode()}
		if s, ok := st.Sys().(*syscall.Stat_t); ok {
			f.Ino, f.Nlink = s.Ino, s.Nlink
		}
		switch {
		case st.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			f.Content, f.Mtime = string(b), st.ModTime()
		case st.Mode()&fs.ModeSymlink != 0:
			f.Content, _ = os.Readlink(p)
		case st.IsDir():
			f.Nlink = 0
		}
		rel, _ := filepath.Rel(dir, p)
		m[rel] = f
		return nil
	})
	return m
}

// changes lists what differs between two snapshots: "+path", "-path", "~path".
func changes(a, b map[string]fileState) []string {
	var out []string
	for p, s := range a {
		t, ok := b[p]
		if !ok {
			out = append(out, "-"+p)
		} else if s != t {
			out = append(out, "~"+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, "+"+p)
		}
	}
	sort.Strings(out)
	return out
}

// cliCfg draws a configuration the command has flags for, and the flags.
func cliCfg(r *rand.Rand) (Cfg, []string) {
	var c Cfg
	var a []string
	flag := func(name string) string {
		if chance(r, 0.25) {
			return "-" + name
		}
		return "--" + name
	}
	val := func(name, v string) {
		if chance(r, 0.5) {
			a = append(a, "\x00"+flag(name)+"="+v)
		} else {
			a = append(a, "\x00"+flag(name)+"\x01"+v)
		}
	}
	on := func(name string) {
		a = append(a, "\x00"+flag(name)+pick(r, []string{"", "", "", "=true", "=1", "=T"}))
	}
	off := func(name string) {
		if chance(r, 0.1) {
			a = append(a, "\x00"+flag(name)+pick(r, []string{"=false", "=0", "=F"}))
		}
	}
	if chance(r, 0.4) {
		c.Domain = pick(r, []string{"https://example.com", "http://example.com/sub/page.html?q=1#f", "example.com", "//example.com/x", "https://example.com:8080/a/b/", "https://ü.example/ä", "%zz", "not a domain", "/root/path", "https://user:pw@example.com/", "HTTPS://Example.COM/Path/Sub/", "http://example.com/A/b/C?D=E", " https://example.com/x/ ", "https://example.com/a b/", "example.com/", "https://example.com//", "ftp://Files.example/Pub/", "/"})
		val("domain", c.Domain)
	}
	if chance(r, 0.4) {
		c.Strong = pick(r, strongDelim)
		val("opt-strong-delimiter", c.Strong)
	}
	if chance(r, 0.5) {
		c.Strike = true
		on("plugin-strikethrough")
	} else {
		off("plugin-strikethrough")
	}
	if chance(r, 0.6) {
		c.Table = true
		on("plugin-table")
		b := func(dst *bool, name string) {
			if chance(r, 0.35) {
				*dst = true
				on(name)
			} else {
				off(name)
			}
		}
		s := func(dst *string, name string, xs []string) {
			if chance(r, 0.4) {
				*dst = pick(r, xs)
				val(name, *dst)
			}
		}
		b(&c.SkipEmpty, "opt-table-skip-empty-rows")
		b(&c.Promote, "opt-table-header-promotion")
		b(&c.Present, "opt-table-presentation-tables")
		s(&c.Span, "opt-table-span-cell-behavior", spans)
		s(&c.Newline, "opt-table-newline-behavior", newlinesB)
		s(&c.Padding, "opt-table-cell-padding-behavior", paddings)
	} else {
		for _, n := range []string{"plugin-table", "opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-presentation-tables"} {
			off(n)
		}
	}
	return c, a
}

// joinFlags puts groups of arguments in a random order.
func joinFlags(r *rand.Rand, groups ...[]string) []string {
	var all []string
	for _, g := range groups {
		all = append(all, g...)
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var out []string
	for _, s := range all {
		out = append(out, strings.Split(strings.TrimPrefix(s, "\x00"), "\x01")...)
	}
	return out
}

// opt is one flag with a value, as joinFlags takes it.
func opt(r *rand.Rand, name, v string) []string {
	d := "--"
	if chance(r, 0.25) {
		d = "-"
	}
	if chance(r, 0.5) {
		return []string{d + name + "=" + v}
	}
	return []string{d + name + "\x01" + v}
}
