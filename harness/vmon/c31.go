package main

// C31 (the command touches nothing it was not told to) and C32 (every input
// yields its own complete output): runs in directory trees, with everything
// below a scratch directory recorded before and after.

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var (
	treeDirs  = []string{"", "", "x", "y", "x/x", "x/y", "deep/er/est", "sp ace", "ü", "a.b", "%41", ".hid"}
	treeBases = []string{"index", "index", "a", "a", "b", "page.one", "page", "a.b", "ü", "sp ace", "-dash", "%d", "x%20y", ".conf", "#1", "c'd", "x", "README"}
	treeExts  = []string{".html", ".html", ".html", ".htm", "", ".md", ".HTML", ".xhtml", ".html.bak"}
)

// tree draws relative paths of files.
func tree(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(p string) {
		if p == "" || seen[p] {
			return
		}
		for q := range seen { // a file cannot be a directory as well
			if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
				return
			}
		}
		seen[p] = true
		out = append(out, p)
	}
	for i := 0; i < n; i++ {
		add(path.Join(pick(r, treeDirs), pick(r, treeBases)+pick(r, treeExts)))
	}
	if chance(r, 0.3) && len(out) > 0 {
		// a file named like the output of another
		p := pick(r, out)
		b := strings.TrimSuffix(path.Base(p), path.Ext(p))
		h := fmt.Sprintf("%x", sha256.Sum256([]byte(p)))
		add(path.Join(pick(r, treeDirs), fmt.Sprintf("%s.%s%s", b, h[:10], pick(r, []string{".html", ".md"}))))
	}
	return out
}

// globRe translates the patterns used here into regular expressions.
func globRe(p string) *regexp.Regexp {
	var b strings.Builder
	b.WriteString(`\A`)
	for i := 0; i < len(p); {
		switch {
		case strings.HasPrefix(p[i:], "**/"):
			b.WriteString(`(?:.*/)?`)
			i += 3
		case p[i] == '*':
			b.WriteString(`[^/]*`)
			i++
		case p[i] == '?':
			b.WriteString(`[^/]`)
			i++
		case p[i] == '{':
			b.WriteString(`(?:`)
			i++
		case p[i] == ',':
			b.WriteString(`|`)
			i++
		case p[i] == '}':
			b.WriteString(`)`)
			i++
		default:
			b.WriteString(regexp.QuoteMeta(p[i : i+1]))
			i++
		}
	}
	b.WriteString(`\z`)
	return regexp.MustCompile(`(?s)` + b.String())
}

var globs = []string{"*", "*.html", "**/*", "**/*.html", "**/**/*", "**/**/*.html", "**/*.{html,htm}", "{x,y}/**/*", "*/*.html", "**/{index,a}*", "**/a.*", "{**/a,**/index}.html", "{x,x}/*", "x/**/*", "**/i?dex.*", "{*,**/*}.html", "**/x/**/*", "**/x/*.{html,md,htm}", "**/*.md"}

// pageOf is a document recognisable in its output.
func pageOf(c *Case, id int) string {
	s := fmt.Sprintf("<h1>doc%d</h1><p>text of %d</p>", id, id)
	for k := c.R.IntN(4); k > 0; k-- {
		s += fmt.Sprintf("<p>%d%% more <b>of</b> %d</p>", k, id)
	}
	return s
}

func mustConvert(src string) string {
	s, err := Cfg{}.Convert(src)
	if err != nil {
		panic(err)
	}
	return s
}

func readDirFiles(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			m[e.Name()] = "unreadable: " + err.Error()
		} else {
			m[e.Name()] = string(b)
		}
	}
	return m
}

// manyFiles are up to 1500 more paths, most of the names unique.
func manyFiles(r *rand.Rand, files []string) (out []string) {
	n := scale(r, 10, 1500)
	var dirs []string
	for _, d := range treeDirs {
		ok := true
		for _, f := range files {
			if f == d || strings.HasPrefix(d, f+"/") {
				ok = false
			}
		}
		if ok {
			dirs = append(dirs, d)
		}
	}
	if chance(r, 0.5) {
		dirs = []string{pick(r, dirs)}
	}
	for i := 0; i < n; i++ {
		out = append(out, path.Join(pick(r, dirs), fmt.Sprintf("f%d.html", i)))
	}
	return
}

func c32(c *Case) {
	r := c.R
	dir, clean := c.scratch()
	defer clean()
	files := tree(r, 2+r.IntN(14))
	if c.Stream == "large" {
		files = append(files, manyFiles(r, files)...)
	}
	pages := map[string]string{}
	for i, f := range files {
		pages[f] = pageOf(c, i)
		mustWrite(filepath.Join(dir, "src", f), []byte(pages[f]))
	}
	g := pick(r, globs)
	re := globRe(g)
	want := map[string]string{} // conversion -> input
	for _, f := range files {
		if re.MatchString(f) {
			want[mustConvert(pages[f])] = f
		}
	}
	pattern := pick(r, []string{"src/", "src/", "./src/", dir + "/src/", "src/../src/", "src//"}) + g
	out := pick(r, []string{"out/", "out/", "new/dir/", dir + "/out/", "./out/", "out//"})
	outDir := out
	if !filepath.IsAbs(out) {
		outDir = filepath.Join(dir, out)
	}
	args := withNeutralFlags(r, joinFlags(r, opt(r, "input", pattern), opt(r, "output", out)))
	o := cliCmd{Dir: dir, Args: args}.run(c)
	desc := func(o cliOut) string {
		return fmt.Sprintf("\n    files below src: %s\n    %s\n    %s", quoteAll(files), shellWords(args), o)
	}
	if len(want) == 0 {
		if o.Code != 1 || len(o.Err) == 0 || len(readDirFiles(outDir)) != 0 {
			c.Fail("", nil, "the glob matches nothing, that has to be an error:%s", desc(o))
		}
		c.Obs("globs_matching_nothing", 1)
		return
	}
	compare := func(got map[string]string) string {
		if len(got) != len(want) {
			var names []string
			for k := range got {
				names = append(names, k)
			}
			sort.Strings(names)
			return fmt.Sprintf("%d files match, %d files were written: %s", len(want), len(got), quoteAll(names))
		}
		for name, content := range got {
			f, ok := want[content]
			if !ok {
				return fmt.Sprintf("%q does not hold the conversion of any matched file but %s", name, trunc(quote(content), 300))
			}
			b := strings.TrimSuffix(path.Base(f), path.Ext(f))
			if !strings.HasPrefix(name, b) || !strings.HasSuffix(name, ".md") {
				return fmt.Sprintf("the conversion of %q is in %q", f, name)
			}
		}
		return ""
	}
	if o.Code != 0 {
		c.Fail("", nil, "%d files match, the run fails:%s", len(want), desc(o))
	}
	got := readDirFiles(outDir)
	if msg := compare(got); msg != "" {
		c.Fail("", nil, "%s%s", msg, desc(o))
	}
	if len(o.Out) > 0 || len(o.Err) > 0 {
		c.Fail("", nil, "the run wrote to a stream:%s", desc(o))
	}
	c.Obs("files_matched", len(want))
	// several inputs need a directory
	if len(want) > 1 {
		snap := snapshot(dir)
		bad := pick(r, [][]string{nil, {"--output=single.md"}, {"--output=out"}, {"--output", "out/x.md", "--output-overwrite"}, {"--output=" + strings.TrimRight(out, "/"), "--output-overwrite"}})
		a := append([]string{"--input", pattern}, bad...)
		o := cliCmd{Dir: dir, Args: a}.run(c)
		if ch := changes(snap, snapshot(dir)); o.Code != 1 || len(o.Out) > 0 || len(o.Err) == 0 || len(ch) > 0 {
			c.Fail("", nil, "%d inputs without an output directory have to be refused (changes: %v): %s\n    %s", len(want), ch, shellWords(a), o)
		}
		c.Obs("runs_without_directory", 1)
	}
	// again without overwriting: nothing may change
	snap := snapshot(dir)
	o = cliCmd{Dir: dir, Args: args}.run(c)
	if ch := changes(snap, snapshot(dir)); o.Code != 1 || len(ch) > 0 {
		c.Fail("", nil, "a second run without --output-overwrite has to fail and change nothing, but changed %v:%s", ch, desc(o))
	}
	// inputs change; overwriting gives the same names and the new contents
	old := map[string]string{} // file -> name
	for name, content := range got {
		old[want[content]] = name
	}
	want = map[string]string{}
	for i, f := range files {
		if chance(r, 0.6) {
			pages[f] = pick(r, []string{fmt.Sprintf("<p>%d", i), pageOf(c, i), fmt.Sprintf("<p>new %d", i)})
			mustWrite(filepath.Join(dir, "src", f), []byte(pages[f]))
		}
		if re.MatchString(f) {
			want[mustConvert(pages[f])] = f
		}
	}
	args = append(args, "--output-overwrite")
	o = cliCmd{Dir: dir, Args: args}.run(c)
	if o.Code != 0 {
		c.Fail("", nil, "the run with --output-overwrite fails:%s", desc(o))
	}
	got = readDirFiles(outDir)
	if msg := compare(got); msg != "" {
		c.Fail("", nil, "after changing the inputs and overwriting: %s%s", msg, desc(o))
	}
	for name, content := range got {
		if old[want[content]] != name {
			c.Fail("", nil, "the conversion of %q was in %q, now it is in %q%s", want[content], old[want[content]], name, desc(o))
		}
	}
	c.Obs("rewritten", len(got))
	// inputs with equal contents still have an output each
	if chance(r, 0.6) {
		same := []string{pageOf(c, 7), pageOf(c, 7) + strings.Repeat("<p>padding of the page", r.IntN(300)), "", "<p>"}
		p := pick(r, same)
		unequal := map[string]string{}
		for f, page := range pages {
			unequal[f] = page
			if chance(r, 0.7) {
				pages[f] = p
				if chance(r, 0.1) {
					pages[f] = pick(r, same)
				}
				mustWrite(filepath.Join(dir, "src", f), []byte(pages[f]))
			}
		}
		o := cliCmd{Dir: dir, Args: args}.run(c)
		equal := readDirFiles(outDir)
		if o.Code != 0 || len(equal) != len(got) {
			c.Fail("", nil, "with several inputs of equal contents %d files are there, %d were before:%s", len(equal), len(got), desc(o))
		}
		for name, content := range got {
			f := want[content]
			if equal[name] != mustConvert(pages[f]) {
				c.Fail("", nil, "with several inputs of equal contents %q holds %s, but not the conversion of %q:%s", name, trunc(quote(equal[name]), 300), f, desc(o))
			}
		}
		c.Obs("outputs_of_equal_inputs", len(equal))
		for f, page := range unequal {
			pages[f] = page
			mustWrite(filepath.Join(dir, "src", f), []byte(page))
		}
	}
	// the same tree elsewhere, written in another order, gives the same names
	if chance(r, 0.5) {
		other := filepath.Join(dir, "else where", "root")
		perm := r.Perm(len(files))
		for _, i := range perm {
			mustWrite(filepath.Join(other, "src", files[i]), []byte(pages[files[i]]))
		}
		p2 := pick(r, []string{filepath.Join(other, "src") + "/" + g, "else where/root/src/" + g, "./else where/root/./src/" + g})
		a := []string{"--input=" + p2, "--output", "again/"}
		o := cliCmd{Dir: dir, Args: a}.run(c)
		again := readDirFiles(filepath.Join(dir, "again"))
		if o.Code != 0 || fmt.Sprint(again) != fmt.Sprint(got) {
			c.Fail("", nil, "the same tree in another place gives other files: %s\n    %s%s\n    first: %s\n    then:  %s", shellWords(a), o, desc(o), trunc(quote(fmt.Sprint(got)), 900), trunc(quote(fmt.Sprint(again)), 900))
		}
		c.Obs("moved_trees", 1)
	}
	if len(want) > 1 {
		c.Seen(g + "|" + strings.Join(files, "|"))
	}
	c.Sample("%s over %s => %d files", shellWords(args), quoteAll(files), len(got))
}

func quoteAll(xs []string) string {
	var q []string
	for _, x := range xs {
		q = append(q, quote(x))
	}
	return strings.Join(q, " ")
}

// c31: prior contents of every kind.
func c31(c *Case) {
	r := c.R
	dir, clean := c.scratch()
	defer clean()
	join := func(p string) string { return filepath.Join(dir, filepath.FromSlash(p)) }
	var inputs []string
	pages := map[string]string{}
	for i, f := range tree(r, 1+r.IntN(5)) {
		p := "src/" + f
		inputs = append(inputs, p)
		pages[p] = pageOf(c, i)
		if chance(r, 0.25) {
			pages[p] = pick(r, []string{"", " ", "<p></p>", "<!-- x -->", "x", "<p>\n</p>\n", pageOf(c, i) + strings.Repeat("<p>long "+fmt.Sprint(i), 2000)})
		}
		mustWrite(join(p), []byte(pages[p]))
	}
	for i, p := range []string{"other/keep.md", "other/index.md", "keep.html", "other/sub/x.md"} {
		mustWrite(join(p), []byte(fmt.Sprintf("outside %d, longer than the output of most of the documents, so that a part of it would remain\n", i)))
	}
	overwrite := chance(r, 0.5)
	multi := chance(r, 0.6)
	single := pick(r, inputs)
	var args, targets []string
	inArg, outArg := "", ""
	outDir := pick(r, []string{"out", "out", "out", "src", "src", "other", "new/deep"})
	var sel []string
	var re *regexp.Regexp
	if multi {
		g := pick(r, []string{"**/*", "*", "**/*.html", "**/*.md"})
		re = globRe("src/" + g)
		for _, p := range inputs {
			if re.MatchString(p) {
				sel = append(sel, p)
			}
		}
		inArg = pick(r, []string{"", "./", dir + "/"}) + "src/" + g
	} else {
		sel = []string{single}
		inArg = pick(r, []string{"", "./", dir + "/"}) + single
	}
	toDir := multi || chance(r, 0.4)
	if toDir {
		outArg = outDir + "/"
		for _, p := range sel {
			b := strings.TrimSuffix(path.Base(p), path.Ext(p))
			targets = append(targets, outDir+"/"+b+".md")
		}
	} else {
		t := pick(r, []string{outDir + "/res.md", outDir + "/index.md", "other/keep.md", "keep.html", "top.md", single, "other", "noext", outDir + "/noext", "other/.dot", "a.b.c", outDir + "/res.", "sp ace", "src/" + pick(r, treeBases) + ".md", "lnk/" + "index.md"})
		outArg = t
		targets = []string{t}
	}
	form := r.IntN(5)
	switch form {
	case 0:
		outArg = "./" + outArg
	case 1:
		outArg = dir + "/" + outArg
	case 2:
		outArg = "src/../" + outArg
	}
	// prior contents
	isInput := map[string]bool{}
	for _, p := range inputs {
		isInput[p] = true
	}
	prior := "none"
	for _, t := range targets {
		if isInput[t] || chance(r, 0.4) {
			continue
		}
		if st, err := os.Lstat(join(t)); err == nil && st.IsDir() {
			continue
		}
		kind := pick(r, []string{"file", "file", "empty", "readonly", "dir", "fulldir", "symlink", "dangling", "loop", "hardlink", "dirlink", "fifo"})
		if (outDir == "src" && multi) && (kind == "fifo" || kind == "symlink" || kind == "dirlink" || kind == "dangling") {
			kind = "file" // it would be an input
		}
		if kind == "fifo" && overwrite {
			kind = "file" // opening it would wait for a reader
		}
		os.MkdirAll(filepath.Dir(join(t)), 0o755)
		os.Remove(join(t))
		switch kind {
		case "file":
			mustWrite(join(t), []byte("old contents of the target "+strings.Repeat("long ", 200)))
		case "empty":
			mustWrite(join(t), nil)
		case "readonly":
			mustWrite(join(t), []byte("read only "+strings.Repeat("long ", 100)))
			os.Chmod(join(t), 0o444)
		case "dir":
			os.Mkdir(join(t), 0o755)
		case "fulldir":
			mustWrite(join(t)+"/inside.md", []byte("inside"))
		case "symlink":
			os.Symlink(join("other/keep.md"), join(t))
		case "dangling":
			os.Symlink(join("other/missing.md"), join(t))
		case "loop":
			os.Symlink(filepath.Base(t), join(t))
		case "hardlink":
			os.Link(join("other/index.md"), join(t))
		case "dirlink":
			os.Symlink(join("other/sub"), join(t))
		case "fifo":
			mkfifo(join(t))
		}
		prior = kind
		c.Obs("prior_"+kind, 1)
	}
	if chance(r, 0.2) && !strings.HasPrefix(outArg, "lnk/") {
		// further files in the output directory
		mustWrite(join(outDir+"/unrelated.md"), []byte("unrelated"))
	}
	if strings.Contains(outArg, "lnk/") {
		os.Symlink("other", join("lnk"))
	}
	if outDir == "src" && multi {
		// what was put into the directory is among the inputs
		sel, targets = nil, nil
		filepath.WalkDir(join("src"), func(p string, e fs.DirEntry, err error) error {
			rel, _ := filepath.Rel(dir, p)
			if err == nil && !e.IsDir() && re.MatchString(rel) {
				sel = append(sel, rel)
				isInput[rel] = true
				b, _ := os.ReadFile(p)
				pages[rel] = string(b)
				targets = append(targets, "src/"+strings.TrimSuffix(path.Base(rel), path.Ext(rel))+".md")
			}
			return nil
		})
	}
	args = withNeutralFlags(r, joinFlags(r, opt(r, "input", inArg), opt(r, "output", outArg)))
	if overwrite {
		args = append(args, "--output-overwrite")
	}
	before := snapshot(dir)
	o := cliCmd{Dir: dir, Args: args}.run(c)
	after := snapshot(dir)
	ch := changes(before, after)
	fail := func(format string, a ...any) {
		c.Fail("", nil, "%s\n    inputs %s\n    %s (prior contents of the target: %s)\n    %s\n    changes: %s", fmt.Sprintf(format, a...), quoteAll(sel), shellWords(args), prior, o, quoteAll(ch))
	}
	if len(o.Out) > 0 {
		fail("something was written to standard output")
	}
	if (o.Code != 0) != (len(o.Err) > 0) || o.Code < 0 || o.Code > 1 {
		fail("exit status and messages disagree")
	}
	// which paths may the run write to?
	may := map[string]bool{}
	outIno := map[uint64]bool{}
	for _, t := range targets {
		p := t
		if real, err := filepath.EvalSymlinks(join(t)); err == nil {
			if rel, err := filepath.Rel(dir, real); err == nil {
				p = rel
			}
			if s, ok := before[p]; ok && s.Nlink > 1 {
				outIno[s.Ino] = true
			}
		} else if s, ok := before[t]; ok && s.Mode&fs.ModeSymlink != 0 {
			p, _ = filepath.Rel(dir, s.Content)
		}
		may[p] = true
		if strings.HasPrefix(t, "lnk/") {
			may["other/"+strings.TrimPrefix(t, "lnk/")] = true
		}
	}
	dup := regexp.MustCompile(`\.[0-9a-f]{10,64}\.md\z`)
	for _, x := range ch {
		p := x[1:]
		st, was := after[p], before[p]
		switch x[0] {
		case '-':
			fail("%q was removed", p)
		case '+':
			if st.Mode.IsDir() {
				if !(p == outDir || strings.HasPrefix(outDir+"/", p+"/")) {
					fail("the directory %q was made", p)
				}
				continue
			}
			inOut := toDir && filepath.Dir(p) == outDir && (may[p] || dup.MatchString(p))
			if !inOut && !(!toDir && may[p]) && !(overwrite && may[p]) {
				fail("the file %q was made", p)
			}
			if !st.Mode.IsRegular() {
				fail("%q is no regular file", p)
			}
			// a failing run may leave the outputs it got to, but no broken ones
			ok := false
			for _, in := range sel {
				if mustConvert(pages[in]) == st.Content {
					ok = true
				}
			}
			if !ok {
				fail("%q does not hold the conversion of an input but %s", p, trunc(quote(st.Content), 300))
			}
		case '~':
			if was.Mode.IsDir() && st.Mode.IsDir() {
				continue
			}
			if !overwrite {
				fail("%q was changed without --output-overwrite", p)
			}
			if was.Mode != st.Mode || was.Ino != st.Ino {
				fail("%q was replaced by something else", p)
			}
			dupOut := toDir && filepath.Dir(p) == outDir && dup.MatchString(p)
			if !may[p] && !dupOut && !outIno[st.Ino] {
				fail("%q was changed", p)
			}
			if contains29(sel, p) {
				// only the output for this very file may go there
				if st.Content != mustConvert(pages[p]) {
					fail("the input %q was replaced by the conversion of another", p)
				}
			}
			ok := false
			for _, in := range sel {
				if mustConvert(pages[in]) == st.Content {
					ok = true
				}
			}
			if !ok {
				fail("%q was not replaced completely but holds %s", p, trunc(quote(st.Content), 300))
			}
		}
	}
	existed := false
	for _, t := range targets {
		if _, ok := before[t]; ok {
			existed = true
		}
		if strings.HasPrefix(t, "lnk/") {
			if _, ok := before["other/"+strings.TrimPrefix(t, "lnk/")]; ok {
				existed = true
			}
		}
	}
	if existed && !overwrite && o.Code == 0 {
		fail("a target existed, but the run succeeds without --output-overwrite")
	}
	if o.Code == 0 && len(targets) == 1 {
		b, err := os.ReadFile(join(targets[0]))
		if want := mustConvert(pages[sel[0]]); err != nil || string(b) != want {
			fail("the target holds %s instead of %s (%v)", trunc(quote(string(b)), 300), trunc(quote(want), 300), err)
		}
	}
	c.Obs(fmt.Sprintf("exit_%d_overwrite_%v", o.Code, overwrite), 1)
	c.Obs("paths_watched", len(before))
	c.Seen(fmt.Sprint(overwrite, multi, inArg, outArg, prior, len(inputs), quoteAll(sel)))
	c.Sample("%s, target before: %s => exit %d, changes %s", shellWords(args), prior, o.Code, quoteAll(ch))
}

// several commands at once want to make the same files
func c31race(c *Case) {
	r := c.R
	dir, clean := c.scratch()
	defer clean()
	n := 2 + r.IntN(4)
	multi := chance(r, 0.4)
	want := map[string]int{}
	for k := 0; k < n; k++ {
		m := 1
		if multi {
			m = 3
		}
		for j := 0; j < m; j++ {
			page := fmt.Sprintf("<p>from %d file %d</p>%s", k, j, strings.Repeat(fmt.Sprintf("<p>%d filler</p>", k), r.IntN(2000)))
			mustWrite(filepath.Join(dir, fmt.Sprint("src", k), fmt.Sprintf("p%d.html", j)), []byte(page))
			want[mustConvert(page)] = k
		}
	}
	kind := "nothing"
	if chance(r, 0.4) {
		kind = "a dangling link"
		os.Mkdir(filepath.Join(dir, "out"), 0o755)
		os.Symlink("../away.md", filepath.Join(dir, "out", "p0.md"))
	}
	res := make([]cliOut, n)
	var wg sync.WaitGroup
	obs := make([]*Case, n)
	for k := 0; k < n; k++ {
		obs[k] = &Case{run: c.run, counts: map[string]int{}, Stream: c.Stream, Idx: c.Idx}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			a := []string{"--input", fmt.Sprintf("src%d/*", k), "--output", "out/"}
			if !multi {
				a = []string{"--input", fmt.Sprintf("src%d/p0.html", k), "--output", "out/p0.md"}
			}
			res[k] = cliCmd{Dir: dir, Args: a}.run(obs[k])
		}()
	}
	wg.Wait()
	won := 0
	for k := range res {
		if obs[k].viol != nil {
			c.viol = obs[k].viol
			panic(caseAbort{})
		}
		c.Obs("processes", obs[k].counts["processes"])
		if res[k].Code == 0 {
			won++
		}
	}
	got := readDirFiles(filepath.Join(dir, "out"))
	if kind != "nothing" {
		if _, err := os.Lstat(filepath.Join(dir, "away.md")); err == nil || won > 0 {
			c.Fail("", nil, "a file was made through a dangling link without --output-overwrite, or %d runs succeeded", won)
		}
		delete(got, "p0.md")
	} else if won > 1 || (!multi && won != 1) {
		c.Fail("", nil, "%d of %d commands making the same output at once succeeded: %v", won, n, res)
	}
	for name, content := range got {
		if _, ok := want[content]; !ok {
			c.Fail("", nil, "%d commands at once left %q holding no conversion of an input: %s", n, name, trunc(quote(content), 300))
		}
	}
	c.Obs("races", 1)
	c.Seen(fmt.Sprint(n, multi, kind, c.Idx))
	c.Sample("%d commands at once, %d files each, target before: %s => %d succeeded", n, len(want)/n, kind, won)
}

func init() {
	register(&Check{
		ID:      "C31",
		Rule:    "the built command run in directory trees with prior contents of every kind (files, links, directories, pipes) at the targets; every path below the scratch directory recorded before and after (type, inode, links, time, contents); concurrent runs with one target; distinct by arguments and prior contents",
		NeedCLI: true,
		Streams: []Stream{
			{Name: "prior", N: 5000, F: c31},
			{Name: "race", N: 200, F: c31race},
		},
	})
	register(&Check{
		ID:      "C32",
		Rule:    "the built command run over generated directory trees and globs; the files in the output directory compared with the conversions of the files matched by an independent reading of the pattern; repeated, overwriting and moved runs; distinct by pattern and tree with at least two matched files",
		NeedCLI: true,
		Streams: []Stream{
			{Name: "trees", N: 2500, F: c32},
			large(80, c32),
		},
	})
}
