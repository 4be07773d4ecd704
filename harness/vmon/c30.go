package main

// C30: the command converts exactly as the library does.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func cliDoc(c *Case, cfg Cfg) string {
	r := c.R
	switch r.IntN(12) {
	case 0:
		return pick(r, []string{"", " ", "\n", "<p></p>", "<script>x</script>", "\x00", "text", "\xff\xfe\x80", "\ufeff<p>bom</p>", "100%", "%s %d %n %!x(MISSING)", "a\\nb", "<p>a\r\nb</p>\r\n"})
	case 1:
		g := newG(r, cfg)
		var b strings.Builder
		n := pick(r, []int{100, 1000, 20000})
		for b.Len() < n*10 {
			fmt.Fprintf(&b, "<p>%s <b>%s</b> %s</p>\n", g.token(), pick(r, []string{"%d", "50%", "%!", "x%20y", "%%", "b"}), pick(r, []string{"<a href='/x%20y?z=%s'>%s</a>", "é", "\\"}))
		}
		return b.String()
	}
	s := anyDoc(r, cfg)
	if chance(r, 0.3) {
		s = strings.ReplaceAll(s, " ", pick(r, []string{" %s ", " %d ", " 5% ", " %v", " \\n "}))
	}
	return s
}

// largeDoc has up to some megabytes.
func largeDoc(c *Case, cfg Cfg) string {
	if chance(c.R, 0.4) {
		return grownDoc(c.R, cfg)
	}
	g := newG(c.R, cfg)
	n := scale(c.R, 1000, 6<<20)
	c.Obs("large_bytes", n)
	var b strings.Builder
	p := pick(c.R, []string{"<p>", "", "\n", "<li>", "é "})
	for b.Len() < n {
		b.WriteString(p + g.token() + " <b>" + g.words(200) + "</b> text\n")
	}
	return b.String()
}

func c30(c *Case) {
	r := c.R
	cfg, flags := cliCfg(r)
	src := cliDoc(c, cfg)
	if c.Stream == "large" {
		src = largeDoc(c, cfg)
	}
	c.lastHTML, c.lastCfg = src, &cfg
	want, werr := cfg.Convert(src)
	dir, clean := c.scratch()
	defer clean()
	k := cliCmd{Dir: dir}
	var groups = [][]string{flags}
	in, out := pick(r, []string{"pipe", "pipe", "file", "flag", "flag", "abs"}), pick(r, []string{"stdout", "stdout", "tofile", "file", "dir", "newdir"})
	mustWrite(filepath.Join(dir, "in", "page.html"), []byte(src))
	base := "output"
	switch in {
	case "pipe":
		k.Stdin = []byte(src)
	case "file":
		f, err := os.Open(filepath.Join(dir, "in", "page.html"))
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		k.In = f
	case "flag":
		groups = append(groups, opt(r, "input", pick(r, []string{"in/page.html", "./in/page.html", "in/../in/page.html", "in/p*.html", "**/page.html", "in/page.{html,htm}"})))
		k.Stdin = []byte("<p>NOT THIS</p>") // an explicit input takes precedence
		base = "page"
	case "abs":
		groups = append(groups, opt(r, "input", filepath.Join(dir, "in", "page.html")))
		base = "page"
	}
	target := ""
	switch out {
	case "tofile":
		target = ">stdout.txt"
		f, err := os.Create(filepath.Join(dir, "stdout.txt"))
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		k.Stdout = f
	case "file":
		target = pick(r, []string{"res.md", "./res.md", "new/dir/res.txt", "noext", "in/../res", "ü %d.md"})
		groups = append(groups, opt(r, "output", target))
	case "dir":
		os.Mkdir(filepath.Join(dir, "out"), 0o755)
		groups = append(groups, opt(r, "output", "out/"))
		target = "out/" + base + ".md"
	case "newdir":
		groups = append(groups, opt(r, "output", "a/b c/"))
		target = "a/b c/" + base + ".md"
	}
	if chance(r, 0.2) {
		groups = append(groups, []string{"--output-overwrite"})
	}
	if chance(r, 0.2) && !strings.Contains(strings.ToLower(src), "frameset") { // selectors that keep everything
		groups = append(groups, opt(r, "include-selector", pick(r, []string{"body", "nope,body", "body , zz-top", "body,#nope,.none", "html > body, table > body"})))
		c.Obs("selector_keeps_all", 1)
	}
	if chance(r, 0.15) {
		groups = append(groups, opt(r, "exclude-selector", pick(r, []string{"zz-none", "#zz-none, .zz-none", "html > zz-none"})))
	}
	k.Args = joinFlags(r, groups...)
	o := k.run(c)
	describe := func() string { return fmt.Sprintf("\n    %s (input: %s)\n    %s", shellWords(k.Args), in, o) }
	c.Obs("in_"+in, 1)
	c.Obs("out_"+out, 1)
	if werr != nil {
		if o.Code != 1 || len(o.Out) > 0 || len(o.Err) == 0 {
			c.Fail(src, &cfg, "the library reports %v, the command does not fail:%s", werr, describe())
		}
		c.Obs("library_errors", 1)
		return
	}
	if o.Code != 0 {
		c.Fail(src, &cfg, "the library converts this, the command fails:%s", describe())
	}
	if len(o.Err) > 0 {
		c.Fail(src, &cfg, "a successful run wrote to standard error:%s", describe())
	}
	got := o.Out
	switch out {
	case "stdout", "tofile":
		if out == "tofile" {
			got, _ = os.ReadFile(filepath.Join(dir, "stdout.txt"))
		}
		want += "\n"
	default:
		if len(o.Out) > 0 {
			c.Fail(src, &cfg, "with --output, something was written to standard output:%s", describe())
		}
		b, err := os.ReadFile(filepath.Join(dir, filepath.FromSlash(target)))
		if err != nil {
			c.Fail(src, &cfg, "no output file: %v%s", err, describe())
		}
		got = b
	}
	if !bytes.Equal(got, []byte(want)) {
		c.Fail(src, &cfg, "the library gives %s\n    the command %s%s", trunc(quote(want), 700), trunc(quote(string(got)), 700), describe())
	}
	c.Obs("bytes_compared", len(got))
	if len(want) > 1 {
		c.Seen(strings.Join(flags, " ") + in + out + src)
	}
	c.Sample("%s => %d bytes", shellWords(k.Args), len(got))
}

// flags that have to be refused
func c30bad(c *Case) {
	r := c.R
	cfg, flags := cliCfg(r)
	src := "<p>text <b>bold</b></p><table><tr><td>c</td></tr></table>"
	dir, clean := c.scratch()
	defer clean()
	mustWrite(filepath.Join(dir, "in.html"), []byte(src))
	k := cliCmd{Dir: dir, Stdin: []byte(src)}
	kind := r.IntN(10)
	var bad []string
	tableFlags := func() []string {
		return [][]string{{"--opt-table-skip-empty-rows"}, {"--opt-table-header-promotion"}, {"--opt-table-presentation-tables=true"},
			opt(r, "opt-table-span-cell-behavior", pick(r, spans[1:])), opt(r, "opt-table-newline-behavior", pick(r, newlinesB[1:])),
			opt(r, "opt-table-cell-padding-behavior", pick(r, paddings[1:]))}[r.IntN(6)]
	}
	drop := func(names ...string) {
		var keep []string
		for _, f := range flags {
			ok := true
			for _, n := range names {
				if strings.Contains(f, n) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, f)
			}
		}
		flags = keep
	}
	what := ""
	switch kind {
	case 0: // table options without the plugin
		what = "a table option without --plugin-table"
		drop("table")
		bad = tableFlags()
		if chance(r, 0.3) {
			bad = append(bad, "--plugin-table=false")
		}
	case 1:
		what = "an unknown flag"
		bad = []string{pick(r, []string{"--plugin-tables", "--opt-strong", "--nope", "-x", "--Domain=x", "--strikethrough", "--opt-table-cell-padding-behaviour=none", "--overwrite", "--in=x", "--include-selectors=p", "---v", "--=x"})}
	case 2:
		what = "a bad strong delimiter"
		drop("strong")
		bad = opt(r, "opt-strong-delimiter", pick(r, []string{"*", "_", "***", "*_", "+", " **", "** ", "x", "b", "__*", "~~", "**\n"}))
	case 3:
		what = "a bad table option"
		drop("plugin-table", "opt-table")
		bad = append([]string{"--plugin-table"}, [][]string{
			opt(r, "opt-table-span-cell-behavior", pick(r, []string{"Empty", "mirrored", "x", " mirror", "emptyy"})),
			opt(r, "opt-table-newline-behavior", pick(r, []string{"Skip", "keep", "preserve ", "x"})),
			opt(r, "opt-table-cell-padding-behavior", pick(r, []string{"None", "align", "min", "minimal-", "x"}))}[r.IntN(3)]...)
	case 4:
		what = "a selector that cannot be parsed"
		bad = opt(r, pick(r, []string{"include-selector", "exclude-selector"}), pick(r, []string{"p[", "", " ", ">", "p >", "::x", "p:nope(", "a,,b", "a,", "#", ".", "[=x]", ":not("}))
	case 5:
		what = "positional arguments"
		bad = nil
		k.Args = append(joinFlags(r, flags), pick(r, [][]string{{"file.html"}, {"--", "x"}, {"in.html", "--version"}, {"convert", "in.html"}, {"-"}, {""}})...)
	case 6:
		what = "the same flag twice or an empty path"
		bad = pick(r, [][]string{{"--input=in.html", "--input=in.html"}, {"--output=a.md", "-output=b.md"}, {"--input="}, {"--output= "}, {"--input=\t"}, {"--output="}})
	case 7:
		what = "a value that is no boolean"
		bad = []string{"--" + pick(r, []string{"plugin-table", "plugin-strikethrough", "output-overwrite", "version", "v", "opt-table-skip-empty-rows"}) + "=" + pick(r, []string{"maybe", "yes", "2", "on", " ", "truee"})}
	case 8:
		what = "a flag without its value"
		k.Args = append(joinFlags(r, flags), "--"+pick(r, []string{"domain", "input", "output", "opt-strong-delimiter", "include-selector", "exclude-selector"}))
	case 9:
		what = "an input that does not exist"
		bad = opt(r, "input", pick(r, []string{"nothere.html", "*.htm", "sub/*.html", "in.html/x", "in/*", "./", "/nonexistent/x.html", "in.htm{,x}", "[", "{a"}))
	}
	if k.Args == nil {
		if chance(r, 0.4) && kind != 6 {
			bad = append(bad, "--output="+pick(r, []string{"res.md", "out/", "in.html"}))
			if chance(r, 0.5) {
				bad = append(bad, "--output-overwrite")
			}
		}
		k.Args = joinFlags(r, flags, bad)
	}
	before := snapshot(dir)
	o := k.run(c)
	after := snapshot(dir)
	for _, ch := range changes(before, after) {
		if st := after[ch[1:]]; ch[0] != '~' || !st.Mode.IsDir() {
			if !(ch[0] == '+' && st.Mode.IsDir()) {
				c.Fail("", &cfg, "%s, but a file changed (%s): %s\n    %s", what, ch, shellWords(k.Args), o)
			}
		}
	}
	if o.Code != 1 || len(o.Out) != 0 || len(bytes.TrimSpace(o.Err)) == 0 {
		c.Fail("", &cfg, "%s has to be refused with status 1, a message and no output: %s\n    %s", what, shellWords(k.Args), o)
	}
	c.Obs("refused: "+what, 1)
	c.Seen(strings.Join(k.Args, " "))
	c.Sample("%s => %s", shellWords(k.Args), o)
}

func init() {
	register(&Check{
		ID:      "C30",
		Rule:    "the built command run over generated documents with random flags, spellings of flags, inputs (pipe, redirected file, --input) and outputs (stdout, redirected file, file, directory), compared byte for byte with the library in this process; and runs that have to be refused; distinct by arguments and document",
		NeedCLI: true,
		Streams: []Stream{
			{Name: "runs", N: 6000, F: c30},
			large(150, c30),
			{Name: "refused", N: 2500, F: c30bad},
		},
	})
}
