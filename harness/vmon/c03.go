package main

// C03: the result is a function of the document and the configuration.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

// choppyReader returns its bytes in arbitrary pieces, with occasional empty
// reads, and with the end of the data reported together with the last bytes or
// after them.
type choppyReader struct {
	b       []byte
	sizes   []int
	i       int
	eofWith bool
	err     error // at the end; nil = io.EOF
	reads   int
}

func (c *choppyReader) Read(p []byte) (int, error) {
	c.reads++
	end := c.err
	if end == nil {
		end = io.EOF
	}
	if len(c.b) == 0 {
		return 0, end
	}
	n := c.sizes[c.i%len(c.sizes)]
	c.i++
	n = min(n, len(p), len(c.b))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if c.eofWith && len(c.b) == 0 {
		return n, end
	}
	return n, nil
}

func choppy(r *rand.Rand, src string) *choppyReader {
	var sizes []int
	for k := 1 + r.IntN(5); k > 0; k-- {
		sizes = append(sizes, pick(r, []int{1, 1, 2, 3, 5, 7, 16, 100, 1000, 4096, 0}))
	}
	all0 := true
	for _, s := range sizes {
		if s > 0 {
			all0 = false
		}
	}
	if all0 {
		sizes = append(sizes, 1)
	}
	return &choppyReader{b: []byte(src), sizes: sizes, eofWith: chance(r, 0.5)}
}

// decorate adds attributes to the start tags: several classes, several values
// for the same purpose, duplicates.
func decorate(r *rand.Rand, src string) string {
	return startTag.ReplaceAllStringFunc(src, func(t string) string {
		if !chance(r, 0.3) {
			return t
		}
		var cl []string
		for k := 1 + r.IntN(4); k > 0; k-- {
			cl = append(cl, pick(r, []string{"language-go", "lang-js", "language-c++", "language-", "lang-x", "hljs", "highlight", "a", "b", "no-lang-y"}))
		}
		t += ` class="` + strings.Join(cl, " ") + `"`
		for k := r.IntN(4); k > 0; k-- {
			t += " " + pick(r, []string{`title="t1"`, `title="t2"`, `href="/h1"`, `href="/h2"`, `src="/s1"`, `alt="a1"`, `data-src="/d"`, `start=7`, `start=9`, `align=left`, `align=center`, `colspan=2`, `rowspan=2`, `lang=de`, `id=x`, `name=y`, `role=presentation`, `style="text-align:right"`})
		}
		return t
	})
}

var startTag = regexp.MustCompile(`<[a-zA-Z][a-zA-Z0-9]*`)

// anyDoc draws a document: generated, soup or mutated test data.
func anyDoc(r *rand.Rand, cfg Cfg) string {
	s := plainDoc(r, cfg)
	if chance(r, 0.25) {
		s = decorate(r, s)
	}
	return s
}

func plainDoc(r *rand.Rand, cfg Cfg) string {
	switch r.IntN(5) {
	case 0:
		return soup(r, 1+r.IntN(40))
	case 1:
		s := mutate(r, pick(r, corpus()))
		if len(s) > 6000 {
			s = s[:6000]
		}
		return s
	default:
		g := newG(r, cfg)
		g.hostile = pick(r, []float64{0, 0.2, 0.6})
		return g.doc().HTML()
	}
}

var sharedConv sync.Map

// used returns a converter for cfg that other cases have used and will use.
func used(cfg Cfg) *converter.Converter {
	k := cfg
	k.Domain = ""
	s := k.String()
	if v, ok := sharedConv.Load(s); ok {
		return v.(*converter.Converter)
	}
	v, _ := sharedConv.LoadOrStore(s, cfg.New())
	return v.(*converter.Converter)
}

func c03entries(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	if chance(r, 0.3) {
		cfg = Cfg{Domain: cfg.Domain}
	}
	src := anyDoc(r, cfg)
	c.lastHTML, c.lastCfg = src, &cfg
	want, err := cfg.Convert(src)
	if err != nil {
		// only the parser's nesting limit can be the cause; it must be so everywhere
		want = "error " + err.Error()
	}
	check := func(how string, got string, err error) {
		if err != nil {
			got = "error " + err.Error()
		}
		c.Obs("entry_"+strings.Fields(how)[0], 1)
		if got != want {
			c.Fail(src, &cfg, "%s gave another result than a fresh converter's ConvertString:\n    fresh: %s\n    other: %s", how, trunc(quote(want), 600), trunc(quote(got), 600))
		}
	}
	s, err := cfg.Convert(src)
	check("repeat (fresh converter again)", s, err)

	s, err = used(Cfg{}).ConvertString(src, cfg.ConvOpts()...)
	if cfg == (Cfg{Domain: cfg.Domain}) {
		check("shared (converter used by all cases)", s, err)
	}
	conv := cfg.New()
	for k := r.IntN(4); k > 0; k-- {
		o := anyDoc(r, cfg)
		var oo []converter.ConvertOptionFunc
		if chance(r, 0.4) {
			oo = append(oo, converter.WithDomain(pick(r, []string{"http://other.example/x/", "[", "z"})))
		}
		conv.ConvertString(o, oo...)
	}
	if chance(r, 0.2) {
		conv.ConvertString(src, converter.WithDomain("https://else.example"))
	}
	s, err = conv.ConvertString(src, cfg.ConvOpts()...)
	check("history (converter used for other documents before)", s, err)

	cr := choppy(r, src)
	b, err := conv.ConvertReader(cr, cfg.ConvOpts()...)
	check("reader (chopped into pieces)", string(b), err)
	c.Obs("reads", cr.reads)

	b, err = cfg.New().ConvertReader(bufio.NewReader(strings.NewReader(src)), cfg.ConvOpts()...)
	check("buffered reader", string(b), err)

	if doc := parseHTML(src); doc != nil {
		b, err = conv.ConvertNode(doc, cfg.ConvOpts()...)
		check("node (parsed tree)", string(b), err)
	}
	// assembled by hand
	var as *converter.Converter
	switch cfg.Escape {
	case "disabled":
		as = converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled))
	case "smart":
		as = converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeSmart))
	default:
		as = converter.NewConverter()
	}
	ps := cfg.Plugins()
	for _, p := range ps {
		as.Register.Plugin(p)
	}
	s, err = as.ConvertString(src, cfg.ConvOpts()...)
	check("assembled (plugins registered one by one)", s, err)

	// each plugin through its own WithPlugins
	s, err = converterOf(cfg, base.NewBasePlugin()).ConvertString(src, cfg.ConvOpts()...)
	check("options (one WithPlugins per plugin)", s, err)

	if cfg == (Cfg{Domain: cfg.Domain}) {
		s, err = htmltomarkdown.ConvertString(src, cfg.ConvOpts()...)
		check("package ConvertString", s, err)
		b, err = htmltomarkdown.ConvertReader(choppy(r, src), cfg.ConvOpts()...)
		check("package ConvertReader", string(b), err)
		if doc := parseHTML(src); doc != nil {
			b, err = htmltomarkdown.ConvertNode(doc, cfg.ConvOpts()...)
			check("package ConvertNode", string(b), err)
		}
	}
	c.Seen(src + cfg.String())
	c.Sample("%s %q", cfg, trunc(src, 200))
}

// converterOf gives each plugin its own option.
func converterOf(cfg Cfg, b converter.Plugin) *converter.Converter {
	ps := cfg.Plugins()
	o := converter.WithPlugins(b)
	p2 := converter.WithPlugins(ps[1:]...)
	esc := converter.WithEscapeMode(converter.EscapeModeSmart)
	if cfg.Escape == "disabled" {
		esc = converter.WithEscapeMode(converter.EscapeModeDisabled)
	}
	return converter.NewConverter(o, esc, p2)
}

// ---- another process ----

type convJob struct {
	HTML []byte `json:"h"`
	Cfg  Cfg    `json:"c"`
}

func c03process(c *Case) {
	r := c.R
	var jobs []convJob
	var want [][]byte
	for k := 0; k < 60; k++ {
		cfg := anyCfg(r)
		if chance(r, 0.5) {
			cfg = Cfg{Table: true, Strike: true}
		}
		src := anyDoc(r, cfg)
		s, err := cfg.Convert(src)
		if err != nil {
			s = "error " + err.Error()
		}
		jobs = append(jobs, convJob{[]byte(src), cfg})
		want = append(want, []byte(s))
	}
	order := r.Perm(len(jobs))
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, i := range order {
		enc.Encode(jobs[i])
	}
	cmd := exec.Command(self(), "helper", "convert")
	cmd.Stdin = &in
	env := []string{"PATH=/nonexistent", "HOME=/nonexistent", "TZ=" + pick(r, []string{"", "Asia/Tokyo", "America/New_York"}), "LANG=" + pick(r, []string{"C", "tr_TR.UTF-8", "de_DE"}), "GOMAXPROCS=" + pick(r, []string{"1", "2", "8"}), "GOGC=" + pick(r, []string{"off", "1", "100"}), "VMON_REPO=" + repoDir()}
	cmd.Env = env
	cmd.Dir = "/"
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("helper process: %v", err))
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for _, i := range order {
		var got []byte
		if err := dec.Decode(&got); err != nil {
			panic(fmt.Sprintf("helper output: %v", err))
		}
		c.Obs("results_of_other_processes", 1)
		if !bytes.Equal(got, want[i]) {
			cfg := jobs[i].Cfg
			c.Fail(string(jobs[i].HTML), &cfg, "another process (%v) gave %s instead of %s", env[2:6], trunc(quote(string(got)), 600), trunc(quote(string(want[i])), 600))
		}
		c.Seen(string(jobs[i].HTML))
	}
	c.Sample("process with %v: %d conversions", env[2:6], len(jobs))
}

// helperConvert answers conversion jobs, sharing converters between them.
func helperConvert() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	enc := json.NewEncoder(w)
	for {
		var j convJob
		if err := dec.Decode(&j); err != nil {
			return
		}
		s, err := used(j.Cfg).ConvertString(string(j.HTML), j.Cfg.ConvOpts()...)
		if err != nil {
			s = "error " + err.Error()
		}
		enc.Encode([]byte(s))
	}
}

// c03kept: a result stays what it is whatever is converted later, it may be
// overwritten by the caller, and the bytes of the input are only read.
func c03kept(c *Case) {
	r := c.R
	type res struct {
		got  []byte
		was  string
		src  string
		conv string
	}
	var kept []res
	var convs []*converter.Converter
	var names []string
	bare := func(prio int) *converter.Converter {
		cv := converter.NewConverter()
		cv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, prio)
		return cv
	}
	for k := 2 + r.IntN(3); k > 0; k-- {
		switch r.IntN(5) {
		case 0:
			convs, names = append(convs, bare(100)), append(names, "without plugins")
		case 1:
			cv := converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(base.NewBasePlugin()))
			cv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				return converter.RenderTryNext
			}, 100)
			convs, names = append(convs, cv), append(names, "only base, no escaping")
		default:
			cfg := anyCfg(r)
			cfg.Domain = ""
			convs, names = append(convs, cfg.New()), append(names, cfg.String())
		}
	}
	docs := []string{"", "<p>a", "a"}
	for k := 0; k < 4; k++ {
		docs = append(docs, anyDoc(r, Cfg{}))
	}
	for k := 0; k < 20; k++ {
		i := r.IntN(len(convs))
		src := pick(r, docs)
		in := []byte(src)
		var got []byte
		var err error
		switch doc := parseHTML(src); {
		case doc != nil && chance(r, 0.5):
			got, err = convs[i].ConvertNode(doc)
		default:
			got, err = convs[i].ConvertReader(bytes.NewReader(in))
		}
		if err != nil {
			continue
		}
		if string(in) != src {
			c.Fail(src, nil, "the bytes of the input were changed to %s", trunc(quote(string(in)), 600))
		}
		was := string(got)
		for j := range kept {
			if string(kept[j].got) != kept[j].was {
				c.Fail(kept[j].src, nil, "%s: a later conversion (of %s) changed a result that the caller still has:\n    was: %s\n    is:  %s", kept[j].conv, trunc(quote(src), 300), trunc(quote(kept[j].was), 400), trunc(quote(string(kept[j].got)), 400))
			}
			if kept[j].src == src && kept[j].conv == names[i] && kept[j].was != was {
				c.Fail(src, nil, "%s: after other conversions (and the caller overwriting its results) the result is\n    %s\n  before it was\n    %s", names[i], trunc(quote(was), 500), trunc(quote(kept[j].was), 500))
			}
		}
		if chance(r, 0.4) {
			// the result is the caller's: overwrite it, and what is behind it
			own := was
			full := got[:cap(got)]
			for x := range full {
				full[x] = '!'
			}
			kept = append(kept, res{full[:0:0], "", "", ""}, res{[]byte(own), own, src, names[i]})
			continue
		}
		kept = append(kept, res{got, was, src, names[i]})
	}
	c.Obs("results_kept", len(kept))
	c.Seen(strings.Join(docs, "|") + strings.Join(names, "|"))
	c.Sample("%d results of %d converters", len(kept), len(convs))
}

func init() {
	register(&Check{ID: "C03",
		Rule: "generated documents, tag soup and mutated test data under random configurations; each converted through fresh, reused and process-wide shared converters, readers chopped into arbitrary reads, parsed trees, the package functions and differently assembled converters, with the bytes given kept and compared afterwards, and in other processes under other environments; oracle: byte-identical results; distinct by document and configuration",
		Streams: []Stream{
			{Name: "entries", N: 12000, NT: 400000, F: c03entries},
			{Name: "process", N: 100, NT: 2000, F: c03process},
			{Name: "kept", N: 4000, NT: 100000, F: c03kept},
		}})
}
