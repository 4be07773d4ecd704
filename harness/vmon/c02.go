package main

// C02: work, memory and output stay proportionate to the document.
// Monitors: a rendering handler that counts every visit of every node, text
// transformers that count calls, the allocator's byte counter, the size of the
// output and the CPU time of the process.

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

type workMeter struct {
	visits   map[*html.Node]int
	total    int
	texts    int
	maxVisit int
	nodes    int
	depth    int
	limit    int
	textLen  int
	unescape int
	over     bool
}

type overWork struct{}

func (m *workMeter) plugin() converter.Plugin {
	return probePlugin{"workmeter", func(conv *converter.Converter) error {
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
			// before everything: what the document holds
			var f func(n *html.Node, d int)
			f = func(n *html.Node, d int) {
				m.nodes++
				m.depth = max(m.depth, d)
				for k := n.FirstChild; k != nil; k = k.NextSibling {
					f(k, d+1)
				}
			}
			f(doc, 0)
			m.limit = 100 + 8*m.nodes
		}, -100000)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			m.visits[n]++
			m.total++
			m.maxVisit = max(m.maxVisit, m.visits[n])
			if m.total > m.limit {
				panic(overWork{})
			}
			return converter.RenderTryNext
		}, -100000)
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			m.texts++
			m.textLen += len(s)
			if m.texts > m.limit {
				panic(overWork{})
			}
			return s
		}, -100000)
		return nil
	}}
}

type probePlugin struct {
	name string
	init func(*converter.Converter) error
}

func (p probePlugin) Name() string                         { return p.name }
func (p probePlugin) Init(conv *converter.Converter) error { return p.init(conv) }

// heapAllocs is exact (unlike runtime/metrics, which lags behind).
func heapAllocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type measure struct {
	m     workMeter
	alloc uint64
	out   int
	cpu   time.Duration
	err   error
}

func (cfg Cfg) with(extra ...converter.Plugin) *converter.Converter {
	ps := append(cfg.Plugins(), extra...)
	if cfg.Escape == "disabled" {
		return converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(ps...))
	}
	return converter.NewConverter(converter.WithPlugins(ps...))
}

func measured(src string, cfg Cfg) (x measure) {
	x.m.visits = map[*html.Node]int{}
	x.m.limit = 1 << 60
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(overWork); !ok {
				panic(p)
			}
			x.m.over = true
		}
	}()
	conv := cfg.with(x.m.plugin())
	c0, a0 := cpuTime(), heapAllocs()
	md, err := conv.ConvertString(src, cfg.ConvOpts()...)
	x.alloc, x.cpu = heapAllocs()-a0, cpuTime()-c0
	x.out, x.err = len(md), err
	return x
}

// outBound: prefixes repeat once per level, cells are padded to their column,
// a span may add a hundred cells per cell.
func outBound(src string, x measure) int {
	s := len(src)
	cells := strings.Count(src, "<td") + strings.Count(src, "<th")
	b := 200 + s*(x.m.depth+6)
	if cells > 0 {
		b += (cells + 2) * s
		if strings.Contains(src, "span") {
			b += 150 * cells * (s/cells + 20)
		}
	}
	return b
}

func allocBound(src string, x measure) uint64 {
	d := uint64(x.m.depth + 4)
	return 2<<20 + uint64(outBound(src, x))*d*8 + uint64(len(src))*1000
}

func c02judge(src string, cfg Cfg, x measure) string {
	switch {
	case x.m.over:
		return fmt.Sprintf("more than %d node renderings or text transformations for a document of %d nodes and depth %d", x.m.limit, x.m.nodes, x.m.depth)
	case x.m.maxVisit > 8:
		return fmt.Sprintf("one node was rendered %d times (depth %d)", x.m.maxVisit, x.m.depth)
	case x.out > outBound(src, x):
		return fmt.Sprintf("%d bytes of input (%d nodes, depth %d) gave %d bytes of output", len(src), x.m.nodes, x.m.depth, x.out)
	case x.alloc > allocBound(src, x):
		return fmt.Sprintf("%d bytes of input (%d nodes, depth %d) took %d bytes of memory", len(src), x.m.nodes, x.m.depth, x.alloc)
	case x.cpu > 20*time.Second:
		return fmt.Sprintf("%d bytes of input took %v of CPU time", len(src), x.cpu)
	}
	return ""
}

func c02measure(c *Case, src string, cfg Cfg) measure {
	c.lastHTML, c.lastCfg = src, &cfg
	x := measured(src, cfg)
	c.Obs("node_visits", x.m.total)
	c.Obs("text_transforms", x.m.texts)
	c.Obs("nodes", x.m.nodes)
	msg := c02judge(src, cfg, x)
	// The counters are those of the whole process: what is too much has to be too
	// much each time.
	for i := 0; i < 4 && msg != ""; i++ {
		x = measured(src, cfg)
		msg = c02judge(src, cfg, x)
	}
	if msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	return x
}

var nestUnits = []string{"div", "ul><li", "ol><li", "blockquote", "em", "strong", "b", "i", "span", "a href=x", "del", "s", "code", "kbd", "h1", "h3", "p", "table><tr><td", "table><tr><th", "table><caption", "table role=presentation><tr><td", "section", "dl><dd", "pre", "li", "sub", "object", "a href=x><object", "a href=x><table><tr><td", "a><div", "em><object", "details><summary", "td", "ul", "ol start=99999", "q", "figure", "a href=''><h2", "strong><del", "my-tag", "svg", "noscript", "button", "label", "center", "font"}

func c02nest(c *Case) {
	r := c.R
	n := len(nestUnits)
	var us []string
	if c.Idx < n*n {
		us = []string{nestUnits[c.Idx/n], nestUnits[c.Idx%n]}
	} else {
		for k := 1 + r.IntN(4); k > 0; k-- {
			us = append(us, pick(r, nestUnits))
		}
	}
	leaf := pick(r, []string{"x", "x", "", " ", "<br>", "<img src=y>", "<hr>", "a<br>b", "# x", "```"})
	filler := pick(r, []string{"", "", "", "y", "<p>y</p>", " z ", "<br>", "<ul><li>k</ul>", "<td>w"})
	close := chance(r, 0.5)
	cfg := anyCfg(r)
	cfg.Table = chance(r, 0.7)
	var prev measure
	var sizes []int
	for _, d := range []int{8, 16, 32, 64, 128} {
		var b, tail strings.Builder
		var stack []string
		for i := 0; i < d; i++ {
			u := us[i%len(us)]
			b.WriteString("<" + u + ">" + filler)
			for _, t := range strings.Split(u, "><") {
				stack = append(stack, strings.Fields(t)[0])
			}
		}
		if close {
			for i := len(stack) - 1; i >= 0; i-- {
				tail.WriteString("</" + stack[i] + ">")
				if i%2 == 0 {
					tail.WriteString(filler)
				}
			}
		}
		src := b.String() + leaf + tail.String()
		x := c02measure(c, src, cfg)
		if x.err != nil {
			break
		}
		sizes = append(sizes, x.out)
		if prev.m.nodes > 0 && x.m.total > 5*prev.m.total+200 {
			c.Fail(src, &cfg, "doubling the depth raised the node renderings from %d to %d", prev.m.total, x.m.total)
		}
		prev = x
	}
	c.Seen(fmt.Sprint(us, leaf, filler, close, cfg))
	c.Sample("nest %q leaf %q filler %q: output sizes %v", us, leaf, filler, sizes)
}

var wideUnits = []string{"[", "]", "*", "_", "`", "~", "\\", "|", "<", "(", "!", "![", "#", "-", "- ", "1. ", "+", "=", ">", "a ", " ", "\n", "&nbsp;", "*a", "a*", "_a_", "`a", "<br>", "<p>", "<p>x", "<em>a</em>", "<em>a</em> ", "<b>", "<b>a</b>", "<code>`</code>", "<code>a</code>", "<a href=x>y</a>", "<a href=x></a>", "<img src=x>", "<li>a", "<ul><li>a</ul>", "<hr>", "<td>", "<tr><td>a", "<td>a", "<tr>", "<blockquote>a</blockquote>", "<pre>a</pre>", "<pre>`\n</pre>", "<h1>a</h1>", "<h1>#</h1>", "<span>a</span>", "<span> </span>", "<del>a</del>", "<del>~</del>", "<!--x-->", "<script>x</script>", "<input>", "<div>", "<div></div>", "[a](b)", "\\a", "a\n", "# a<br>", "- a<br>", "|-|<br>", "</p>", "<b><i>a</i></b>", "a\u00a0", "日", "\a", "&#0;"}

func c02wide(c *Case) {
	r := c.R
	k := len(wideUnits)
	us := []string{wideUnits[c.Idx%k]}
	if c.Idx >= k {
		for j := 1 + r.IntN(3); j > 0; j-- {
			us = append(us, pick(r, wideUnits))
		}
	}
	host := pick(r, []string{"%s", "%s", "<p>%s</p>", "<ul><li>%s</li></ul>", "<table><tr><td>%s", "<blockquote>%s</blockquote>", "<pre>%s</pre>", "<code>%s</code>", "<a href=x>%s</a>", "<em>%s</em>", "<h1>%s</h1>", "<a href='%s'>x</a>", "<img src=x alt='%s'>", "<a href=x title='%s'>x</a>", "<ol>%s</ol>", "<table>%s</table>", "<table><tr>%s"})
	cfg := anyCfg(r)
	cfg.Table = chance(r, 0.7)
	n := 3000
	if len(us) == 1 {
		n = 6000
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(us[i%len(us)])
	}
	body := b.String()
	if strings.Contains(host, "='%s'") {
		body = strings.ReplaceAll(body, "'", "")
	}
	src := strings.Replace(host, "%s", body, 1)
	x := c02measure(c, src, cfg)
	c.Seen(fmt.Sprint(us, host, cfg))
	c.Sample("wide %q x%d in %q: %d bytes out, %d visits, %v CPU", us, n, host, x.out, x.m.total, x.cpu)
}

// c02numbers: a number in an attribute must not set the size of the work.
func c02numbers(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Table = true
	mk := func() func(v string) string {
		switch r.IntN(5) {
		case 0:
			rows := 1 + r.IntN(4)
			return func(v string) string {
				return "<ol start=" + v + ">" + strings.Repeat("<li>a<p>b", rows) + "</ol>"
			}
		case 1:
			return func(v string) string { return "<table><tr><th colspan=" + v + ">a<th>b<tr><td>c<td>d</table>" }
		case 2:
			return func(v string) string { return "<table><tr><th rowspan=" + v + ">a<th>b<tr><td>c<td>d</table>" }
		case 3:
			k := 1 + r.IntN(30)
			return func(v string) string {
				return "<table><tr>" + strings.Repeat("<th colspan="+v+" rowspan="+v+">abc", k) + "<tr><td>c<td rowspan=" + v + ">d</table>"
			}
		default:
			return func(v string) string {
				return "<table border=" + v + " width=" + v + "><colgroup span=" + v + "><col span=" + v + "><tr><td width=" + v + ">a<th height=" + v + ">b</table><img width=" + v + " src=x height=" + v + "><pre width=" + v + ">x</pre><li value=" + v + ">x"
			}
		}
	}()
	var base measure
	for i, v := range []string{"2", "100", "1000", "65534", "1000000", "999999999", "4294967297", "9223372036854775807", "99999999999999999999", "-1", "-9223372036854775808", "0", "1e9", "+7"} {
		src := mk(v)
		x := c02measure(c, src, cfg)
		if i == 0 {
			base = x
		}
		if x.out > base.out+60000+20*len(src)*strings.Count(src, "<t") {
			c.Fail(src, &cfg, "a number in an attribute raised the output from %d to %d bytes", base.out, x.out)
		}
		if x.alloc > base.alloc+24<<20 {
			c.Fail(src, &cfg, "a number in an attribute raised the memory from %d to %d bytes", base.alloc, x.alloc)
		}
		c.Seen(src + cfg.String())
	}
}

// c02repeat: one short piece of text repeated many thousand times. Twice as
// many of them may take twice the time (and then some), not four times.
var repeatChars = []string{"*", "_", "#", "+", "-", "=", "<", ">", "[", "]", "(", ")", "!", "`", "~", "|", "\\", ".", ":", "\"", "'", "&", "$", "1", "a", "\t", "\u00a0", "é", "\u200b", "&#10;", "\x01", "{", "%", ";"}
var repeatShapes = []string{"%s", "a%s", "%sa", "%s ", " a%s", "1%s ", "%s%s ", "%s<br>", "%s&#10;", "<b>%s</b>", "%s<b></b>", "[%s]", "\\%s"}
var repeatHosts = []string{"<p>%s</p>", "<table><tr><td>%s</table>", "<ul><li>%s</ul>", "<h2>%s</h2>", "<h1>%s</h1>", "<a href=x>%s</a>", "<em>%s</em>", "<img src=x alt='%s'>", "<a href=x title='%s'>t</a>", "<a href='%s'>t</a>", "<pre>%s</pre>", "<code>%s</code>", "<blockquote>%s</blockquote>", "<del>%s</del>", "<!--%s-->", "<pre><code class='language-%s'>x</code></pre>", "<dl><dd>%s</dl>"}

func c02repeat(c *Case) {
	r := c.R
	nu := len(repeatChars) * len(repeatShapes)
	i := c.Idx * 1009 % (nu * len(repeatHosts))
	host := repeatHosts[i%len(repeatHosts)]
	shape := repeatShapes[i/len(repeatHosts)%len(repeatShapes)]
	unit := strings.ReplaceAll(shape, "%s", repeatChars[i/len(repeatHosts)/len(repeatShapes)])
	if strings.Contains(host, "='") {
		unit = strings.NewReplacer("'", "\"", "<br>", "&#10;", "<b>", "", "</b>", "").Replace(unit)
		if unit == "" {
			return
		}
	}
	cfg := Cfg{Table: true, Strike: true}
	if chance(r, 0.3) {
		cfg = anyCfg(r)
		cfg.Table = true
	}
	n := 24000 / len(unit)
	at := func(n int) (string, measure) {
		src := strings.Replace(host, "%s", strings.Repeat(unit, n), 1)
		return src, c02measure(c, src, cfg)
	}
	_, one := at(n)
	src, two := at(2 * n)
	// the least of several, when it looks like more than twice the time
	for try := 0; try < 5 && two.cpu > 3*one.cpu && two.cpu-2*one.cpu > 60*time.Millisecond; try++ {
		_, a := at(n)
		_, b := at(2 * n)
		one.cpu, two.cpu = max(one.cpu, a.cpu), min(two.cpu, b.cpu)
	}
	if two.cpu > 3*one.cpu && two.cpu-2*one.cpu > 60*time.Millisecond {
		c.Fail(src, &cfg, "%q repeated %d times takes %v of CPU time, %d times %v", unit, n, one.cpu, 2*n, two.cpu)
	}
	if two.out > 3*one.out+1000 || two.alloc > 3*one.alloc+4<<20 {
		c.Fail(src, &cfg, "%q repeated %d times gives %d bytes and takes %d bytes of memory, repeated %d times %d and %d", unit, n, one.out, one.alloc, 2*n, two.out, two.alloc)
	}
	c.Seen(fmt.Sprint(unit, host, cfg))
	c.Sample("repeat %q x%d in %q: %v, x%d: %v", unit, n, host, one.cpu, 2*n, two.cpu)
}

func c02probe(src string, cfg Cfg) string { return c02judge(src, cfg, measured(src, cfg)) }

func init() {
	register(&Check{ID: "C02", Workers: 1, Probe: c02probe,
		Rule: "every ordered pair of 44 nesting units (and random longer cycles) at depth 8 to 128, 73 units repeated thousands of times in 17 hosts, 34 characters in 13 shapes repeated 24 and 48 thousand bytes long in 17 hosts (twice the length must not take four times the time), numbers up to 20 digits in every numeric attribute, tag soup; monitors count each visit of each node, text transformations, allocated bytes, output bytes, CPU; bounds: total visits, visits per node, output and memory as low-degree polynomials of size and depth; distinct by shape and configuration",
		Streams: []Stream{
			{Name: "nest", N: len(nestUnits)*len(nestUnits) + 1500, NT: len(nestUnits)*len(nestUnits) + 40000, F: c02nest},
			{Name: "wide", N: len(wideUnits) * 5, NT: len(wideUnits) * 100, F: c02wide},
			{Name: "repeat", N: len(repeatChars) * len(repeatShapes) * len(repeatHosts) / 4, NT: len(repeatChars) * len(repeatShapes) * len(repeatHosts), F: c02repeat},
			{Name: "numbers", N: 400, NT: 20000, F: c02numbers},
			{Name: "soup", N: 15000, NT: 400000, F: func(c *Case) {
				src := soup(c.R, 1+c.R.IntN(60))
				if chance(c.R, 0.2) {
					src = mutate(c.R, pick(c.R, corpus()))
				}
				cfg := anyCfg(c.R)
				c02measure(c, src, cfg)
				c.Seen(src)
			}},
		}})
}
