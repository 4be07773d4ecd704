package main

// C09: no visible text is lost, duplicated or reordered.
// C13: the output is trimmed and has no excess blank lines.

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	"github.com/yuin/goldmark/ast"
	"github.com/yuin/goldmark/text"
	"golang.org/x/net/html"
)

var numTok = regexp.MustCompile(`Tok(\d+)x`)

type tok9 struct {
	id   string
	span bool // inside a cell with a span: may repeat when cells are mirrored
}

var removedTags = map[string]bool{"head": true, "script": true, "style": true, "link": true, "meta": true, "iframe": true, "noscript": true, "input": true, "textarea": true}

// visible lists the tokens of a subtree. Each table gives two alternatives.
type seq9 struct {
	toks []tok9
	alt  [][]seq9 // for a table: document order, or header row first and caption last
}

func visible9(n *html.Node, cfg Cfg, inCode, inSpan, inTable bool) []seq9 {
	switch n.Type {
	case html.CommentNode:
		return nil
	case html.TextNode:
		var out []tok9
		for _, m := range numTok.FindAllStringSubmatch(n.Data, -1) {
			out = append(out, tok9{m[1], inSpan})
		}
		if out == nil {
			return nil
		}
		return []seq9{{toks: out}}
	case html.ElementNode:
		if removedTags[n.Data] {
			return nil
		}
		if n.Data == "img" && !inCode {
			src, _ := attr(n, "src")
			alt, _ := attr(n, "alt")
			if strings.TrimSpace(src) == "" {
				return nil
			}
			var out []tok9
			for _, m := range numTok.FindAllStringSubmatch(alt, -1) {
				out = append(out, tok9{m[1], inSpan})
			}
			if out == nil {
				return nil
			}
			return []seq9{{toks: out}}
		}
	}
	kids := func(n *html.Node, span bool) []seq9 {
		var out []seq9
		code := inCode || n.Type == html.ElementNode && (n.Data == "pre" || n.Data == "code" || n.Data == "kbd" || n.Data == "samp" || n.Data == "var" || n.Data == "tt")
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			out = append(out, visible9(c, cfg, code, inSpan || span, inTable || n.Data == "table")...)
		}
		return out
	}
	span := false
	if n.Data == "td" || n.Data == "th" {
		_, a := attr(n, "colspan")
		_, b := attr(n, "rowspan")
		span = a || b
	}
	plain := kids(n, span)
	if n.Type == html.ElementNode && n.Data == "table" && cfg.Table && !inCode {
		// header row first, caption last
		var head, cap []*html.Node
		var hrow *html.Node
		var f func(x *html.Node, want func(*html.Node) bool) *html.Node
		f = func(x *html.Node, want func(*html.Node) bool) *html.Node {
			if want(x) {
				return x
			}
			for c := x.FirstChild; c != nil; c = c.NextSibling {
				if r := f(c, want); r != nil {
					return r
				}
			}
			return nil
		}
		is := func(tag string) func(*html.Node) bool {
			return func(x *html.Node) bool { return x.Type == html.ElementNode && x.Data == tag }
		}
		if th := f(n, is("thead")); th != nil {
			hrow = f(th, is("tr"))
		}
		if hrow == nil {
			if th := f(n, is("th")); th != nil {
				hrow = th.Parent
			}
		}
		_ = head
		var rest []seq9
		var walk func(x *html.Node)
		walk = func(x *html.Node) {
			for c := x.FirstChild; c != nil; c = c.NextSibling {
				switch {
				case c == hrow:
				case is("caption")(c):
					cap = append(cap, c)
				case is("tr")(c):
					rest = append(rest, visible9(c, cfg, false, inSpan, true)...)
				default:
					walk(c)
				}
			}
		}
		walk(n)
		var alt []seq9
		if hrow != nil {
			alt = append(alt, visible9(hrow, cfg, false, inSpan, true)...)
		}
		alt = append(alt, rest...)
		for _, c := range cap {
			alt = append(alt, visible9(c, cfg, false, inSpan, true)...)
		}
		return []seq9{{alt: [][]seq9{plain, alt}}}
	}
	return plain
}

// match9 consumes the expected sequence from got, trying both alternatives of tables.
func match9(exp []seq9, got []string, k func([]string) bool) bool {
	if len(exp) == 0 {
		return k(got)
	}
	e := exp[0]
	if e.alt != nil {
		for _, a := range e.alt {
			if match9(a, got, func(rest []string) bool { return match9(exp[1:], rest, k) }) {
				return true
			}
		}
		return false
	}
	for _, t := range e.toks {
		if len(got) == 0 || got[0] != t.id {
			return false
		}
		got = got[1:]
	}
	return match9(exp[1:], got, k)
}

func flat9(exp []seq9) (out []tok9) {
	for _, e := range exp {
		out = append(out, e.toks...)
		if e.alt != nil {
			out = append(out, flat9(e.alt[0])...)
		}
	}
	return
}

func c09probe(src string, cfg Cfg) string {
	doc := parseHTML(src)
	if doc == nil {
		return ""
	}
	exp := visible9(doc, cfg, false, false, false)
	out, err := cfg.Convert(src)
	if err != nil {
		return ""
	}
	var got []string
	for _, m := range numTok.FindAllStringSubmatch(out, -1) {
		got = append(got, m[1])
	}
	all := flat9(exp)
	if cfg.Span == "mirror" {
		// mirrored cells repeat
		spans := map[string]bool{}
		for _, t := range all {
			spans[t.id] = t.span
		}
		seen := map[string]bool{}
		var g2 []string
		for _, t := range got {
			if spans[t] && seen[t] {
				continue
			}
			seen[t] = true
			g2 = append(g2, t)
		}
		got = g2
	}
	if match9(exp, got, func(rest []string) bool { return len(rest) == 0 }) {
		return ""
	}
	cnt := map[string]int{}
	for _, t := range got {
		cnt[t]++
	}
	for _, t := range all {
		if cnt[t.id] == 0 {
			return fmt.Sprintf("visible text Tok%sx is lost: %s", t.id, quote(out))
		}
		if cnt[t.id] > 1 {
			return fmt.Sprintf("visible text Tok%sx appears %d times: %s", t.id, cnt[t.id], quote(out))
		}
	}
	var ids []string
	for _, t := range all {
		ids = append(ids, t.id)
	}
	if len(got) > len(all) {
		return fmt.Sprintf("text that is not visible appears: %v instead of %v: %s", got, ids, quote(out))
	}
	return fmt.Sprintf("visible text is reordered: %v instead of %v: %s", got, ids, quote(out))
}

// soup9 is soup with a unique token in every text, and in some attributes.
func soup9(r *rand.Rand, n int) string {
	var b strings.Builder
	var open []string
	k := 0
	tok := func() string { k++; return fmt.Sprintf("Tok%dx", k) }
	tags := hotTags
	if chance(r, 0.3) {
		tags = []string{"table", "tr", "td", "th", "thead", "tbody", "tfoot", "caption", "p", "div", "br", "a", "b", "ul", "li"}
	}
	for i := 0; i < n; i++ {
		switch x := r.IntN(20); {
		case x < 7:
			tag := pick(r, tags)
			if x == 0 {
				tag = pick(r, allTags)
			}
			if tag == "plaintext" || tag == "template" || tag == "frameset" {
				continue
			}
			b.WriteString("<" + tag)
			switch tag {
			case "td", "th":
				if chance(r, 0.3) {
					fmt.Fprintf(&b, ` %s="%d"`, pick(r, []string{"colspan", "rowspan"}), r.IntN(5))
				}
				if chance(r, 0.1) {
					b.WriteString(` rowspan="2" colspan="2"`)
				}
			case "a":
				if chance(r, 0.8) {
					b.WriteString(` href="` + pick(r, []string{"/x", "", "http://a.b/c", "#f", "mailto:a@b"}) + `"`)
				}
				if chance(r, 0.2) {
					b.WriteString(` title="t"`)
				}
			case "img":
				b.WriteString(` src="/i.png" alt="` + tok() + `"`)
			case "table":
				if chance(r, 0.1) {
					b.WriteString(` role="presentation"`)
				}
			case "ol":
				if chance(r, 0.3) {
					fmt.Fprintf(&b, ` start="%d"`, r.IntN(200))
				}
			}
			b.WriteString(">")
			if !voidTags[tag] {
				open = append(open, tag)
			}
		case x < 11:
			if len(open) > 0 {
				j := len(open) - 1
				if chance(r, 0.2) {
					j = r.IntN(len(open))
				}
				b.WriteString("</" + open[j] + ">")
				open = append(open[:j], open[j+1:]...)
			}
		case x == 11:
			b.WriteString(pick(r, []string{"<!-- x -->", "<script>var x = 1</script>", "<style>a{}</style>", "\n", " ", "  \n ", "&nbsp;"}))
		case x < 14:
			b.WriteString(pick(r, []string{" ", "\n", "\t"}))
		default:
			b.WriteString(tok())
			if chance(r, 0.15) {
				b.WriteString(pick(r, []string{"*", "#", "_", "|", "`", "-", ".", "&lt;b&gt;", "[", "](x)", "~~", "\\", "+ "}))
				b.WriteString(tok())
			}
		}
	}
	return b.String()
}

func c09soup(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	src := soup9(r, c.many(3+r.IntN(60), 3000))
	c.lastHTML, c.lastCfg = src, &cfg
	if m := c09probe(src, cfg); m != "" {
		c.Fail(src, &cfg, "%s", m)
	}
	n := strings.Count(src, "Tok")
	c.Obs("texts_followed", n)
	if n > 1 {
		c.Seen(src + cfg.String())
	}
	c.Sample("%s", quote(src))
}

// c09doc: generated documents with tokens for words.
func c09doc(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	g := newG(r, cfg)
	g.hostile = pick(r, []float64{0, 0.4})
	g.maxDepth = pick(r, []int{2, 4, 6})
	g.budget = 100
	d := c.doc(g)
	k := 0
	tok := func() string { k++; return fmt.Sprintf("Tok%dx", k) }
	var f func(n *N)
	f = func(n *N) {
		if n.Tag == "" && strings.TrimSpace(n.Text) != "" {
			n.Text = tok() + n.Text + tok()
			if chance(r, 0.1) {
				n.Text = strings.ReplaceAll(n.Text, " ", " "+tok()+" ")
			}
		}
		for i := range n.Attr {
			if n.Attr[i][0] == "alt" {
				n.Attr[i][1] = tok() + n.Attr[i][1] + tok()
			}
		}
		for _, x := range n.Kids {
			f(x)
		}
	}
	f(d)
	src := d.HTML()
	c.lastHTML, c.lastCfg = src, &cfg
	if m := c09probe(src, cfg); m != "" {
		c.Fail(src, &cfg, "%s", m)
	}
	c.Obs("texts_followed", k)
	if k > 1 {
		c.Seen(src + cfg.String())
	}
}

// ---- C13 ----

// codeLines marks the lines of the Markdown that lie inside fenced code.
func codeLines(cfg Cfg, md string) map[int]bool {
	src := []byte(md)
	doc := goldmarkFor(cfg).Parser().Parse(text.NewReader(src))
	marks := map[int]bool{}
	lineOf := func(off int) int { return strings.Count(md[:off], "\n") }
	ast.Walk(doc, func(n ast.Node, in bool) (ast.WalkStatus, error) {
		if in && (n.Kind() == ast.KindFencedCodeBlock) && n.Lines() != nil && n.Lines().Len() > 0 {
			a := lineOf(n.Lines().At(0).Start)
			b := lineOf(n.Lines().At(n.Lines().Len() - 1).Start)
			for i := a; i <= b; i++ {
				marks[i] = true
			}
		}
		return ast.WalkContinue, nil
	})
	return marks
}

func c13judge(cfg Cfg, out string) string {
	if strings.TrimSpace(out) != out {
		return "the output begins or ends with white space"
	}
	lines := strings.Split(out, "\n")
	blank := func(s string) bool { return strings.Trim(s, " \t\r>") == "" }
	suspect := false
	for i := 1; i < len(lines); i++ {
		if blank(lines[i]) && blank(lines[i-1]) {
			suspect = true
		}
	}
	if !suspect {
		return ""
	}
	code := codeLines(cfg, out)
	for i := 1; i < len(lines); i++ {
		if blank(lines[i]) && blank(lines[i-1]) && !code[i] && !code[i-1] {
			return fmt.Sprintf("more than one blank line in a row at line %d", i)
		}
	}
	return ""
}

func c13probe(src string, cfg Cfg) string {
	out, err := cfg.Convert(src)
	if err != nil {
		return ""
	}
	if m := c13judge(cfg, out); m != "" {
		return m + ": " + quote(out)
	}
	return ""
}

func c13shape(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Escape = ""
	var src string
	switch r.IntN(3) {
	case 0:
		src = soup9(r, c.many(3+r.IntN(60), 3000))
	default:
		g := newG(r, cfg)
		g.maxDepth = pick(r, []int{2, 4, 6})
		d := c.doc(g)
		// empty out some parts and add line breaks and empty elements
		var f func(n *N)
		f = func(n *N) {
			if n.Tag == "" && chance(r, 0.1) {
				n.Text = pick(r, []string{"", " ", "\n\n", "\u00a0"})
			}
			if n.Tag != "" && n.Tag != "pre" && n.Tag != "code" && !voidTags[n.Tag] && chance(r, 0.15) {
				e := pick(r, []*N{E("br"), E("p"), E("div"), E("span"), E("em", T(" ")), E("br"), E("h2"), E("ul"), E("li"), E("blockquote"), T("\n\n"), Raw("<!-- c -->"), E("hr"), E("img"), E("a"), E("br")})
				i := r.IntN(len(n.Kids) + 1)
				n.Kids = append(n.Kids[:i:i], append([]*N{e}, n.Kids[i:]...)...)
			}
			for _, k := range n.Kids {
				if n.Tag != "pre" {
					f(k)
				}
			}
		}
		f(d)
		if c.Stream == "huge" { // many blocks
			size := scale(r, 20000, 1<<20)
			one := d.HTML()
			for n := len(one); n < size && len(d.Kids) > 0; n += len(one) {
				e := newG(r, cfg).doc()
				f(e)
				one = e.HTML()
				d.Kids = append(d.Kids, e.Kids...)
			}
		}
		src = d.HTML()
		c.Obs("bytes", len(src))
	}
	c.lastHTML, c.lastCfg = src, &cfg
	out, err := cfg.Convert(src)
	if err != nil {
		return
	}
	if m := c13judge(cfg, out); m != "" {
		c.Fail(src, &cfg, "%s: %s", m, quote(out))
	}
	c.Obs("output_lines", strings.Count(out, "\n")+1)
	if out != "" {
		c.Seen(out)
	}
	c.Sample("%s", quote(out))
}

// c13empty: empty or invisible documents.
func c13empty(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	var b strings.Builder
	var gen func(depth int)
	gen = func(depth int) {
		for k := r.IntN(4); k >= 0; k-- {
			switch r.IntN(5) {
			case 0:
				b.WriteString(pick(r, []string{" ", "\n", "\t", "  \n  ", "\r\n"}))
			case 1:
				b.WriteString(pick(r, []string{"<!-- c -->", "<script>x()</script>", "<style>a{b:c}</style>", "<input value='x'>", "<textarea>x</textarea>", "<iframe>x</iframe>", "<meta charset=utf-8>", "<link rel=x>", "<noscript>x</noscript>", "<code></code>", "<kbd></kbd>", "<br>", "<img>", "<wbr>", "<!DOCTYPE html>"}))
			default:
				if depth > 5 {
					continue
				}
				t := pick(r, []string{"p", "div", "span", "em", "strong", "b", "i", "u", "h1", "h2", "h6", "ul", "ol", "li", "blockquote", "section", "body", "html", "del", "s", "small", "article", "nav", "dl", "dd", "td", "tr"})
				b.WriteString("<" + t + ">")
				gen(depth + 1)
				b.WriteString("</" + t + ">")
			}
		}
	}
	gen(0)
	src := b.String()
	c.lastHTML, c.lastCfg = src, &cfg
	out, err := cfg.Convert(src)
	if err != nil {
		return
	}
	if out != "" {
		c.Fail(src, &cfg, "a document without anything visible gives %s", quote(out))
	}
	c.Obs("invisible_documents", 1)
	c.Seen(src)
}

func init() {
	register(&Check{ID: "C09",
		Rule:  "generated documents and tag soup (all tags, tables with spans, captions and late header rows, removed elements) in which every text carries unique tokens, random configurations in both escape modes; the token sequence of the parsed document is compared with that of the output; distinct by document and configuration, at least two tokens",
		Probe: c09probe, AnyShape: true,
		Streams: []Stream{
			{Name: "soup", N: 40000, NT: 1500000, F: c09soup},
			{Name: "docs", N: 10000, NT: 300000, F: c09doc},
			large(2000, c09doc, c09doc, c09soup),
		}})
	register(&Check{ID: "C13",
		Rule:  "generated documents with parts emptied and empty blocks, line breaks and invisible elements added, and tag soup; the output must be trimmed and hold no two consecutive blank lines (quote prefixes aside) outside fenced code as goldmark sees it (also for documents up to a megabyte); documents of invisible elements only give the empty string; distinct by output or document",
		Probe: c13probe, AnyShape: true,
		Streams: []Stream{
			{Name: "shape", N: 30000, NT: 1000000, F: c13shape},
			{Name: "empty", N: 10000, NT: 200000, F: c13empty},
			large(2000, c13shape),
			{Name: "huge", N: 60, NT: 1500, F: c13shape},
		}})
}
