package main

// C01: no input and no valid configuration crashes or hangs a conversion.
// The oracle is the process itself: a panic in the code under test, a killed
// worker or a stalled worker is attributed to one execution by the flight
// recorder. Output of valid UTF-8 must be valid UTF-8.

import (
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/net/html"
)

var allTags = []string{"a", "abbr", "address", "area", "article", "aside", "audio", "b", "base", "bdi", "bdo", "big", "blockquote", "body", "br", "button", "canvas", "caption", "center", "cite", "code", "col", "colgroup", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "img", "input", "ins", "kbd", "label", "legend", "li", "link", "main", "map", "mark", "marquee", "math", "mi", "menu", "meta", "meter", "nav", "noscript", "object", "ol", "optgroup", "option", "output", "p", "param", "picture", "plaintext", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "script", "section", "select", "small", "source", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "path", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "tt", "u", "ul", "var", "video", "wbr", "xmp", "listing", "my-element", "o:p", "x"}

var hotTags = []string{"a", "b", "blockquote", "br", "code", "del", "div", "em", "h1", "h2", "h6", "hr", "i", "img", "kbd", "li", "ol", "p", "pre", "s", "span", "strong", "table", "tbody", "td", "th", "thead", "tr", "tt", "ul", "caption", "tfoot", "input", "dl", "dd"}

var anyAttrs = []string{"href", "src", "alt", "title", "start", "colspan", "rowspan", "align", "class", "role", "style", "id", "type", "checked", "lang"}
var anyVals = []string{"", " ", "#", "/", "x", "1", "0", "-1", "2", "3", "5", "999", "65535", "4294967296", "99999999999999999999", "1e3", "+2", " 2 ", "2x", "a b", "\n", "\"", "'", "\\", "&", "<", ">", "()", "[]", "language-go", "language-", "lang-", "language-```", "presentation", "none", "left", "right", "center", "justify", "text-align:center", "http://", "http://[::1", "//", "data:,", "javascript:", "mailto:a@b?subject=x y", "%", "%zz", "\x00", "\x01", "\u00a0", "\uf002", "é", "\xff", "日本"}

var textAtoms = append([]string{"", " ", "  ", "\n", "\n\n", "\t", "\r", "\r\n", "\f", "\v", "\x00", "\x01", "\a", "\x08", "\x1b", "\x7f", "\u00a0", "\u2028", "\u200b", "\ufeff", "\uf002", "\uf8ff", "\ufffd", "\xff", "\xc3", "\xe2\x80", "&amp;", "&lt;", "&nbsp;", "&#0;", "&#x1F600;", "&copy", "&#128;", "a", "word", "日本"}, hostileAtoms...)

var corpusOnce sync.Once
var corpusDocs []string

// corpus is every HTML file of the repository's test data.
func corpus() []string {
	corpusOnce.Do(func() {
		filepath.WalkDir(repoDir(), func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() && strings.HasSuffix(p, ".html") {
				if b, e := os.ReadFile(p); e == nil && len(b) < 200000 {
					corpusDocs = append(corpusDocs, string(b))
				}
			}
			return nil
		})
		if len(corpusDocs) == 0 {
			corpusDocs = []string{"<p>a</p>"}
		}
	})
	return corpusDocs
}

func soup(r *rand.Rand, n int) string {
	var b strings.Builder
	d := loadDict()
	var open []string
	for i := 0; i < n; i++ {
		switch k := r.IntN(20); {
		case k < 8:
			tag := pick(r, hotTags)
			if k == 0 {
				tag = pick(r, allTags)
			}
			b.WriteString("<" + tag)
			for chance(r, 0.3) {
				b.WriteString(" " + pick(r, anyAttrs))
				if chance(r, 0.9) {
					v := pick(r, anyVals)
					if chance(r, 0.15) {
						v = pick(r, d.strs)
					}
					if chance(r, 0.06) { // long, with characters of several bytes across whatever limit
						v = pick(r, []string{"", "", "a", "ab", v, "language-", "/", "http://x.y/"}) + strings.Repeat(pick(r, []string{"é", "日", "😀", "aé", "\u00a0", "é "}), pick(r, []int{5, 10, 16, 22, 32, 40, 64, 70, 100, 130, 256, 300, 1000, 3000}))
					}
					b.WriteString(`="` + strings.ReplaceAll(v, `"`, "&quot;") + `"`)
				}
			}
			if chance(r, 0.03) {
				b.WriteString("/")
			}
			b.WriteString(">")
			open = append(open, tag)
		case k < 11:
			if len(open) > 0 && chance(r, 0.8) {
				j := len(open) - 1
				if chance(r, 0.2) {
					j = r.IntN(len(open))
				}
				b.WriteString("</" + open[j] + ">")
				open = append(open[:j], open[j+1:]...)
			} else {
				b.WriteString("</" + pick(r, hotTags) + ">")
			}
		case k == 11:
			b.WriteString(pick(r, []string{"<!-- x -->", "<!---->", "<!-->", "<!DOCTYPE html>", "<?php x ?>", "<![CDATA[x]]>", "<!", "<", "</", "< p>", "<p <p>", "<!--THE END-->", "<svg><g>x</g></svg>", "<math><mi>y</mi></math>", "<template><p>t</p></template>"}))
		case k == 12:
			s := pick(r, d.strs)
			if len(d.novel) > 0 && chance(r, 0.5) {
				s = pick(r, d.novel)
			}
			b.WriteString(s)
		case k == 13:
			for j := r.IntN(6); j >= 0; j-- {
				b.WriteByte(byte(r.IntN(256)))
			}
		default:
			b.WriteString(pick(r, textAtoms))
		}
	}
	return b.String()
}

func mutate(r *rand.Rand, s string) string {
	docs := corpus()
	for k := 1 + r.IntN(6); k > 0; k-- {
		if len(s) == 0 {
			s = soup(r, 5)
		}
		i := r.IntN(len(s))
		j := min(len(s), i+r.IntN(60))
		switch r.IntN(8) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + s[i:j] + s[i:j] + s[j:]
		case 2:
			s = s[:i] + soup(r, 1+r.IntN(4)) + s[i:]
		case 3:
			o := pick(r, docs)
			a := r.IntN(len(o))
			s = s[:i] + o[a:min(len(o), a+r.IntN(300))] + s[j:]
		case 4:
			s = s[:i] + string(rune(r.IntN(0x11000))) + s[j:]
		case 5: // swap one tag for another
			t := "<" + pick(r, hotTags)
			u := "<" + pick(r, hotTags)
			s = strings.ReplaceAll(s, t+">", u+">")
		case 6:
			s = s[:i] + "<" + pick(r, hotTags) + ">" + s[i:]
		case 7: // take a window
			if len(s) > 400 {
				a := r.IntN(len(s) - 200)
				s = s[a:min(len(s), a+200+r.IntN(2000))]
			}
		}
	}
	return s
}

// anyCfg draws any valid configuration, escaping off included.
func anyCfg(r *rand.Rand) Cfg {
	cfg := randCfg(r, 0.3)
	if chance(r, 0.3) {
		cfg.Escape = "disabled"
	}
	if chance(r, 0.3) {
		cfg.Domain = pick(r, []string{"example.com", "https://example.com/a/b?c#d", "http://[::1]:80", "%", "://", " ", "ftp://x", "a b", "\x00"})
	}
	return cfg
}

func c01convert(c *Case, src string, cfg Cfg) {
	c.lastHTML, c.lastCfg = src, &cfg
	md, err := cfg.Convert(src)
	c.Obs("conversions", 1)
	if err != nil {
		c.Obs("errors_returned", 1)
		if md != "" {
			c.Fail(src, &cfg, "error %v together with output %q", err, trunc(md, 200))
		}
		return
	}
	if utf8.ValidString(src) && !utf8.ValidString(md) {
		c.Fail(src, &cfg, "valid UTF-8 input gave invalid UTF-8 output %q", trunc(md, 400))
	}
	if len(md) > 0 {
		c.Seen(src)
		c.Sample("%q", trunc(src, 300))
	}
}

func c01probe(src string, cfg Cfg) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = "panic in the code under test: " + sprint(p)
		}
	}()
	md, err := cfg.Convert(src)
	if err == nil && utf8.ValidString(src) && !utf8.ValidString(md) {
		return "invalid UTF-8 output " + quote(trunc(md, 300))
	}
	return ""
}

func c01deep(c *Case) {
	r := c.R
	var unit []string
	for k := 1 + r.IntN(3); k > 0; k-- {
		unit = append(unit, pick(r, []string{"div", "ul><li", "ol><li", "blockquote", "em", "strong", "b", "i", "span", "a href=x", "del", "code", "h1", "p", "table><tr><td", "table><tr><th", "section", "dl><dd", "pre", "font", "li", "sub"}))
	}
	n := pick(r, []int{5, 10, 20, 40, 80, 150, 300, 600, 5000})
	if strings.Contains(strings.Join(unit, ""), "table") {
		n = min(n, 9) // nested tables: C02 measures the work
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("<" + unit[i%len(unit)] + ">")
		if chance(r, 0.3) {
			b.WriteString(pick(r, []string{"x", "#", "* ", "\n", "`", "1. "}))
		}
	}
	b.WriteString("leaf")
	c.Obs("deep_documents", 1)
	cfg := anyCfg(r)
	c01convert(c, b.String(), cfg)
}

// c01tree converts trees as a program may build or edit them.
func c01tree(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	src := soup(r, 10+r.IntN(60))
	if chance(r, 0.3) {
		src = mutate(r, pick(r, corpus()))
	}
	doc, err := html.Parse(strings.NewReader(src))
	if err != nil {
		return
	}
	var nodes []*html.Node
	var f func(*html.Node)
	f = func(n *html.Node) {
		nodes = append(nodes, n)
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(doc)
	for k := r.IntN(8); k > 0 && len(nodes) > 1; k-- {
		n := pick(r, nodes[1:])
		switch r.IntN(6) {
		case 0: // move below another node
			m := pick(r, nodes)
			if m.Type != html.TextNode && m.Type != html.CommentNode && m.Type != html.DoctypeNode && !isAncestor(n, m) && n.Parent != nil {
				n.Parent.RemoveChild(n)
				m.AppendChild(n)
			}
		case 1:
			if n.Parent != nil && n.Type != html.DocumentNode {
				n.Parent.RemoveChild(n)
			}
		case 2:
			if n.Type == html.ElementNode {
				n.Data = pick(r, allTags)
				n.DataAtom = 0
			}
		case 3:
			if n.Type == html.TextNode {
				n.Data = pick(r, textAtoms)
			}
		case 4:
			if n.Type == html.ElementNode {
				n.AppendChild(&html.Node{Type: html.TextNode, Data: pick(r, textAtoms)})
				n.AppendChild(&html.Node{Type: html.CommentNode, Data: "c"})
			}
		case 5:
			if n.Type == html.ElementNode {
				n.Attr = append(n.Attr, html.Attribute{Key: pick(r, anyAttrs), Val: pick(r, anyVals)})
			}
		}
	}
	root := doc
	how := r.IntN(4)
	switch how {
	case 0: // a detached element
		n := pick(r, nodes)
		if n.Parent != nil {
			n.Parent.RemoveChild(n)
		}
		root = n
	case 1: // an empty document
		if chance(r, 0.1) {
			root = &html.Node{Type: html.DocumentNode}
		}
	case 2: // a fragment in a context element
		ctx := &html.Node{Type: html.ElementNode, Data: "body"}
		if ns, err := html.ParseFragment(strings.NewReader(src), ctx); err == nil {
			root = &html.Node{Type: html.DocumentNode}
			for _, n := range ns {
				root.AppendChild(n)
			}
		}
	}
	c.Obs("edited_trees", 1)
	out, err := cfg.New().ConvertNode(root, cfg.ConvOpts()...)
	if err != nil && len(out) > 0 {
		c.Fail(src, &cfg, "error %v together with output", err)
	}
	c.Seen(src)
}

func isAncestor(a, b *html.Node) bool {
	for ; b != nil; b = b.Parent {
		if a == b {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C01",
		Rule:  "tag soup with arbitrary bytes, mutated test data of the repository, nesting up to 5000 tags, edited/detached/fragment node trees, and attribute values, texts and names thousands of bytes long, under all plugin, option and escape-mode combinations; monitors: Go runtime (panics, fatal errors), flight recorder with stall detection, UTF-8 validity; non-trivial: a conversion that produced output; distinct by input",
		Probe: c01probe,
		Streams: []Stream{
			{Name: "soup", N: 100000, NT: 1500000, F: func(c *Case) { c01convert(c, soup(c.R, 1+c.R.IntN(40)), anyCfg(c.R)) }},
			large(4000, func(c *Case) { cfg := anyCfg(c.R); c01convert(c, grownDoc(c.R, cfg), cfg) }),
			{Name: "mutants", N: 25000, NT: 300000, F: func(c *Case) { c01convert(c, mutate(c.R, pick(c.R, corpus())), anyCfg(c.R)) }},
			{Name: "tiny", N: 80000, NT: 800000, F: func(c *Case) {
				// one construct holding one or two odd texts
				r := c.R
				s := pick(r, textAtoms)
				if chance(r, 0.5) {
					s += pick(r, textAtoms)
				}
				for k := r.IntN(4); k >= 0; k-- {
					t := pick(r, hotTags)
					a := ""
					if chance(r, 0.4) {
						a = " " + pick(r, anyAttrs) + `="` + strings.ReplaceAll(pick(r, anyVals), `"`, "&quot;") + `"`
					}
					s = "<" + t + a + ">" + s + "</" + t + ">"
					if chance(r, 0.3) {
						s += pick(r, textAtoms)
					}
				}
				c01convert(c, s, anyCfg(r))
			}},
			{Name: "long", N: 20000, NT: 300000, F: func(c *Case) {
				// a long text or value whose characters of several bytes lie across whatever limit
				r := c.R
				d := loadDict()
				long := func() string {
					return pick(r, []string{"", "", "a", "ab", "abc", "language-", "lang-", "/", "http://x.y/", "x y", pick(r, anyVals), pick(r, d.strs)}) +
						strings.Repeat(pick(r, []string{"é", "日", "😀", "aé", "\u00a0", "é ", "é*", "[é", "\\é", "é\n", "|é"}), 1+scale(r, 5, 5000)) + pick(r, []string{"", "a", " ", "\n", "?é", "#é"})
				}
				shapes := []string{`<pre><code class="%s">x</code></pre>`, `<pre class="%s">x</pre>`, `<a href="%s">x</a>`, `<a href=x title="%s">x</a>`, `<img src="%s">`, `<img src=x alt="%s">`, `<img src=x title="%s">`, `<p>%s</p>`, `<h2>%s</h2>`, `<code>%s</code>`, `<pre>%s</pre>`, `<b>%s</b>`, `<a href=x>%s</a>`, `<ol start="%s"><li>x</ol>`, `<table><tr><th>%s<td colspan=2>x<tr><td>y</table>`, `<table><caption>%s</caption><tr><td>y</table>`, `<table><tr><th align="%s">x</table>`, `<li>%s`, `<blockquote>%s`, `<my-el a="%s">x</my-el>`, `<del>%s</del>`, `<!--%s-->`, `<div class="%s" style="%[1]s" id="%[1]s">x</div>`, `<table role="%s"><tr><td>y</table>`}
				src := fmt.Sprintf(pick(r, shapes), strings.ReplaceAll(long(), `"`, "&quot;"))
				if chance(r, 0.2) {
					src += fmt.Sprintf(pick(r, shapes), strings.ReplaceAll(long(), `"`, "&quot;"))
				}
				c01convert(c, src, anyCfg(r))
			}},
			{Name: "deep", N: 2000, NT: 8000, F: c01deep},
			{Name: "trees", N: 40000, NT: 400000, F: c01tree},
			{Name: "docs", N: 10000, NT: 150000, F: func(c *Case) {
				cfg := anyCfg(c.R)
				g := newG(c.R, cfg)
				g.hostile = 0.5
				c01convert(c, g.doc().HTML(), cfg)
			}},
		}})
}
