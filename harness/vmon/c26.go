package main

// C26: invisible differences in the HTML do not change the Markdown.
// A document is written twice, once plainly and once with noise, and both
// conversions are compared byte for byte.

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

var blockTags = map[string]bool{"p": true, "div": true, "section": true, "article": true, "main": true, "aside": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "ul": true, "ol": true, "li": true, "blockquote": true, "pre": true, "hr": true, "table": true, "thead": true, "tbody": true, "tfoot": true, "tr": true, "td": true, "th": true, "caption": true, "#root": true}

var noiseKinds = []string{"comment", "removed", "attr", "case", "entity", "blockspace", "spacerun", "span", "wrapper", "emptyspan"}

type noise struct {
	r    *rand.Rand
	on   map[string]bool
	p    float64
	b    strings.Builder
	made map[string]int
	// the parent under way is emphasis around a link: golden tests pin that a
	// span in between keeps the emphasis outside of the link
	noSpan bool
}

func emAroundLink(n *N) bool {
	switch n.Tag {
	case "em", "i", "b", "strong":
	default:
		return false
	}
	for _, k := range n.Kids {
		if k.Tag == "a" || emAroundLink(k) {
			return true
		}
	}
	return false
}

func (w *noise) do(kind string, p float64) bool {
	if w.noSpan && (kind == "span" || kind == "emptyspan") {
		return false
	}
	if w.on[kind] && chance(w.r, p) {
		w.made[kind]++
		return true
	}
	return false
}

func (w *noise) comment() string {
	return pick(w.r, []string{"<!-- c -->", "<!---->", "<!--THE END-->", "<!-- <p>x</p> -->", "<!-- > quote\n\n# head -->", "<?php x ?>", "<!--[if IE]>x<![endif]-->", "<!-- -- -->"})
}

func (w *noise) removed() string {
	return pick(w.r, []string{"<script>var x = '<p>a</p>';</script>", "<style>p { color: red }</style>", "<script src=x.js></script>", "<style></style>"})
}

func (w *noise) removedInline() string {
	return pick(w.r, []string{"<script>var x = '<p>a</p>';</script>", "<style>p { color: red }</style>", "<noscript>hidden</noscript>", "<iframe src=/x>hidden</iframe>", "<input value=x>", "<textarea>hidden</textarea>", "<link rel=x href=y>", "<meta name=x>"})
}

func (w *noise) str(s string, attr bool) string {
	var b strings.Builder
	for _, c := range s {
		if w.do("entity", w.p) && c != '\r' && c != 0 && c < 0xD800 {
			switch w.r.IntN(3) {
			case 0:
				fmt.Fprintf(&b, "&#%d;", c)
			case 1:
				fmt.Fprintf(&b, "&#x%x;", c)
			default:
				if n, ok := map[rune]string{'&': "amp", '<': "lt", '>': "gt", '"': "quot", 'é': "eacute", '*': "ast", '_': "lowbar", '#': "num", '[': "lbrack", '|': "vert", '`': "grave", '!': "excl", '(': "lpar", '\u00a0': "nbsp"}[c]; ok {
					b.WriteString("&" + n + ";")
				} else {
					fmt.Fprintf(&b, "&#X%X;", c)
				}
			}
			continue
		}
		if attr {
			b.WriteString(escAttr(string(c)))
		} else {
			b.WriteString(escText(string(c)))
		}
	}
	return b.String()
}

func (w *noise) text(s string, code bool, first bool) {
	// split the text into pieces, with noise in between
	rs := []rune(s)
	i := 0
	emit := func(t string) {
		if t == "" {
			return
		}
		if !code && w.on["spacerun"] {
			var b strings.Builder
			for _, c := range t {
				if c == ' ' && w.do("spacerun", 0.4) {
					b.WriteString(pick(w.r, []string{"  ", "\n", "\t", " \n ", "\n\t\t", "   "}))
				} else {
					b.WriteRune(c)
				}
			}
			t = b.String()
		}
		if w.do("span", w.p*3) {
			w.b.WriteString(pick(w.r, []string{"<span>", `<span class="hl">`, `<span style="color:red">`}))
			w.b.WriteString(w.str(t, false))
			w.b.WriteString("</span>")
			return
		}
		w.b.WriteString(w.str(t, false))
	}
	for i < len(rs) {
		n := len(rs) - i
		if chance(w.r, 0.5) {
			n = 1 + w.r.IntN(n)
		}
		if i == 0 && first && rs[0] == '\n' {
			emitFirst := string(rs[:1])
			w.b.WriteString(emitFirst)
			i = 1
			continue
		}
		if w.do("comment", w.p) {
			w.b.WriteString(w.comment())
		}
		if w.do("removed", w.p) {
			w.b.WriteString(w.removedInline())
		}
		if w.do("emptyspan", w.p) {
			w.b.WriteString("<span></span>")
		}
		emit(string(rs[i : i+n]))
		i += n
	}
}

func (w *noise) between(n *N, code bool) {
	switch n.Tag {
	case "ul", "ol", "table", "thead", "tbody", "tfoot", "tr":
		if w.do("comment", w.p) {
			w.b.WriteString(w.comment())
		}
		if w.do("removed", w.p) {
			w.b.WriteString(w.removed())
		}
		return
	}
	if w.do("comment", w.p) {
		w.b.WriteString(w.comment())
	}
	if w.do("removed", w.p) {
		w.b.WriteString(w.removedInline())
	}
}

func (w *noise) write(n *N, code bool) {
	switch n.Tag {
	case "":
		w.text(n.Text, code, false)
		return
	case "#raw":
		w.b.WriteString(n.Text)
		return
	}
	if n.Tag != "#root" {
		spanned := !blockTags[n.Tag] && n.Tag != "br" && w.do("span", w.p)
		if spanned {
			w.b.WriteString("<span>")
			defer w.b.WriteString("</span>")
		}
		tag := n.Tag
		if w.do("case", 0.5) {
			tag = pick(w.r, []string{strings.ToUpper(tag), strings.ToUpper(tag[:1]) + tag[1:]})
		}
		w.b.WriteString("<" + tag)
		attrs := append([][2]string(nil), n.Attr...)
		if w.on["attr"] {
			for k := w.r.IntN(3); k > 0; k-- {
				w.made["attr"]++
				a := pick(w.r, neutralAttrs)
				if n.Tag != "code" && n.Tag != "pre" && chance(w.r, 0.3) {
					a = [2]string{"class", pick(w.r, neutralClasses)}
				}
				if n.Tag != "a" && n.Tag != "img" && chance(w.r, 0.1) {
					a = pick(w.r, [][2]string{{"title", "a title"}, {"href", "/h"}, {"src", "/s.png"}, {"alt", "alternative"}})
				}
				if n.Tag != "ol" && n.Tag != "td" && n.Tag != "th" && n.Tag != "table" && chance(w.r, 0.15) {
					a = pick(w.r, [][2]string{{"role", pick(w.r, []string{"button", "heading", "presentation", "none", "list", "img", "note", "tooltip"})}, {"start", "7"}, {"value", "7"}, {"type", "a"}, {"align", "center"}, {"colspan", "2"}, {"rowspan", "2"}, {"reversed", ""}, {"type", "text/plain"}})
				}
				if n.Tag == "td" || n.Tag == "th" {
					a = pick(w.r, [][2]string{{"scope", "col"}, {"valign", "top"}, {"headers", "h"}, {"abbr", "x"}, {"bgcolor", "red"}, {"style", "text-align: right"}, {"nowrap", ""}, {"char", "."}, {"axis", "a"}})
				}
				if n.Tag == "blockquote" || n.Tag == "del" || n.Tag == "s" {
					a = pick(w.r, [][2]string{{"cite", "/c"}, {"datetime", "2020-01-01"}, a})
				}
				if n.Tag == "a" && chance(w.r, 0.3) {
					a = pick(w.r, [][2]string{{"target", "_blank"}, {"rel", "nofollow"}, {"name", "n"}, {"download", ""}})
				}
				if n.Tag == "img" && chance(w.r, 0.3) {
					a = pick(w.r, [][2]string{{"height", "1"}, {"loading", "lazy"}, {"srcset", "/y.png 2x"}, {"data-src", "/z.png"}})
				}
				dup := false
				for _, x := range attrs {
					dup = dup || x[0] == a[0]
				}
				if !dup {
					attrs = append(attrs, a)
				}
			}
			shuffle(w.r, attrs)
		}
		for _, a := range attrs {
			k := a[0]
			if w.do("case", 0.3) {
				k = strings.ToUpper(k)
			}
			fmt.Fprintf(&w.b, ` %s="%s"`, k, w.str(a[1], true))
		}
		w.b.WriteString(">")
		if voidTags[n.Tag] {
			return
		}
		if n.Tag == "pre" && strings.HasPrefix(firstText(n), "\n") && len(n.Kids) > 0 && n.Kids[0].Tag == "" {
			w.b.WriteString("\n")
		}
		defer func() { w.b.WriteString("</" + tag + ">") }()
	}
	if n.Tag == "pre" || n.Tag == "code" || n.Tag == "kbd" || n.Tag == "samp" || n.Tag == "var" || n.Tag == "tt" {
		code = true
	}
	old := w.noSpan
	w.noSpan = emAroundLink(n)
	defer func() { w.noSpan = old }()
	isBlock := func(k *N) bool { return k.Tag != "" && blockTags[k.Tag] }
	gap := func(i int) {
		edge := !code && blockTags[n.Tag] && (i == 0 || i == len(n.Kids) || isBlock(n.Kids[i-1]) || isBlock(n.Kids[i]))
		if edge && w.do("blockspace", 0.5) {
			w.b.WriteString(pick(w.r, []string{"\n", " ", "\n  ", "\t", "\n\n\n", "\r\n", "\n    "}))
		}
	}
	for i, k := range n.Kids {
		gap(i)
		firstInPre := n.Tag == "pre" && i == 0
		if !firstInPre {
			w.between(n, code)
			gap(i)
		}
		if k.Tag == "" {
			w.text(k.Text, code, firstInPre)
		} else {
			w.write(k, code)
		}
	}
	if n.Tag != "pre" {
		gap(len(n.Kids))
		w.between(n, code)
	}
	gap(len(n.Kids))
}

// Attributes that say nothing about the structure of a document.
var neutralAttrs = [][2]string{
	{"id", "x1"}, {"id", "footnote-1"}, {"data-foo", "# a"}, {"aria-label", "b"}, {"aria-hidden", "true"}, {"aria-level", "2"}, {"onclick", "f('x')"},
	{"dir", "ltr"}, {"dir", "rtl"}, {"lang", "de"}, {"xml:lang", "de"}, {"translate", "no"}, {"contenteditable", "true"}, {"spellcheck", "false"}, {"draggable", "true"},
	{"data-title", "t"}, {"data-href", "/h"}, {"data-language", "go"}, {"data-lang", "go"}, {"data-src", "/s"}, {"data-markdown", "x"}, {"data-ignore", ""},
	{"width", "10"}, {"tabindex", "0"}, {"accesskey", "k"}, {"itemprop", "x"}, {"itemscope", ""}, {"hidden", ""}, {"inert", ""}, {"slot", "s"}, {"is", "x-y"}, {"part", "p"}, {"nonce", "n"},
	{"style", "font-weight: bold; display: none"}, {"style", "visibility:hidden"}, {"style", "font-style: italic"}, {"style", "text-decoration: line-through"},
	{"style", "white-space: pre"}, {"style", "float:left"}, {"style", "font-family: monospace"}, {"style", "mso-list: l0 level1 lfo1"},
	{"xmlns", "http://www.w3.org/1999/xhtml"}, {"v-if", "false"}, {"@click", "f"}, {":key", "k"}, {"_ngcontent-abc", ""}, {"x", "y"}, {"clear", "all"}, {"color", "red"}, {"size", "3"}, {"face", "Courier"},
}

var neutralClasses = []string{"a b", "language-go", "lang-x", "highlight", "highlight-source-go", "sr-only", "visually-hidden", "hidden", "d-none", "ad advertisement", "footnote",
	"task-list-item", "MsoListParagraph", "MsoNormal", "notranslate", "markdown", "code", "bold", "strong", "quote", "h1", "title heading", "katex", "math", "mw-editsection", "navbar", "comment", "nowrap", "line-numbers", "math inline"}

// cutElements cuts inline elements into two that touch.
func cutElements(r *rand.Rand, n *N) {
	for i := 0; i < len(n.Kids); i++ {
		k := n.Kids[i]
		cutElements(r, k)
		switch k.Tag {
		case "b", "strong", "em", "i", "del", "s", "strike", "code", "span":
		default:
			continue
		}
		if len(k.Kids) == 0 || !chance(r, 0.4) {
			continue
		}
		j := r.IntN(len(k.Kids))
		one := &N{Tag: k.Tag, Attr: k.Attr, Kids: append([]*N(nil), k.Kids[:j]...)}
		two := &N{Tag: k.Tag, Attr: k.Attr, Kids: append([]*N(nil), k.Kids[j:]...)}
		if x := k.Kids[j]; x.Tag == "" && len([]rune(x.Text)) > 1 {
			rs := []rune(x.Text)
			m := 1 + r.IntN(len(rs)-1)
			one.Kids = append(one.Kids, T(string(rs[:m])))
			two.Kids[0] = T(string(rs[m:]))
		}
		if len(one.Kids) == 0 {
			continue
		}
		n.Kids = append(n.Kids[:i:i], append([]*N{one, two}, n.Kids[i+1:]...)...)
		i++
	}
}

func c26noise(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.4)
	if chance(r, 0.15) {
		cfg.Escape = "disabled"
	}
	if chance(r, 0.3) {
		cfg.Domain = pick(r, []string{"example.com", "https://x.org/a/"})
	}
	g := newG(r, cfg)
	g.hostile = pick(r, []float64{0, 0, 0.4})
	g.maxDepth = pick(r, []int{2, 3, 5})
	g.budget = pick(r, []int{4, 15, 60})
	d := c.doc(g)
	if chance(r, 0.3) {
		cutElements(r, d)
	}
	w := &noise{r: r, on: map[string]bool{}, p: pick(r, []float64{0.03, 0.1, 0.3}), made: map[string]int{}}
	n := 1 + r.IntN(3)
	if chance(r, 0.2) {
		n = len(noiseKinds)
	}
	for i := 0; i < n; i++ {
		w.on[pick(r, noiseKinds)] = true
	}
	plain := d.HTML()
	w.write(d, false)
	noisy := w.b.String()
	if w.on["wrapper"] {
		w.made["wrapper"]++
		switch r.IntN(3) {
		case 0:
			noisy = "<!DOCTYPE html>\n<html lang=en>\n<head><meta charset=utf-8><title>Title</title><style>p{}</style><base href='http://b.c/'></head>\n<body class=x>\n" + noisy + "\n</body>\n</html>\n"
		case 1:
			noisy = "<html><body>" + noisy + "</body></html><!-- end -->"
		case 2:
			noisy = "\ufeff"[:0] + "<head><script>1</script></head>" + noisy
		}
	}
	c.lastHTML, c.lastCfg = noisy, &cfg
	a, err1 := cfg.Convert(plain)
	b, err2 := cfg.Convert(noisy)
	if err1 != nil || err2 != nil {
		c.Fail(noisy, &cfg, "conversion failed: %v %v", err1, err2)
	}
	if a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		i = max(0, i-30)
		c.Fail(noisy, &cfg, "noise %v changes the Markdown: %s becomes %s\n    plain HTML: %s", w.made, quote(trunc(a[min(i, len(a)):], 120)), quote(trunc(b[min(i, len(b)):], 120)), trunc(quote(plain), 3000))
	}
	any := false
	for k, v := range w.made {
		c.Obs("noise_"+k, v)
		any = any || v > 0
	}
	if any && noisy != plain {
		c.Seen(noisy + cfg.String())
	}
	c.Sample("%s", noisy)
}

// c26split: the same tree with its text nodes cut in pieces, given as a tree.
func c26split(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.4)
	if chance(r, 0.15) {
		cfg.Escape = "disabled"
	}
	g := newG(r, cfg)
	g.hostile = pick(r, []float64{0, 0.4})
	g.budget = 30
	src := c.doc(g).HTML()
	c.lastHTML, c.lastCfg = src, &cfg
	a, err := cfg.Convert(src)
	if err != nil {
		c.Fail(src, &cfg, "conversion failed: %v", err)
	}
	doc := parseHTML(src)
	cuts := 0
	var f func(n *html.Node)
	f = func(n *html.Node) {
		for k := n.FirstChild; k != nil; {
			next := k.NextSibling
			if k.Type == html.TextNode && len(k.Data) > 1 {
				rs := []rune(k.Data)
				for len(rs) > 1 && chance(r, 0.6) {
					i := 1 + r.IntN(len(rs)-1)
					n.InsertBefore(&html.Node{Type: html.TextNode, Data: string(rs[:i])}, k)
					if chance(r, 0.1) {
						n.InsertBefore(&html.Node{Type: html.TextNode}, k)
					}
					rs = rs[i:]
					cuts++
				}
				k.Data = string(rs)
			} else {
				f(k)
			}
			k = next
		}
	}
	f(doc)
	b, err := cfg.New().ConvertNode(doc)
	if err != nil {
		c.Fail(src, &cfg, "conversion failed: %v", err)
	}
	if a != string(b) {
		c.Fail(src, &cfg, "splitting text nodes changes the Markdown: %s becomes %s", quote(a), quote(string(b)))
	}
	c.Obs("cuts", cuts)
	if cuts > 0 {
		c.Seen(src + cfg.String())
	}
}

var _ = converter.WithDomain

func init() {
	register(&Check{ID: "C26",
		Rule: "generated documents (also with inline elements in two touching pieces) written plainly and with noise (comments, removed elements, irrelevant attributes, tag and attribute case, entity spellings, white space between blocks and in runs, neutral spans around texts, parts of texts and inline elements, a surrounding document) or with their text nodes cut in pieces; both conversions must agree byte for byte; distinct by noisy document and configuration, at least one piece of noise",
		Streams: []Stream{
			{Name: "noise", N: 25000, NT: 600000, F: c26noise},
			{Name: "split", N: 8000, NT: 150000, F: c26split},
			large(1500, c26noise, c26noise, c26split),
		}})
}
