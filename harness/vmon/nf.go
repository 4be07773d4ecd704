package main

// Normal form of an HTML document: what a reader of the rendered document
// sees, independent of how the HTML is written. It is computed for the source
// document and for the rendering of the Markdown, and the two are compared.

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/extension"
	ghtml "github.com/yuin/goldmark/renderer/html"
	"golang.org/x/net/html"
)

type nfOpt struct {
	strike    bool   // del/s/strike are markup
	table     bool   // tables are markup
	noHref    string // behaviour for empty hrefs: "skip" => transparent
	emptyLink string
	domain    string
}

func (c Cfg) nfOpt() nfOpt {
	return nfOpt{strike: c.Strike, table: c.Table, noHref: c.Href, emptyLink: c.Content}
}

var gmCache sync.Map

func goldmarkFor(c Cfg) goldmark.Markdown {
	key := fmt.Sprint(c.Strike, c.Table)
	if g, ok := gmCache.Load(key); ok {
		return g.(goldmark.Markdown)
	}
	var ext []goldmark.Extender
	if c.Table {
		ext = append(ext, extension.NewTable(extension.WithTableCellAlignMethod(extension.TableCellAlignAttribute)))
	}
	if c.Strike {
		ext = append(ext, extension.Strikethrough)
	}
	g := goldmark.New(goldmark.WithExtensions(ext...), goldmark.WithRendererOptions(ghtml.WithUnsafe()))
	gmCache.Store(key, g)
	return g
}

// A carriage return ends a line in CommonMark; the trusted reader only knows "\n".
var lineEndings = strings.NewReplacer("\r\n", "\n", "\r", "\n")

func mdToHTML(c Cfg, md string) string {
	var b bytes.Buffer
	if err := goldmarkFor(c).Convert([]byte(lineEndings.Replace(md)), &b); err != nil {
		panic(err)
	}
	return b.String()
}

func parseHTML(s string) *html.Node {
	doc, err := html.Parse(strings.NewReader(s))
	if err != nil {
		return nil
	}
	return doc
}

func attr(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

var nfRemoved = map[string]bool{"head": true, "script": true, "style": true, "link": true, "meta": true, "iframe": true, "noscript": true, "input": true, "textarea": true, "template": true}

var nfBlock = map[string]bool{"address": true, "article": true, "aside": true, "body": true, "dd": true, "details": true, "li": true, "div": true, "dl": true, "dt": true, "fieldset": true, "figcaption": true, "figure": true, "footer": true, "form": true, "header": true, "hgroup": true, "html": true, "main": true, "nav": true, "p": true, "section": true, "dialog": true,
	"table": true, "tbody": true, "thead": true, "tfoot": true, "tr": true, "td": true, "th": true, "caption": true}

// style of an inline run
type style struct {
	em, strong, del bool
	link            string // "" = none; else "dest title"
}

func (s style) String() string {
	var p []string
	if s.em {
		p = append(p, "em")
	}
	if s.strong {
		p = append(p, "strong")
	}
	if s.del {
		p = append(p, "del")
	}
	if s.link != "" {
		p = append(p, "a("+s.link+")")
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

type inl struct {
	kind string // "text", "br", "img", "code", "alink" (empty link)
	s    style
	text string
}

type nfw struct {
	opt   nfOpt
	out   []string // finished block lines
	depth int
	lists int
	inls  []inl
	inP   bool
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

func (w *nfw) text(s string, st style) {
	// split into alternating white space / word runs; white space carries no style
	i := 0
	for i < len(s) {
		j := i
		if isWS(s[i]) {
			for j < len(s) && isWS(s[j]) {
				j++
			}
			w.space()
		} else {
			for j < len(s) && !isWS(s[j]) {
				if r, n := utf8.DecodeRuneInString(s[j:]); r > 127 && unicode.IsSpace(r) {
					if j == i {
						j += n
					}
					break
				}
				j++
			}
			if r, n := utf8.DecodeRuneInString(s[i:]); r > 127 && unicode.IsSpace(r) && n == j-i {
				// a space that Unicode knows: visible inside a line, invisible at its edges
				w.inls = append(w.inls, inl{kind: "usp", text: s[i:j]})
			} else {
				w.word(s[i:j], st)
			}
		}
		i = j
	}
}

func (w *nfw) space() {
	if k := len(w.inls); k > 0 && (w.inls[k-1].kind == "sp" || w.inls[k-1].kind == "br") {
		return
	}
	w.inls = append(w.inls, inl{kind: "sp"})
}

func (w *nfw) word(t string, st style) {
	if k := len(w.inls); k > 0 && w.inls[k-1].kind == "text" && w.inls[k-1].s == st {
		w.inls[k-1].text += t
		return
	}
	w.inls = append(w.inls, inl{kind: "text", s: st, text: t})
}

func (w *nfw) atom(kind, t string, st style) {
	if kind == "br" {
		for k := len(w.inls); k > 0 && w.inls[k-1].kind == "sp"; k = len(w.inls) {
			w.inls = w.inls[:k-1]
		}
		st = style{}
	}
	if kind == "code" {
		if k := len(w.inls); k > 0 && w.inls[k-1].kind == "code" && w.inls[k-1].s == st {
			w.inls[k-1].text += t
			return
		}
	}
	w.inls = append(w.inls, inl{kind: kind, s: st, text: t})
}

func inlString(in []inl) string {
	// white space next to an empty link collapses with what surrounds the link
	var o []inl
	for i, x := range in {
		if x.kind == "sp" && (i > 0 && in[i-1].kind == "alink" || i+1 < len(in) && in[i+1].kind == "alink") {
			continue
		}
		o = append(o, x)
	}
	in = o
	// trim spaces and breaks at the edges
	for len(in) > 0 && (in[0].kind == "sp" || in[0].kind == "br" || in[0].kind == "usp") {
		in = in[1:]
	}
	for len(in) > 0 && (in[len(in)-1].kind == "sp" || in[len(in)-1].kind == "br" || in[len(in)-1].kind == "usp") {
		in = in[:len(in)-1]
	}
	var b strings.Builder
	for _, x := range in {
		switch x.kind {
		case "sp":
			b.WriteString(" ")
		case "usp":
			b.WriteString(x.text)
		case "br":
			b.WriteString("⏎")
		case "text":
			if st := x.s.String(); st != "" {
				fmt.Fprintf(&b, "⟨%s|%s⟩", st, x.text)
			} else {
				b.WriteString(x.text)
			}
		case "code":
			fmt.Fprintf(&b, "⟦code %s|%s⟧", x.s.String(), collapseWS(x.text))
		default:
			fmt.Fprintf(&b, "⟦%s %s|%s⟧", x.kind, x.s.String(), x.text)
		}
	}
	return b.String()
}

func (w *nfw) line(format string, a ...any) {
	w.out = append(w.out, strings.Repeat("  ", w.depth)+fmt.Sprintf(format, a...))
}

func (w *nfw) flush(kind string) bool {
	s := inlString(w.inls)
	w.inls = nil
	if s == "" {
		return false
	}
	w.line("%s %s", kind, s)
	return true
}

// sub collects the blocks of a container; false when it is empty.
func (w *nfw) sub(head string, f func()) bool {
	w.flush("P")
	mark := len(w.out)
	w.line("%s", head)
	w.depth++
	f()
	w.flush("P")
	w.depth--
	if len(w.out) == mark+1 {
		w.out = w.out[:mark]
		return false
	}
	return true
}

func collapseWS(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r < 128 && isWS(byte(r)) }), " ")
}

func codeText(n *html.Node) string {
	var b strings.Builder
	var f func(*html.Node)
	f = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		if n.Type == html.ElementNode && (n.Data == "script" || n.Data == "style" || n.Data == "textarea") {
			return
		}
		if n.Type == html.ElementNode && n.Data == "br" {
			b.WriteString("\n")
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(n)
	return lineEndings.Replace(b.String())
}

func inlineOnly(w *nfw, n *html.Node, st style) []inl {
	sv := w.inls
	w.inls = nil
	w.kids(n, st)
	r := w.inls
	w.inls = sv
	return r
}

func (w *nfw) kids(n *html.Node, st style) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		w.walk(c, st)
	}
}

func emptyInl(in []inl) bool {
	return inlString(in) == ""
}

func (w *nfw) walk(n *html.Node, st style) {
	switch n.Type {
	case html.TextNode:
		w.text(n.Data, st)
		return
	case html.CommentNode, html.DoctypeNode:
		return
	case html.DocumentNode:
		w.kids(n, st)
		return
	case html.ElementNode:
	default:
		return
	}
	name := n.Data
	if nfRemoved[name] {
		return
	}
	switch name {
	case "h1", "h2", "h3", "h4", "h5", "h6":
		w.flush("P")
		w.kids(n, st)
		// a line break in a heading may become a space
		for i := range w.inls {
			if w.inls[i].kind == "br" {
				w.inls[i].kind = "sp"
			}
		}
		w.inls = squeeze(w.inls)
		w.flush("H" + name[1:])
	case "hr":
		w.flush("P")
		w.line("HR")
	case "pre":
		w.flush("P")
		t := codeText(n)
		t = strings.TrimSuffix(t, "\n")
		if w.lists > 0 {
			// the trusted reader drops white space of blank lines inside list items
			ls := strings.Split(t, "\n")
			for i, l := range ls {
				if strings.Trim(l, " \t") == "" {
					ls[i] = ""
				}
			}
			t = strings.Join(ls, "\n")
		}
		w.line("PRE %q %q", preLang(n), t)
	case "blockquote":
		w.sub("QUOTE", func() { w.kids(n, st) })
	case "ul", "ol":
		w.lists++
		defer func() { w.lists-- }()
		head := "UL"
		if name == "ol" {
			s, _ := attr(n, "start")
			k, ok := htmlInt(s)
			if !ok || k < 0 || k > 999999999 {
				k = 1
			}
			head = fmt.Sprint("OL ", k)
		}
		w.sub(head, func() {
			// content placed directly in a list belongs to the previous item
			var groups [][]*html.Node
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				if c.Type == html.ElementNode && c.Data == "li" {
					var g []*html.Node
					for d := c.FirstChild; d != nil; d = d.NextSibling {
						g = append(g, d)
					}
					groups = append(groups, g)
				} else if c.Type == html.CommentNode || c.Type == html.TextNode && strings.Trim(c.Data, " \t\r\n\f") == "" {
					continue
				} else {
					if len(groups) == 0 {
						groups = append(groups, nil)
					}
					groups[len(groups)-1] = append(groups[len(groups)-1], c)
				}
			}
			for _, g := range groups {
				w.sub("ITEM", func() {
					for _, d := range g {
						w.walk(d, st)
					}
				})
			}
		})
	case "table":
		if !w.opt.table {
			w.flush("P")
			w.kids(n, st)
			w.flush("P")
			return
		}
		w.flush("P")
		w.table(n, st)
	case "br":
		w.atom("br", "", st)
	case "img":
		src, _ := attr(n, "src")
		if strings.TrimSpace(src) == "" {
			return
		}
		alt, _ := attr(n, "alt")
		title, _ := attr(n, "title")
		w.atom("img", fmt.Sprintf("%q %q %q", normURL(src), collapseWS(title), collapseWS(alt)), st)
	case "code", "kbd", "samp", "var", "tt":
		t := codeText(n)
		if t == "" {
			return
		}
		w.atom("code", t, st)
	case "em", "i":
		st.em = true
		w.kids(n, st)
	case "strong", "b":
		st.strong = true
		w.kids(n, st)
	case "del", "s", "strike":
		if w.opt.strike {
			st.del = true
		}
		w.kids(n, st)
	case "a":
		href, ok := attr(n, "href")
		href = strings.TrimSpace(href)
		if (!ok || href == "") && w.opt.noHref == "skip" {
			w.kids(n, st)
			return
		}
		title, _ := attr(n, "title")
		if href == "" {
			title = ""
		}
		s2 := st
		s2.link = fmt.Sprintf("%q %q", normURL(href), collapseWS(title))
		k := len(w.inls)
		o := len(w.out)
		w.kids(n, s2)
		if len(w.out) == o && k <= len(w.inls) && emptyInl(w.inls[k:]) {
			if w.opt.emptyLink != "skip" {
				w.inls = append(w.inls, inl{kind: "alink", s: s2})
			}
		}
	default:
		if nfBlock[name] {
			w.flush("P")
			w.kids(n, st)
			w.flush("P")
			return
		}
		w.kids(n, st)
	}
}

func squeeze(in []inl) []inl {
	var o []inl
	for _, x := range in {
		if x.kind == "sp" && len(o) > 0 && o[len(o)-1].kind == "sp" {
			continue
		}
		o = append(o, x)
	}
	return o
}

// htmlInt is the number that the HTML standard sees in an attribute value (rules for parsing integers).
func htmlInt(s string) (int, bool) {
	s = strings.TrimLeft(s, " \t\n\f\r")
	neg := strings.HasPrefix(s, "-")
	if neg || strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	end := 0
	for end < len(s) && s[end] >= '0' && s[end] <= '9' {
		end++
	}
	k, err := strconv.Atoi(s[:end])
	if neg {
		k = -k
	}
	return k, err == nil
}

// spellInt writes a number in one of the ways that mean the same in an HTML attribute.
func spellInt(r *rand.Rand, s string) string {
	if s == "" || !chance(r, 0.15) {
		return s
	}
	if s[0] == '-' {
		return pick(r, []string{" ", "\n"}) + s + pick(r, []string{"", " ", "px"})
	}
	return pick(r, []string{"", " ", "\n\t", "+", "0", " +", "00"}) + s + pick(r, []string{"", "", " ", "\n", "px", ".5", "%", ";", "em", " 3", "e2", "x", ","})
}

func preLang(n *html.Node) string {
	var found string
	var f func(n *html.Node)
	f = func(n *html.Node) {
		if n.Type == html.ElementNode && (n.Data == "pre" || n.Data == "code") && found == "" {
			c, _ := attr(n, "class")
			for _, p := range strings.Fields(c) {
				if strings.HasPrefix(p, "language-") {
					found = strings.TrimPrefix(p, "language-")
					break
				}
				if strings.HasPrefix(p, "lang-") {
					found = strings.TrimPrefix(p, "lang-")
					break
				}
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(n)
	return found
}

// table: simple grids only (no spans); C23 has its own grid model.
func (w *nfw) table(n *html.Node, st style) {
	var rows []*html.Node
	var find func(*html.Node)
	find = func(n *html.Node) {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.ElementNode && c.Data == "tr" {
				rows = append(rows, c)
			} else if c.Type == html.ElementNode && (c.Data == "thead" || c.Data == "tbody" || c.Data == "tfoot") {
				find(c)
			}
		}
	}
	find(n)
	var cap *html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && c.Data == "caption" {
			cap = c
		}
	}
	w.line("TABLE")
	w.depth++
	for i, r := range rows {
		var cells []string
		for c := r.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.ElementNode && (c.Data == "td" || c.Data == "th") {
				al := ""
				if i == 0 {
					if v, ok := attr(c, "align"); ok {
						al = strings.ToLower(v) + ":"
					}
				}
				cells = append(cells, al+inlString(inlineOnly(w, c, st)))
			}
		}
		w.line("ROW %s", strings.Join(cells, " ¦ "))
	}
	w.depth--
	if cap != nil {
		w.kids(cap, st)
		w.flush("P")
	}
}

// nf is the normal form as text, one block per line.
func nf(doc *html.Node, opt nfOpt) string {
	w := &nfw{opt: opt}
	w.walk(doc, style{})
	w.flush("P")
	return strings.Join(w.out, "\n")
}

func nfHTML(s string, opt nfOpt) string { return nf(parseHTML(s), opt) }

func diffLines(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var x, y string
		if i < len(la) {
			x = la[i]
		} else {
			x = "(end)"
		}
		if i < len(lb) {
			y = lb[i]
		} else {
			y = "(end)"
		}
		if x != y {
			return fmt.Sprintf("first difference at line %d:\n    source: %s\n    output: %s", i+1, trunc(x, 700), trunc(y, 700))
		}
	}
	return ""
}
