package main

// C37: nothing in the Markdown is more active than the document. The monitor
// parses the Markdown with the trusted reader and demands a reason for every
// construct of its syntax tree: an element of the document that is spelled
// that way. It needs no expectation of how a document comes out, so it
// applies to every document, however malformed.

import (
	"fmt"
	"math/rand/v2"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yuin/goldmark/ast"
	east "github.com/yuin/goldmark/extension/ast"
	"github.com/yuin/goldmark/parser"
	"github.com/yuin/goldmark/text"
	"golang.org/x/net/html"
)

var pctByte = regexp.MustCompile(`%[0-9A-Fa-f]{2}`)

// looseURL forgets how a URL is written: encoding, character references, case.
func looseURL(s string) string {
	s = html.UnescapeString(s)
	s = pctByte.ReplaceAllStringFunc(s, func(p string) string {
		b, _ := strconv.ParseUint(p[1:], 16, 8)
		return string([]byte{byte(b)})
	})
	s = html.UnescapeString(s)
	s = strings.ToLower(strings.ToValidUTF8(s, "?"))
	return strings.Map(func(r rune) rune {
		if r <= ' ' || r == '+' || r == ';' || r == '/' || r == '\\' || r == 0xFFFD || r >= 0xE000 && r <= 0xF8FF || r == 0x85 || unicode.IsSpace(r) || r == 7 {
			return -1
		}
		return r
	}, strings.TrimRight(strings.TrimSpace(s), "#"))
}

func looseTitle(s string) string {
	s = html.UnescapeString(html.UnescapeString(s))
	return strings.Map(func(r rune) rune {
		if r <= ' ' || r == '\\' || r == 0xFFFD || r >= 0xE000 && r <= 0xF8FF || r == 7 {
			return -1
		}
		return r
	}, s)
}

type c37doc struct {
	has                 map[string]bool
	hrefs, srcs, titles map[string]bool

	// A heading that contains a table (with the table plugin) has no Markdown.
	tableInHeading bool

	// Emphasis with an edge that is no letter or digit may not be expressible;
	// then its delimiters are text, and can pair up with those of the text. The
	// same for underscores inside a word.
	edgy bool
}

func c37read(src string, cfg Cfg) *c37doc {
	d := &c37doc{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{"": true}, false, cfg.Em == "_" || strings.HasPrefix(cfg.Strong, "_")}
	doc := parseHTML(src)
	if doc == nil {
		return d
	}
	abs := func(to map[string]bool, u string) {
		to[looseURL(u)] = true
		to[looseURL(strings.TrimSpace(u))] = true
		base := cfg.Domain
		if base == "" {
			return
		}
		for _, b := range []string{base, "http://" + base, "http:" + base} {
			if bu, err := url.Parse(b); err == nil && bu.Host != "" {
				ref := strings.NewReplacer("\n", "%0A", "\t", "%09", "\x00", "\uFFFD", "\a", "\uFFFD").Replace(strings.TrimSpace(u))
				if ru, err := url.Parse(ref); err == nil {
					to[looseURL(bu.ResolveReference(ru).String())] = true
				}
			}
		}
	}
	var f func(*html.Node)
	f = func(n *html.Node) {
		if n.Type == html.ElementNode {
			d.has[n.Data] = true
			switch n.Data {
			case "table":
				for p := n.Parent; p != nil && cfg.Table; p = p.Parent {
					d.tableInHeading = d.tableInHeading || isHeadingName(p.Data)
				}
			case "em", "i", "strong", "b":
				if t := strings.TrimSpace(nodeText(n)); t == "" || !wordRunes(t) || hasElement(n) {
					d.edgy = true
				}
			}
			if n.Data == "a" {
				abs(d.hrefs, "")
			}
			for _, a := range n.Attr {
				switch a.Key {
				case "href":
					abs(d.hrefs, a.Val)
				case "src":
					abs(d.srcs, a.Val)
				case "title":
					d.titles[looseTitle(a.Val)] = true
				}
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(doc)
	return d
}

func nodeText(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	s := ""
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		s += nodeText(k)
	}
	return s
}

func hasElement(n *html.Node) bool {
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if k.Type == html.ElementNode && k.Data != "span" || hasElement(k) {
			return true
		}
	}
	return false
}

func isHeadingName(s string) bool {
	return len(s) == 2 && s[0] == 'h' && s[1] >= '1' && s[1] <= '6'
}

func wordRunes(s string) bool {
	a, _ := utf8.DecodeRuneInString(s)
	z, _ := utf8.DecodeLastRuneInString(s)
	word := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }
	return word(a) && word(z)
}

// spacedCode is the document with a word after each of its code elements, if
// it has several: whether two of them get next to each other shows only after
// the plugins have moved the nodes.
func spacedCode(src string) (string, bool) {
	doc := parseHTML(src)
	if doc == nil {
		return src, false
	}
	codes := 0
	var f func(n *html.Node)
	f = func(n *html.Node) {
		if n.Type == html.ElementNode {
			switch n.Data {
			case "code", "var", "samp", "kbd", "tt":
				codes++
				n.Parent.InsertBefore(&html.Node{Type: html.TextNode, Data: " x "}, n.NextSibling)
				return
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(doc)
	var b strings.Builder
	html.Render(&b, doc)
	return b.String(), codes > 1
}

func (d *c37doc) any(tags ...string) bool {
	for _, t := range tags {
		if d.has[t] {
			return true
		}
	}
	return false
}

func hasLineBreak(n ast.Node) bool {
	for k := n.FirstChild(); k != nil; k = k.NextSibling() {
		if t, ok := k.(*ast.Text); ok && (t.SoftLineBreak() || t.HardLineBreak()) {
			return true
		}
		if k.Kind() == ast.KindRawHTML { // a line break that is preserved in a table
			return true
		}
		if hasLineBreak(k) {
			return true
		}
	}
	return false
}

// c37look returns what has no reason, how many constructs were looked at, and
// how many of them are the recorded findings KF-01 and KF-05.
func c37look(src string, cfg Cfg, strict bool) (bad string, kinds map[string]int, known, codeRef int) {
	kinds = map[string]int{}
	md, err := cfg.Convert(src)
	if err != nil {
		return "", kinds, 0, 0
	}
	d := c37read(src, cfg)
	if d.tableInHeading {
		return "", kinds, 0, 0
	}
	in := []byte(lineEndings.Replace(md))
	pc := parser.NewContext()
	root := goldmarkFor(cfg).Parser().Parse(text.NewReader(in), parser.WithContext(pc))
	fail := func(format string, args ...any) {
		if bad == "" {
			bad = fmt.Sprintf(format, args...) + fmt.Sprintf("\n    markdown: %s\n    html: %s\n    options: %s", trunc(quote(md), 900), trunc(quote(src), 900), cfg)
		}
	}
	for _, r := range pc.References() {
		if strings.Contains(string(r.Label()), "\n") && !strict && d.any("br", "table") {
			known++
			continue
		}
		if strings.Contains(string(r.Label()), "`") && !strict && d.any("code", "var", "samp", "kbd", "tt", "pre") {
			codeRef++
			continue
		}
		fail("the Markdown defines the reference %q to %q", r.Label(), r.Destination())
	}
	raw := func(s string) {
		s = strings.TrimSpace(s)
		switch {
		case s == "<!--THE END-->" && d.any("ul", "ol"):
		case s == "<br />" && d.has["table"] && cfg.Table:
		default:
			fail("the Markdown contains the HTML %q", s)
		}
	}
	broken := 0
	acrossBreak := func(n ast.Node) bool { return cfg.Table && cfg.Newline == "preserve" && d.has["table"] && hasLineBreak(n) }
	why := func(kind string, tags ...string) {
		kinds[kind]++
		if !d.any(tags...) {
			fail("the Markdown has %s, but the document has no element of %v", kind, tags)
		}
	}
	ast.Walk(root, func(n ast.Node, in2 bool) (ast.WalkStatus, error) {
		if !in2 {
			return ast.WalkContinue, nil
		}
		switch n := n.(type) {
		case *ast.Heading:
			why(fmt.Sprintf("a heading of level %d", n.Level), fmt.Sprintf("h%d", n.Level))
		case *ast.Blockquote:
			why("a quote", "blockquote")
		case *ast.List:
			if n.IsOrdered() {
				why("an ordered list", "ol")
			} else {
				why("a bullet list", "ul")
			}
		case *ast.FencedCodeBlock:
			why("a code block", "pre")
		case *ast.CodeBlock:
			fail("the Markdown has an indented code block")
		case *ast.ThematicBreak:
			why("a rule", "hr")
		case *ast.HTMLBlock:
			var b strings.Builder
			for i := 0; i < n.Lines().Len(); i++ {
				l := n.Lines().At(i)
				b.Write(l.Value(in))
			}
			if n.HasClosure() {
				b.Write(n.ClosureLine.Value(in))
			}
			kinds["html"]++
			raw(b.String())
		case *ast.RawHTML:
			var b strings.Builder
			for i := 0; i < n.Segments.Len(); i++ {
				s := n.Segments.At(i)
				b.Write(s.Value(in))
			}
			kinds["html"]++
			raw(b.String())
		case *ast.AutoLink:
			fail("the Markdown has the autolink %q", n.URL(in))
		case *ast.CodeSpan:
			why("a code span", "code", "var", "samp", "kbd", "tt", "pre")
		case *ast.Emphasis:
			if !strict && acrossBreak(n) {
				broken++
				break
			}
			if edgy := d.edgy; n.Level == 1 && !edgy {
				why("emphasis", "em", "i")
			} else if !edgy {
				why("strong emphasis", "strong", "b", "h1", "h2", "h3", "h4", "h5", "h6")
			} else {
				why("emphasis of either kind", "em", "i", "strong", "b", "h1", "h2", "h3", "h4", "h5", "h6")
			}
		case *ast.Link:
			kinds["a link"]++
			if !d.hrefs[looseURL(string(n.Destination))] || !d.titles[looseTitle(string(n.Title))] {
				if hasLineBreak(n) && !strict && !d.hrefs[looseURL(string(n.Destination))] {
					known++
					break
				}
				fail("the Markdown has a link to %q (title %q), but the document has none", n.Destination, n.Title)
			}
		case *ast.Image:
			kinds["an image"]++
			if hasLineBreak(n) && !strict && !d.srcs[looseURL(string(n.Destination))] {
				known++
				break
			}
			if !d.srcs[looseURL(string(n.Destination))] || !d.titles[looseTitle(string(n.Title))] {
				fail("the Markdown has an image of %q (title %q), but the document has none", n.Destination, n.Title)
			}
		case *east.Strikethrough:
			if !strict && acrossBreak(n) {
				broken++
				break
			}
			why("struck-through text", "del", "s", "strike")
		case *east.Table:
			why("a table", "table")
		}
		return ast.WalkContinue, nil
	})
	if broken > 0 {
		kinds["attributed_to_KF-06"] = broken
	}
	return bad, kinds, known, codeRef
}

var activeBits = []string{
	"<script>x</script>", "<img src=x onerror=y>", "</p><b>", "<!--", "-->", "<!--THE END-->", "<br />", "<br>", "<?x?>", "<![CDATA[x]]>", "<http://a.b>", "<a@b.c>",
	"](javascript:x)", "[a](x)", "![a](x)", "[a]: x", "[a]", "[a][b]", "\n\n[a]: /x 'y'\n\n", "](/u \"t\")", ")", "(", "[", "]", "\" onclick=\"", "' x='",
	"`", "```", "~~~", "\n```\n", "**", "__", "*a*", "_a_", "~~a~~", "~a~", "# a", "\n# a\n", "\n\n# a\n\n", "> a", "\n> a", "- a", "\n- a", "+ a", "1. a", "7) a", "\n1) a", "---", "\n---\n", "===", "\n===", "* * *", "| a | b |", "\n|---|\n", "| - |", ":-:", "    a", "\n\n    a", "\ta", "\\", "\\\\", "\\[", "a\\", "  \n", "\n\n", "\u00a0", "\u2028", "\f", "\v",
}

// salt puts pieces of markup and Markdown into texts and attribute values.
func salt(r *rand.Rand, src string) string {
	doc := parseHTML(src)
	if doc == nil {
		return src
	}
	p := pick(r, []float64{0.1, 0.3, 0.7})
	bits := func(old string) string {
		s := ""
		for k := 1 + r.IntN(3); k > 0; k-- {
			s += pick(r, activeBits)
			if chance(r, 0.3) {
				s += " "
			}
		}
		switch r.IntN(4) {
		case 0:
			return s
		case 1:
			return old + s
		case 2:
			return s + old
		default:
			k := r.IntN(len(old) + 1)
			for k < len(old) && old[k]&0xC0 == 0x80 {
				k++
			}
			return old[:k] + s + old[k:]
		}
	}
	var f func(*html.Node)
	f = func(n *html.Node) {
		if n.Type == html.TextNode && chance(r, p) {
			n.Data = bits(n.Data)
		}
		if n.Type == html.ElementNode {
			for i, a := range n.Attr {
				if chance(r, p) {
					n.Attr[i].Val = bits(a.Val)
				}
			}
			if chance(r, p/3) && len(n.Attr) < 6 {
				n.Attr = append(n.Attr, html.Attribute{Key: pick(r, []string{"title", "alt", "class", "href", "src", "align", "start", "role", "colspan", "id", "aria-label", "name", "type", "data-a", "hidden", "lang"}), Val: bits("")})
			}
		}
		if n.Type == html.CommentNode && chance(r, p) {
			n.Data = bits(n.Data)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(doc)
	var b strings.Builder
	if html.Render(&b, doc) != nil {
		return src
	}
	return b.String()
}

func c37(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Escape = ""
	cfg.Domain = ""
	if chance(r, 0.2) {
		cfg.Domain = pick(r, []string{"example.com", "https://example.com/a/b?c#d", "http://ex.org:80/x/"})
	}
	var src string
	switch {
	case c.Stream == "large":
		src = grownDoc(r, cfg)
	case c.Stream == "salted" || chance(r, 0.3):
		src = salt(r, anyDoc(r, cfg))
	default:
		src = anyDoc(r, cfg)
	}
	if len(src) > c.many(8000, 200000) {
		return
	}
	c.lastHTML, c.lastCfg = src, &cfg
	bad, kinds, known, codeRef := c37look(src, cfg, false)
	if bad != "" {
		if spaced, several := spacedCode(src); several {
			if msg, _, _, _ := c37look(spaced, cfg, false); msg == "" {
				c.Obs("attributed_to_KF-04", 1)
				bad = ""
			}
		}
	}
	if bad != "" {
		c.Fail(src, &cfg, "%s", bad)
	}
	n := 0
	for k, v := range kinds {
		c.Obs(k, v)
		n += v
	}
	c.Obs("attributed_to_KF-01", known)
	c.Obs("attributed_to_KF-05", codeRef)
	c.Obs("documents", 1)
	if n > 0 {
		c.Seen(src + cfg.String())
	}
	c.Sample("%s", src)
}

func init() {
	register(&Check{ID: "C37",
		Rule:     "documents of all generators (markup soup, mutated files of the repository, generated documents), plain and with pieces of HTML and Markdown put into their texts and attribute values; a CommonMark+GFM reader parses the Markdown, and every node of its syntax tree (raw HTML, link, image, autolink, reference, heading, list, quote, code, emphasis, rule, table) must have an element of the document as its reason, links and images with its destination and title; distinct by document and configuration",
		Assume:   []string{"destinations are compared without their encoding; a link whose text contains a line break and whose destination the document does not have is attributed to KF-01, a reference whose label contains a backtick to KF-05, and what vanishes when a word is put behind each code element to KF-04", "with the table plugin, documents with a table in a heading are not judged; where newlines of cells are preserved, emphasis and struck-through text that extend over a line break are attributed to KF-06"},
		AnyShape: true,
		Streams: []Stream{
			{Name: "docs", N: 15000, NT: 300000, F: c37},
			{Name: "salted", N: 25000, NT: 600000, F: c37},
			large(1500, c37),
		},
		Finding: func(src string, cfg Cfg) string {
			bad, _, _, _ := c37look(src, cfg, true)
			return bad
		},
		Probe: func(src string, cfg Cfg) string {
			if cfg.Escape != "" {
				return ""
			}
			bad, _, _, _ := c37look(src, cfg, false)
			if spaced, several := spacedCode(src); bad != "" && several {
				if msg, _, _, _ := c37look(spaced, cfg, false); msg == "" {
					return ""
				}
			}
			return bad
		},
	})
}
