package main

// C11: with escaping disabled text is passed through verbatim.
// C12: internal placeholders never leak and cannot be forged.

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

var entity = strings.NewReplacer("<", "&lt;", ">", "&gt;")

// c11text is one line of arbitrary characters: no pipes when cell is set.
func c11text(g *G, cell bool) string {
	r := g.r
	for {
		var b strings.Builder
		for k := 1 + r.IntN(10); k > 0; k-- {
			switch r.IntN(8) {
			case 0:
				b.WriteString(g.word())
			case 1, 2:
				b.WriteString(pick(r, hostileAtoms))
			case 3:
				b.WriteString(strings.Repeat(pick(r, []string{"*", "_", "`", "~", "#", "-", "+", "=", "\\", "[", "]", "<", ">", "!", "|", "."}), 1+r.IntN(6)))
			case 4:
				b.WriteString(string(rune(33 + r.IntN(94))))
			case 5:
				if s := pick(r, loadDict().strs); okHostile(s) {
					b.WriteString(s)
				}
			default:
				b.WriteString(g.token())
			}
			if chance(r, 0.4) {
				b.WriteString(" ")
			}
		}
		s := strings.Join(strings.FieldsFunc(b.String(), func(c rune) bool { return c == ' ' }), " ")
		s = strings.ReplaceAll(s, "&", "+")
		if cell {
			s = strings.ReplaceAll(s, "|", "¦")
		}
		if g.long > 0 && s != "" && chance(r, 0.3) {
			return s + " " + g.words(scale(r, 30, g.long)) + " " + s
		}
		if s != "" && len(s) < 400 {
			return s
		}
	}
}

func c11frame(g *G, cfg Cfg) part {
	r := g.r
	em, st, bul := or(cfg.Em, "*"), or(cfg.Strong, "**"), or(cfg.Bullet, "-")
	a, b := g.token(), g.token()
	for {
		t := c11text(g, false)
		h, m := escText(t), entity.Replace(t)
		switch r.IntN(14) {
		case 0, 1:
			return part{"<p>" + h + "</p>", m}
		case 2:
			n := 1 + r.IntN(6)
			if cfg.Heading == "setext" && n < 3 {
				return part{fmt.Sprintf("<h%d>%s</h%d>", n, h, n), m + "\n" + strings.Repeat([]string{"", "=", "-"}[n], max(3, len([]rune(m))))}
			}
			return part{fmt.Sprintf("<h%d>%s</h%d>", n, h, n), strings.Repeat("#", n) + " " + m}
		case 3:
			t2 := c11text(g, false)
			return part{"<ul><li>" + h + "</li><li>" + escText(t2) + "</li></ul><p>" + a + "</p>", bul + " " + m + "\n" + bul + " " + entity.Replace(t2) + "\n\n" + a}
		case 4:
			return part{"<ol><li>" + h + "</li></ol><p>" + a + "</p>", "1. " + m + "\n\n" + a}
		case 5:
			return part{"<blockquote><p>" + h + "</p></blockquote>", "> " + m}
		case 6:
			return part{"<p>" + a + " <em>" + h + "</em> " + b + "</p>", a + " " + em + m + em + " " + b}
		case 7:
			return part{"<p>" + a + " <strong>" + h + "</strong> " + b + "</p>", a + " " + st + m + st + " " + b}
		case 8:
			return part{"<p>" + a + ` <a href="/u">` + h + "</a> " + b + "</p>", a + " [" + m + "](/u) " + b}
		case 9:
			if !cfg.Strike {
				continue
			}
			return part{"<p>" + a + " <s>" + h + "</s> " + b + "</p>", a + " ~~" + m + "~~ " + b}
		case 10:
			t2 := c11text(g, false)
			return part{"<p>" + h + "<br>" + escText(t2) + "</p>", m + "  \n" + entity.Replace(t2)}
		case 11:
			if !cfg.Table {
				continue
			}
			t, t2 := c11text(g, true), c11text(g, true)
			c := cfg
			c.Padding = or(c.Padding, "aligned")
			return part{"<table><tr><th>" + escText(t) + "</th></tr><tr><td>" + escText(t2) + "</td></tr></table>", c08grid(c, [][]string{{entity.Replace(t)}, {entity.Replace(t2)}}, "")}
		case 12:
			t2 := c11text(g, false)
			return part{"<div>" + h + "<span>" + escText(t2) + "</span></div>", m + entity.Replace(t2)}
		default:
			t2 := c11text(g, false)
			return part{"<div>" + h + "<div>" + escText(t2) + "</div></div>", m + "\n\n" + entity.Replace(t2)}
		}
	}
}

func c11(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.3)
	cfg.Escape = "disabled"
	cfg.Newline = ""
	g := newG(r, cfg)
	var hs, ms []string
	for k := c.many(1+r.IntN(4), 300); k > 0; k-- {
		g.long = 0
		if c.Stream == "large" && len(hs) == 0 {
			g.long = 60000
		}
		p := c11frame(g, cfg)
		hs = append(hs, p.html)
		ms = append(ms, p.md)
	}
	src, want := strings.Join(hs, ""), strings.Join(ms, "\n\n")
	c.lastHTML, c.lastCfg = src, &cfg
	out, err := cfg.Convert(src)
	if err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	if out != want {
		c.Fail(src, &cfg, "text is not passed through verbatim:\n  expected %s\n  got      %s", quote(want), quote(out))
	}
	c.Obs("texts", len(hs))
	c.Obs("bytes", len(want))
	c.Seen(src + cfg.String())
	c.Sample("%s", quote(out))
}

// ---- C12 ----

const slot = '\uE5B7' // stands for the character under test while a document is built

var placeholders = []string{"\a", "\uF002", "\uF000", "\uF001", "\x00"}
var neutrals = []string{"\uFFFD", "\uE123", "\x01", ""}

// slotted inserts slots into the texts and attributes of a document.
func slotted(r *rand.Rand, n *N) int {
	k := 0
	put := func(s string) string {
		if s == "" || !chance(r, 0.3) {
			return s
		}
		rs := []rune(s)
		for j := 1 + r.IntN(2); j > 0; j-- {
			i := r.IntN(len(rs) + 1)
			rs = append(rs[:i:i], append([]rune{slot}, rs[i:]...)...)
			k++
		}
		return string(rs)
	}
	n.walk(func(x *N) {
		if x.Tag == "" {
			x.Text = put(x.Text)
		}
		if len(x.Attr) > 0 && chance(r, 0.3) {
			// further attributes in front and between
			as := x.Attr
			x.Attr = nil
			for _, a := range as {
				for j := pick(r, []int{0, 0, 1, 3, 12}); j > 0; j-- {
					x.A(fmt.Sprintf("data-x%d", len(x.Attr)), pick(r, []string{"", "v", string(slot), "a b"}))
				}
				x.Attr = append(x.Attr, a)
			}
		}
		for i := range x.Attr {
			if a := x.Attr[i][0]; a == "alt" || a == "title" || a == "class" {
				x.Attr[i][1] = put(x.Attr[i][1])
			}
		}
	})
	return k
}

// convertSlots converts the document with the slots filled by s, as a tree so
// that the parser does not interfere.
func convertSlots(cfg Cfg, src, s string) (string, error) {
	doc := parseHTML(src)
	var f func(n *html.Node)
	f = func(n *html.Node) {
		n.Data = strings.ReplaceAll(n.Data, string(slot), s)
		for i := range n.Attr {
			n.Attr[i].Key = strings.ReplaceAll(n.Attr[i].Key, string(slot), s)
			n.Attr[i].Val = strings.ReplaceAll(n.Attr[i].Val, string(slot), s)
		}
		for c := n.FirstChild; c != nil; {
			next := c.NextSibling
			f(c)
			if c.Type == html.TextNode && c.Data == "" {
				n.RemoveChild(c)
			}
			c = next
		}
	}
	f(doc)
	conv := cfg.New()
	if strings.Contains(src, "<x-html") {
		conv.Register.RendererFor("x-html", converter.TagTypeInline, base.RenderAsHTML, converter.PriorityEarly)
	}
	b, err := conv.ConvertNode(doc, cfg.ConvOpts()...)
	return string(b), err
}

func drop(s string, cs ...string) string {
	for _, c := range cs {
		if c != "" {
			s = strings.ReplaceAll(s, c, "")
		}
	}
	return s
}

var tokR = regexp.MustCompile(`q[a-z]+(?:z|7|Z|w0)`)

func c12forge(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.3)
	cfg.Heading = "" // widths depend on the number of characters
	if cfg.Table {
		cfg.Padding = pick(r, []string{"minimal", "none"})
	}
	if chance(r, 0.15) {
		cfg.Escape = "disabled"
	}
	g := newG(r, cfg)
	g.hostile = pick(r, []float64{0, 0.5, 0.9})
	d := c.doc(g)
	if chance(r, 0.15) { // names of elements and attributes are seen where elements are rendered as HTML
		name := func() string { return pick(r, []string{"q", "x-", "data-", ""}) + "z" + string(slot) + pick(r, []string{"", "k"}) }
		e := E("x-html", T(g.token()), E(name(), T(g.token())).A(name(), pick(r, []string{"", "v"}))).A(name(), g.token())
		d.Kids = append(d.Kids, E("p", T(g.token()+" "), e, T(" "+g.token())))
	} else if slotted(r, d) == 0 {
		return
	}
	src := d.HTML()
	ph := pick(r, placeholders)
	c.lastHTML, c.lastCfg = src, &cfg
	got, err := convertSlots(cfg, src, ph)
	if err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	ok := false
	var first string
	for i, n := range neutrals {
		x, err := convertSlots(cfg, src, n)
		if err != nil {
			c.Fail(src, &cfg, "error %v", err)
		}
		// the original characters plus the replacements
		if drop(got, ph, "\uFFFD") == drop(x, n, "\uFFFD") {
			ok = true
			break
		}
		if i == 0 {
			first = x
		}
	}
	if !ok {
		c.Fail(strings.ReplaceAll(src, string(slot), fmt.Sprintf("&#%d;", []rune(ph)[0])), &cfg, "the character %q in the document changes the Markdown around it: %s; with U+FFFD in its place: %s", ph, quote(got), quote(first))
	}
	if strings.Contains(got, "\x00") {
		c.Fail(src, &cfg, "NUL in the output: %s", quote(got))
	}
	c.Obs("placeholder_documents", 1)
	c.Seen(src + ph + cfg.String())
	c.Sample("%q in %q", ph, trunc(src, 200))
}

// c12nul: NUL in text becomes U+FFFD.
func c12nul(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.3)
	if chance(r, 0.15) {
		cfg.Escape = "disabled"
	}
	g := newG(r, cfg)
	a, b := g.token(), g.token()
	d := Root(g.host([]*N{T(g.token() + " "), E(pick(r, []string{"em", "strong", "a", "span", "del", "code", "u"}), T(a+string(slot)+b))}, false, false)...)
	if chance(r, 0.2) {
		d = Root(E("pre", T(g.token()+"\n"+a+string(slot)+b)))
	}
	src := d.HTML()
	c.lastHTML, c.lastCfg = src, &cfg
	got, err := convertSlots(cfg, src, "\x00")
	if err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	if !strings.Contains(got, a+"\uFFFD"+b) {
		c.Fail(src, &cfg, "NUL between %s and %s did not become U+FFFD: %s", a, b, quote(got))
	}
	c.Obs("nul_characters", 1)
	c.Seen(src)
}

// ownEscaping converts with characters and deciders of the caller, with and
// without those of the commonmark plugin.
func ownEscaping(c *Case, cfg Cfg, src string) (string, error) {
	r := c.R
	conv := cfg.New()
	if chance(r, 0.5) {
		conv = converter.NewConverter(converter.WithPlugins(base.NewBasePlugin()))
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, converter.PriorityStandard)
	}
	for k := r.IntN(5); k > 0; k-- {
		conv.Register.EscapedChar(pick(r, []rune{'*', '#', 'a', 'e', '%', ':', '1', 'é', '→', '😀', '&', ';'}))
	}
	for k := r.IntN(3) - 1; k > 0; k-- {
		skip := pick(r, []int{-1, 1, 1, 2})
		only := pick(r, []byte{'*', 'a', ':', '1'})
		conv.Register.UnEscaper(func(chars []byte, i int) int {
			if chars[i] == only {
				return min(skip, len(chars)-i)
			}
			return -1
		}, pick(r, []int{converter.PriorityEarly, converter.PriorityStandard, converter.PriorityLate}))
	}
	c.Obs("own_escaping", 1)
	b, err := conv.ConvertString(src, cfg.ConvOpts()...)
	return b, err
}

// c12census: unusual characters of the output occur in the document.
func c12census(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	// The halves of a character in two texts would be joined in the output.
	src := strings.ToValidUTF8(anyDoc(r, cfg), "\uFFFD")
	if c.Stream == "large" {
		src = grownDoc(r, cfg)
	}
	c.lastHTML, c.lastCfg = src, &cfg
	out, err := "", error(nil)
	if chance(r, 0.25) {
		out, err = ownEscaping(c, cfg, src)
	} else {
		out, err = cfg.Convert(src)
	}
	if err != nil {
		return
	}
	in := map[rune]bool{'\n': true, '\uFFFD': true, ' ': true, '\t': true}
	var f func(n *html.Node)
	f = func(n *html.Node) {
		for _, ch := range n.Data {
			in[ch] = true
		}
		for _, a := range n.Attr {
			for _, ch := range a.Val {
				in[ch] = true
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(parseHTML(src))
	n := 0
	for _, ch := range out {
		if (unicode.IsControl(ch) || unicode.Is(unicode.Co, ch) || unicode.Is(unicode.Cf, ch) || ch >= 0xFFF0 && ch <= 0xFFFF) && !in[ch] {
			c.Fail(src, &cfg, "the output holds %q, which the document does not: %s", ch, quote(out))
		}
		n++
	}
	c.Obs("output_characters", n)
	if n > 0 {
		c.Seen(src + cfg.String())
	}
}

func init() {
	register(&Check{ID: "C11",
		Rule: "1-4 blocks (paragraph, heading, item, quote, emphasis, link, struck, table cell without pipes, line break, nested blocks) holding random lines of Markdown-significant and other characters, escape mode disabled, random other options; exact output expected; distinct by document and configuration",
		Streams: []Stream{
			{Name: "verbatim", N: 60000, NT: 2000000, F: c11},
			large(5000, c11),
		}})
	register(&Check{ID: "C12",
		Rule: "generated documents with BEL, U+F000-U+F002 or NUL inserted into text, code and attributes (as trees), whose Markdown must equal, these characters aside, that of the same document with a neutral character there; NUL between two words; the same characters in the names of elements and attributes of elements kept as HTML; and a census of control, format and private-use characters of the output over generated documents, soup and mutated test data, a quarter with characters and deciders for the escaping registered by the caller, also without the commonmark plugin; distinct by document, character and configuration",
		Streams: []Stream{
			{Name: "forge", N: 12000, NT: 400000, F: c12forge},
			{Name: "nul", N: 6000, NT: 100000, F: c12nul},
			{Name: "census", N: 20000, NT: 500000, F: c12census},
			large(1500, c12forge, c12census),
		}})
}
