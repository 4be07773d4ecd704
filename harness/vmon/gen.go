package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode"
	"unicode/utf8"
)

// G generates documents from the supported constructs.
type G struct {
	r   *rand.Rand
	cfg Cfg
	n   int // token counter

	hostile  float64 // probability that a text contains Markdown-significant characters
	punct    float64 // probability of ordinary punctuation
	inline   float64 // probability that an inline position holds markup
	maxDepth int
	budget   int
	long     int // texts of up to so many bytes

	// which constructs may appear
	noLink, noImg, noCode, noBr, noEm, noStrike          bool
	noTable, noPre, noList, noQuote, noHead, noHR, noDiv bool
	noAlt                                                bool     // no i/b/kbd spellings
	names                                                []string // when set, block kinds are drawn from these
}

func newG(r *rand.Rand, cfg Cfg) *G {
	return &G{r: r, cfg: cfg, punct: 0.25, inline: 0.35, maxDepth: 3, budget: 60}
}

const b36 = "abcdefghijkmnpqrstuvwxyz"

// token is a unique word.
func (g *G) token() string {
	g.n++
	x := g.n
	s := ""
	for {
		s += string(b36[x%len(b36)])
		x /= len(b36)
		if x == 0 {
			break
		}
	}
	return "q" + s + pick(g.r, []string{"z", "7", "Z", "w0"})
}

var benignWords = []string{"the", "Quick", "brown", "fox", "jumps", "2024", "naïve", "日本語", "Ünïcode", "straße", "emoji😀", "x", "A1", "don't", "e.g", "semi;colon", "50%", "a/b", "café", "Привет", "مرحبا", "ﬁ", "I", "3", "42nd", "ze\u200dro", "co\u00adop", "nn\u200cj", "e\u0301t\u0303", "👩\u200d👧", "\u202bx\u202c", "가나", "ｗｉｄｅ", "x\ufe0fy"}

func (g *G) word() string {
	if chance(g.r, 0.35) {
		return pick(g.r, benignWords)
	}
	if d := loadDict(); len(d.novel) > 0 && chance(g.r, 0.15) {
		s := pick(g.r, d.novel)
		if isPlainWord(s) {
			return s
		}
	}
	return g.token()
}

func isPlainWord(s string) bool {
	if s == "" || !utf8.ValidString(s) || len(s) > 30 {
		return false
	}
	for _, c := range s {
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return true
}

// hostileAtoms look like Markdown.
var hostileAtoms = []string{"*", "**", "***", "_", "__", "#", "##", "######", "#######", "-", "--", "---", "- ", "+", "+ ", "1.", "1)", "12.", "999.", "123456789.", "123456789)", "1234567890.", "0.", "00000001)", "=", "===", "==", ">", "> ", "<", "<b>", "</i>", "<!--", "[", "]", "(", ")", "[a](b)", "![", "](", "[x]", "[ ]", "[^1]", "]: ", "!", "`", "``", "```", "~", "~~", "~~~", "\\", "\\*", "|", "| a |", "|---|", ":--", ":", "\"", "'", ".", "$", "$$", "{", "}", "@", "http://ex.org", "www.ex.org", "a@b.c", "***a***", "*a*", "**a**", "_a_", "__a__", "`a`", "~~a~~", "~a~", "* * *", "- - -", "_ _ _", "<http://x.y>", "<br>", "%", "^", ",", ";", "/", "?", "–", "“", "’", "…", "a\u00a0b", "a\u00a0\u00a0b", "x\u3000\u2003y"}

func (g *G) hostileText() string {
	var b strings.Builder
	n := 1 + g.r.IntN(7)
	for i := 0; i < n; i++ {
		switch x := g.r.IntN(10); {
		case x < 5:
			b.WriteString(pick(g.r, hostileAtoms))
		case x < 8:
			b.WriteString(g.word())
		default:
			if d := loadDict(); chance(g.r, 0.5) {
				s := pick(g.r, d.strs)
				if len(d.novel) > 0 && chance(g.r, 0.5) {
					s = pick(g.r, d.novel)
				}
				if okHostile(s) {
					b.WriteString(s)
				}
			}
		}
		if chance(g.r, 0.45) {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func okHostile(s string) bool {
	if !utf8.ValidString(s) || strings.Contains(s, "&") {
		return false
	}
	for _, c := range s {
		if c < ' ' || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == 0xf002 || c == 0xfffd || (unicode.IsSpace(c) && c != ' ') || c > 0xffff && !unicode.IsPrint(c) {
			return false
		}
		if c >= 0x80 && !unicode.IsPrint(c) {
			return false
		}
	}
	return true
}

// text yields a run of words (no leading/trailing space).
func (g *G) text() string {
	if chance(g.r, g.hostile) {
		if s := strings.TrimSpace(g.hostileText()); s != "" {
			return s
		}
	}
	n := 1
	for n < 8 && chance(g.r, 0.5) {
		n++
	}
	var p []string
	for i := 0; i < n; i++ {
		w := g.word()
		if chance(g.r, g.punct*0.5) {
			w += pick(g.r, []string{".", ",", ":", "?", ";", "!"})
		}
		p = append(p, w)
	}
	if len(p) > 1 && chance(g.r, 0.03) {
		k := 1 + g.r.IntN(len(p)-1)
		return strings.Join(p[:k], " ") + pick(g.r, []string{"\r", "\r\n", "\n", "\t", " \n "}) + strings.Join(p[k:], " ")
	}
	if len(p) > 1 && chance(g.r, 0.02) {
		k := 1 + g.r.IntN(len(p)-1)
		return strings.Join(p[:k], " ") + pick(g.r, []string{"\u3000", "\u2003", "\u2009", "\u202f", "\u1680", "\u205f", "\u00a0 ", " \u2002"}) + strings.Join(p[k:], " ")
	}
	return strings.Join(p, " ")
}

type ictx struct {
	link, em, strong, del, head, cell bool
	depth                             int
}

func (g *G) kind(a, b string) string {
	if !g.noAlt && chance(g.r, 0.3) {
		return b
	}
	return a
}

// inlines yields inline content; every element is separated from its
// neighbours by white space when sep is set.
func (g *G) inlines(c ictx) []*N {
	var out []*N
	n := 1
	for n < 5 && chance(g.r, 0.4) {
		n++
	}
	space := false
	for i := 0; i < n; i++ {
		if space {
			out = append(out, T(" "))
		}
		space = true
		if g.budget <= 0 || c.depth >= g.maxDepth || !chance(g.r, g.inline) {
			out = append(out, T(g.text()))
			continue
		}
		g.budget--
		d := c
		d.depth++
		switch g.r.IntN(9) {
		case 0, 1:
			if c.em || g.noEm {
				out = append(out, T(g.text()))
				continue
			}
			d.em = true
			out = append(out, E(g.kind("em", "i"), g.inlines(d)...))
		case 2, 3:
			if c.strong || g.noEm {
				out = append(out, T(g.text()))
				continue
			}
			d.strong = true
			out = append(out, E(g.kind("strong", "b"), g.inlines(d)...))
		case 4:
			if c.link || g.noLink {
				out = append(out, T(g.text()))
				continue
			}
			d.link = true
			a := E("a", g.inlines(d)...).A("href", g.href())
			if chance(g.r, 0.3) {
				a.A("title", g.title())
			}
			out = append(out, a)
		case 5:
			if g.noImg {
				out = append(out, T(g.text()))
				continue
			}
			out = append(out, g.img())
		case 6:
			if g.noCode {
				out = append(out, T(g.text()))
				continue
			}
			out = append(out, E(g.kind("code", pick(g.r, []string{"kbd", "samp", "var", "tt"})), T(g.code())))
		case 7:
			if g.noBr || c.head || c.cell || c.del && g.hostile > 0 || i == 0 || i == n-1 {
				out = append(out, T(g.text()))
				continue
			}
			out[len(out)-1] = E("br")
			out = append(out, T(g.text()))
		case 8:
			if !g.cfg.Strike || c.del || g.noStrike {
				out = append(out, E("span", g.inlines(d)...))
				continue
			}
			d.del = true
			in := g.inlines(d)
			if g.hostile > 0 {
				// a tilde at the edge cannot be told from the delimiter by the trusted reader
				in = append(append([]*N{T(g.token() + " ")}, in...), T(" "+g.token()))
			}
			out = append(out, E(g.kind("del", pick(g.r, []string{"s", "strike"})), in...))
		}
	}
	return out
}

func (g *G) img() *N {
	im := E("img").A("src", g.href())
	if chance(g.r, 0.8) {
		im.A("alt", g.text())
	}
	if chance(g.r, 0.3) {
		im.A("title", g.title())
	}
	return im
}

func (g *G) href() string {
	return pick(g.r, []string{"/" + g.token(), "https://ex.org/" + g.token(), "http://ex.org/" + g.token() + "?a=1&b=2#f", g.token() + ".html", "#" + g.token(), "mailto:" + g.token() + "@ex.org", "../" + g.token() + "/", "https://ex.org/a(b)" + g.token(), "/sp ace/" + g.token()})
}

func (g *G) title() string {
	return pick(g.r, []string{g.token(), "a " + g.token(), `say "` + g.token() + `"`, "it's " + g.token(), g.token() + pick(g.r, []string{"\r", "\n", "\r\n"}) + pick(g.r, []string{"# ", "- ", "> ", ""}) + g.token()})
}

// tight tells that emphasis may touch a neighbouring word; never with underscores.
func (g *G) tight() bool { return g.cfg.Em != "_" && g.cfg.Strong != "__" }

func (g *G) code() string {
	return pick(g.r, []string{g.token(), "x = " + g.token(), "*" + g.token() + "*", "a_b_" + g.token(), "`" + g.token() + "`", g.token() + "``b", "<i>" + g.token(), "[" + g.token() + "](x)", "# " + g.token(), "\\" + g.token(), "|" + g.token() + "|", "a&b" + g.token(), g.token() + pick(g.r, []string{"\r", "\n", "\r\n"}) + pick(g.r, []string{"# ", "- ", "> ", ""}) + g.token()})
}

func (g *G) pre() *N {
	var lines []string
	n := 1 + g.r.IntN(5)
	for i := 0; i < n; i++ {
		lines = append(lines, pick(g.r, []string{g.token(), "  " + g.token(), "", "    deep " + g.token(), "* " + g.token(), "# " + g.token(), "```", "~~~", "> " + g.token(), "\t" + g.token(), g.token() + "  ", "a\\*" + g.token(), "<b>" + g.token() + "</b>", "---"}))
	}
	s := strings.Join(lines, pick(g.r, []string{"\n", "\n", "\n", "\n", "\n", "\n", "\r", "\r\n"}))
	if strings.TrimSpace(s) == "" {
		s = g.token()
	}
	if strings.HasPrefix(s, "\r") {
		s = g.token() + s // the HTML parser drops it
	}
	code := E("code", T(s))
	if chance(g.r, 0.4) {
		code.A("class", "language-"+pick(g.r, []string{"go", "js", "c++", "objective-c", "sh"}))
	}
	if chance(g.r, 0.3) {
		return E("pre", T(s))
	}
	return E("pre", code)
}

type bctx struct {
	depth int
	list  int // nesting of lists
	quote bool
}

// blocks yields n sibling blocks.
func (g *G) blocks(c bctx, n int) []*N {
	var out []*N
	for i := 0; i < n; i++ {
		b := g.block(c)
		if len(out) > 0 && g.clash(out[len(out)-1], b) {
			continue // without the list end comment adjacent lists merge by design
		}
		out = append(out, b)
	}
	return out
}

func (g *G) block(c bctx) *N {
	g.budget--
	d := c
	d.depth++
	leafOnly := c.depth >= g.maxDepth || g.budget <= 0
	for {
		k := g.r.IntN(14)
		if leafOnly && (k == 4 || k == 5 || k == 6 || k == 7 || k == 8) {
			continue
		}
		switch k {
		case 0, 1, 2:
			return E("p", g.inlines(ictx{})...)
		case 3:
			if g.noHead {
				continue
			}
			return E(fmt.Sprintf("h%d", 1+g.r.IntN(6)), g.inlines(ictx{head: true})...)
		case 4, 5:
			if g.noList {
				continue
			}
			return g.list(d)
		case 6:
			if g.noQuote {
				continue
			}
			return E("blockquote", g.flow(d, 1+g.r.IntN(3))...)
		case 7, 8:
			if g.noDiv {
				continue
			}
			return E(pick(g.r, []string{"div", "section", "article", "main", "aside"}), g.flow(d, 1+g.r.IntN(3))...)
		case 9, 10:
			if g.noPre {
				continue
			}
			return g.pre()
		case 11:
			if g.noHR {
				continue
			}
			return E("hr")
		default:
			if g.noTable || !g.cfg.Table || c.depth > 2 {
				continue
			}
			return g.table()
		}
	}
}

// flow is the content of a container: blocks, or inline content, or both.
func (g *G) flow(c bctx, n int) []*N {
	if chance(g.r, 0.3) {
		return g.inlines(ictx{})
	}
	bs := g.blocks(c, n)
	if chance(g.r, 0.15) {
		bs = append(g.inlines(ictx{}), bs...)
	}
	return bs
}

func (g *G) list(c bctx) *N {
	tag := "ul"
	if chance(g.r, 0.5) {
		tag = "ol"
	}
	l := E(tag)
	if tag == "ol" && chance(g.r, 0.4) {
		l.A("start", fmt.Sprint(pick(g.r, []int{0, 1, 2, 5, 9, 10, 98, 99, 100, 997, 12345})))
	}
	n := 1 + g.r.IntN(4)
	if chance(g.r, 0.05) {
		n = 9 + g.r.IntN(5)
	}
	c.list++
	for i := 0; i < n; i++ {
		li := E("li")
		switch {
		case c.depth > g.maxDepth || g.budget <= 0 || chance(g.r, 0.55):
			li.Kids = g.inlines(ictx{})
		case chance(g.r, 0.5) && !g.noList:
			li.Kids = append(g.inlines(ictx{}), g.list(bctx{depth: c.depth + 1, list: c.list}))
		default:
			li.Kids = g.blocks(bctx{depth: c.depth, list: c.list}, 1+g.r.IntN(3))
		}
		l.Kids = append(l.Kids, li)
	}
	return l
}

func (g *G) table() *N {
	cols := 1 + g.r.IntN(4)
	rows := 1 + g.r.IntN(4)
	var aligns []string
	for i := 0; i < cols; i++ {
		aligns = append(aligns, pick(g.r, []string{"", "", "", "left", "right", "center", "LEFT", "Right", "CENTER"}))
	}
	row := func(tag string, first bool) *N {
		tr := E("tr")
		for i := 0; i < cols; i++ {
			c := E(tag, g.inlines(ictx{cell: true, depth: g.maxDepth - 1})...)
			if aligns[i] != "" && first {
				c.A("align", aligns[i])
			}
			tr.Kids = append(tr.Kids, c)
		}
		return tr
	}
	t := E("table")
	if chance(g.r, 0.15) {
		t.Kids = append(t.Kids, E("caption", T(g.text())))
	}
	t.Kids = append(t.Kids, E("thead", row("th", true)))
	body := E("tbody")
	for i := 0; i < rows; i++ {
		body.Kids = append(body.Kids, row("td", false))
	}
	t.Kids = append(t.Kids, body)
	return t
}

func (g *G) doc() *N {
	return Root(g.blocks(bctx{}, 1+g.r.IntN(5))...)
}
