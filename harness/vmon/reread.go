package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"
)

// Focused re-reading monitors: C14-C17, C19-C22, C24. Each generates documents
// around one construct and compares what a reader of the source and a reader
// of the rendered Markdown see.

func reread(c *Case, root *N, cfg Cfg) {
	c.grow(cfg, root)
	src := root.HTML()
	c.Obs("documents_reread", 1)
	if msg := rereadKnown(c, src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Seen(src)
	c.Sample("%s", src)
}

// ---- C14: siblings stay separate ----

var blockKinds = []string{"text", "inline", "p", "p2", "div", "section", "h1", "h3", "ul", "ol", "ol5", "ulp", "ulnest", "quote", "quotelist", "pre", "prelang", "hr", "table", "dl", "figure", "address", "details", "form", "link", "img", "emptyp", "comment", "pbr", "divnest", "listpre", "quotepre"}

func (g *G) blockOf(k string) []*N {
	t := func() *N { return T(g.token()) }
	switch k {
	case "text":
		return []*N{t()}
	case "inline":
		return []*N{E("em", t()), T(" "), E("span", t())}
	case "p":
		return []*N{E("p", t())}
	case "p2":
		return []*N{E("p", t(), T(" "), E("strong", t())), T("\n  "), E("p", t())}
	case "div":
		return []*N{E("div", t())}
	case "section":
		return []*N{E("section", E("p", t()))}
	case "h1":
		return []*N{E("h1", t())}
	case "h3":
		return []*N{E("h3", t())}
	case "ul":
		return []*N{E("ul", E("li", t()), T("\n"), E("li", t()))}
	case "ol":
		return []*N{E("ol", E("li", t()), E("li", t()))}
	case "ol5":
		return []*N{E("ol", E("li", t())).A("start", "5")}
	case "ulp":
		return []*N{E("ul", E("li", E("p", t()), E("p", t())))}
	case "ulnest":
		return []*N{E("ul", E("li", t(), E("ul", E("li", t()))))}
	case "quote":
		return []*N{E("blockquote", E("p", t()))}
	case "quotelist":
		return []*N{E("blockquote", E("ul", E("li", t())))}
	case "pre":
		return []*N{E("pre", T(g.token()+"\n"+g.token()))}
	case "prelang":
		return []*N{E("pre", E("code", T(g.token()+"\n\n  "+g.token())).A("class", "language-go"))}
	case "hr":
		return []*N{E("hr")}
	case "table":
		return []*N{E("table", E("tr", E("th", t()), E("th", t())), E("tr", E("td", t()), E("td", t())))}
	case "dl":
		return []*N{E("dl", E("dt", t()), E("dd", t()))}
	case "figure":
		return []*N{E("figure", E("img").A("src", "/"+g.token()), E("figcaption", t()))}
	case "address":
		return []*N{E("address", t())}
	case "details":
		return []*N{E("details", E("summary", t()), E("p", t()))}
	case "form":
		return []*N{E("form", E("fieldset", E("p", t())))}
	case "link":
		return []*N{E("a", t()).A("href", "/"+g.token())}
	case "img":
		return []*N{E("img").A("src", "/"+g.token()).A("alt", g.token())}
	case "emptyp":
		return pick(g.r, [][]*N{{E("p"), E("p", T(" \n"))}, {E("p", E("b", T(" ")))}, {E("h2")}, {E("blockquote")}, {E("ul")}, {E("div", E("div"))}, {E("ol", E("li"))}, {E("section", E("li"))}, {E("p", E("img"))}})
	case "comment":
		return pick(g.r, [][]*N{{Raw("<!-- c -->"), Raw("<script>x()</script>")}, {E("img")}, {Raw("<style>p{}</style>")}, {E("span")}, {Raw("<noscript>no</noscript>")}, {Raw("<textarea>t</textarea>")}, {Raw("<iframe>f</iframe>")}, {E("input").A("value", "v")}, {E("a")}, {E("b")}, {Raw("<!--THE-->"), E("img")}, {E("wbr")}})
	case "pbr":
		return []*N{E("p", t(), E("br"), t())}
	case "divnest":
		return []*N{E("div", E("div", E("div", t())), E("div", t()))}
	case "listpre":
		return []*N{E("ol", E("li", E("pre", E("code", T(g.token()+"\n"+g.token())))))}
	case "quotepre":
		return []*N{E("blockquote", E("pre", E("code", T(g.token()+"\n"+g.token()))), E("p", t()))}
	}
	panic(k)
}

func inlineKind(k string) bool {
	return k == "text" || k == "inline" || k == "link" || k == "img"
}

// seq builds siblings of the given kinds; inline neighbours are set apart by white space.
func (g *G) seq(kinds []string, ws string) ([]*N, bool) {
	var out []*N
	for i, k := range kinds {
		b := g.blockOf(k)
		if i > 0 {
			w := ws
			p := i - 1
			for p > 0 && kinds[p] == "comment" {
				p--
			}
			if w == "" && inlineKind(k) && (inlineKind(kinds[p]) || kinds[p] == "comment") {
				w = " "
			}
			if w != "" {
				out = append(out, T(w))
			}
		}
		if g.cfg.NoEnd {
			for _, o := range out {
				for _, x := range b {
					if hasList(o) && hasList(x) {
						return nil, false
					}
				}
			}
		}
		if !g.cfg.Table && k == "table" {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, true
}

func (g *G) boxes(bs []*N, box int) *N {
	switch box {
	case 0:
		return Root(bs...)
	case 1:
		return Root(E("blockquote", bs...), E("p", T(g.token())))
	case 2:
		return Root(E("ul", E("li", bs...), E("li", T(g.token()))))
	case 3:
		return Root(E("ol", E("li", T(g.token()), E("ol", E("li", bs...), E("li", T(g.token())))), E("li", T(g.token()))))
	case 4:
		return Root(E("div", bs...), E("p", T(g.token())))
	case 5:
		return Root(E("blockquote", E("ul", E("li", E("div", bs...))), E("p", T(g.token()))))
	}
	panic(box)
}

const nBoxes = 6

func c14pairs(c *Case) {
	k := len(blockKinds)
	a, b := blockKinds[c.Idx%k], blockKinds[c.Idx/k%k]
	for _, cfg := range []Cfg{{Table: true}, {Heading: "setext", Rule: "---", Bullet: "*", Fence: "~~~", Table: true}, {NoEnd: true, Table: true}} {
		for box := 0; box < nBoxes; box++ {
			for _, ws := range []string{"", "\n  "} {
				g := newG(c.R, cfg)
				bs, ok := g.seq([]string{a, b}, ws)
				if !ok {
					continue
				}
				root := g.boxes(bs, box)
				if cfg.NoEnd && box != 0 && box != 1 && box != 4 && (hasList(E("x", bs...))) {
					continue
				}
				reread(c, root, cfg)
			}
		}
	}
}

// ---- C15 ----

var headEdges = []string{"#", " #", "##", "\\#", " ##", "#1", "C#", "# a", "=", "==", "-", "--", "- a", "+ a", "1. a", "1) a", "> a", "* a", "a =", "a -", "***", "___", "```", "~~~", "~~", "    a", "\\", "\\\\", "a\\", "|", "| a", "[", "]", "[a]", "[a]: b", "<", "&lt", "`", "``", "!", "_", "*", ".", ":", "1", "1.", "a #b", "# #", "a \\# b", "######", "#######", "a ###### b", "a\u00a0\u00a0b", "a\u00a0 b", "a \u00a0b", "a\u3000\u3000b", "a\u00a0\u00a0\u00a0b", "a\u2003\u2003b", "a\u00a0\u2028b"}

func (g *G) headContent() []*N {
	var in []*N
	switch g.r.IntN(6) {
	case 0:
		in = []*N{T(pick(g.r, headEdges))}
	case 1:
		in = []*N{T(g.token() + " " + pick(g.r, headEdges))}
	case 2:
		in = []*N{T(pick(g.r, headEdges) + " " + g.token())}
	case 3:
		in = append(g.inlines(ictx{head: true}), T(" "+pick(g.r, headEdges)))
	default:
		in = g.inlines(ictx{head: true})
	}
	if chance(g.r, 0.25) {
		in = append(in, E("br"))
		for chance(g.r, 0.25) {
			in = append(in, E("br"))
		}
		in = append(in, T(g.text()))
	}
	if chance(g.r, 0.2) {
		in = append(in, T("\n"), T(g.text()))
	}
	if chance(g.r, 0.2) {
		in = append([]*N{T(" \n ")}, append(in, T("  \n"))...)
	}
	if chance(g.r, 0.1) {
		in = []*N{E("span", in...)}
	}
	if chance(g.r, 0.1) && !hasTag(in, "a") && !hasTag(in, "br") {
		in = []*N{E("a", in...).A("href", g.href())}
	}
	if chance(g.r, 0.06) {
		in = append(in, E("br"))
	}
	return in
}

func hasCode(ns []*N) bool {
	for _, t := range []string{"code", "kbd", "samp", "var", "tt"} {
		if hasTag(ns, t) {
			return true
		}
	}
	return false
}

func hasTag(ns []*N, tag string) bool {
	r := false
	for _, n := range ns {
		n.walk(func(x *N) {
			if x.Tag == tag {
				r = true
			}
		})
	}
	return r
}

func c15(c *Case) {
	cfg := randCfg(c.R, 0.2)
	cfg.Heading = pick(c.R, []string{"", "atx", "setext", "setext"})
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0, 0.3, 1})
	var bs []*N
	for i := 0; i < 1+c.R.IntN(3); i++ {
		bs = append(bs, E(fmt.Sprintf("h%d", 1+c.R.IntN(6)), g.headContent()...))
		if chance(c.R, 0.3) {
			bs = append(bs, g.neighbour())
		}
	}
	for i := 1; i < len(bs); i++ {
		if g.clash(bs[i-1], bs[i]) {
			return
		}
	}
	c.Obs("headings", len(bs))
	reread(c, g.place(bs), cfg)
}

// c15linked: a heading that is all there is in a link comes out as a heading
// whose content is the link.
func c15linked(c *Case) {
	cfg := randCfg(c.R, 0.3)
	cfg.Heading = pick(c.R, []string{"", "atx", "setext"})
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0, 0.3})
	h := fmt.Sprintf("h%d", 1+c.R.IntN(6))
	in := g.inlines(ictx{link: true, head: true})
	href := pick(c.R, []string{"/u", "https://ex.org/a?b=c#d", g.hostileURL()})
	pad := func(n ...*N) []*N {
		if chance(c.R, 0.3) {
			n = append([]*N{T(pick(c.R, []string{" ", "\n  ", "\t"}))}, n...)
		}
		if chance(c.R, 0.3) {
			n = append(n, T(pick(c.R, []string{" ", "\n  ", "\t"})))
		}
		return n
	}
	mk := func(swapped bool) *N {
		if swapped {
			return E(h, E("a", in...).A("href", href))
		}
		return E("a", pad(E(h, in...))...).A("href", href)
	}
	seed := c.R.Uint64()
	place := func(swapped bool) *N {
		g2 := newG(rand.New(rand.NewPCG(seed, 1)), cfg)
		return g2.place([]*N{mk(swapped)})
	}
	src, ref := place(false).HTML(), place(true).HTML()
	got, err := cfg.Convert(src)
	want, err2 := cfg.Convert(ref)
	if err != nil || err2 != nil {
		c.Fail(src, &cfg, "conversion failed: %v %v", err, err2)
		return
	}
	if got != want {
		c.Fail(src, &cfg, "the heading in the link gives\n    %s\n  but the link in the heading\n    %s", quote(got), quote(want))
	}
	c.Obs("headings", 1)
	c.Seen(src)
	c.Sample("%s", src)
}

// ---- C16 / C24: emphasis-like ----

// emph builds inline content that exercises emphasis delimiters.
func (g *G) emph(depth int, inLink bool, st map[string]bool) []*N {
	tight := g.tight()
	var out []*N
	n := 1 + g.r.IntN(4)
	w := func() string {
		if chance(g.r, g.hostile) {
			return g.token() + pick(g.r, hostileAtoms) + g.token()
		}
		return pick(g.r, []string{g.token(), g.token() + " " + g.token(), "Z", "9", "日本", "é", g.token() + ". " + g.token(), g.token() + "\n" + g.token(), g.token() + "'s"})
	}
	sep := true // the position is at white space or at the start
	for i := 0; i < n; i++ {
		if i > 0 {
			// decide how the next piece is set apart
			if !tight || chance(g.r, 0.6) {
				out = append(out, T(pick(g.r, []string{" ", " ", "\n", "  "})))
				sep = true
			} else {
				sep = false
			}
		}
		if depth <= 0 || chance(g.r, 0.35) {
			out = append(out, T(w()))
			continue
		}
		k := g.r.IntN(12)
		switch {
		case k < 6:
			tag := pick(g.r, []string{"em", "i", "strong", "b"})
			kind := "em"
			if tag == "strong" || tag == "b" {
				kind = "strong"
			}
			if !sep && !tightOK(out) {
				out = append(out, T(" "))
			}
			s2 := map[string]bool{}
			for a, b := range st {
				s2[a] = b
			}
			s2[kind] = true
			e := E(tag, g.emphInner(depth-1, inLink, s2)...)
			switch g.r.IntN(10) {
			case 0: // white space inside the edges
				e.Kids = append([]*N{T(pick(g.r, padSpaces))}, append(e.Kids, T(pick(g.r, padSpaces)))...)
			case 1: // redundant nesting
				e = E(tag, E(altTag(tag), e.Kids...))
			case 2:
				e = E("span", e)
			}
			out = append(out, e)
			if chance(g.r, 0.12) { // directly adjacent element of the same kind
				out = append(out, E(altTag(tag), T(g.token())))
			}
			if i < n-1 {
				out = append(out, T(g.tailSep(tight)))
			}
		case k < 8:
			if inLink || g.noLink {
				out = append(out, T(w()))
				continue
			}
			if !sep {
				out = append(out, T(" "))
			}
			out = append(out, E("a", g.emphInner(depth-1, true, st)...).A("href", "/"+g.token()), T(" "))
		case k == 8:
			if !sep {
				out = append(out, T(" "))
			}
			out = append(out, E("code", T(g.code())), T(" "))
		case k == 9 && len(out) > 0 && i < n-1 && !(st["em"] && st["strong"]): // KF-03
			out = append(out, E("br"))
			out = append(out, T(w()))
		case k == 10 && g.cfg.Strike:
			if !sep {
				out = append(out, T(" "))
			}
			s2 := map[string]bool{"del": true}
			for a, b := range st {
				s2[a] = b
			}
			e := E(pick(g.r, []string{"del", "s", "strike"}), g.emphInner(depth-1, inLink, s2)...)
			switch g.r.IntN(8) {
			case 0:
				e.Kids = append([]*N{T(pick(g.r, padSpaces))}, append(e.Kids, T(pick(g.r, padSpaces)))...)
			case 1:
				e = E("del", E("s", e.Kids...))
			}
			out = append(out, e, T(" "))
		default:
			out = append(out, E("span", T(w())))
		}
	}
	return out
}

func (g *G) tailSep(tight bool) string {
	if tight && chance(g.r, 0.4) {
		return g.token()
	}
	return pick(g.r, []string{" ", ", ", ". "})
}

// tightOK tells that an element may follow without white space: the preceding
// thing must be a text that ends in a letter or digit.
func tightOK(out []*N) bool {
	if len(out) == 0 {
		return true
	}
	l := out[len(out)-1]
	if l.Tag != "" || l.Text == "" {
		return false
	}
	c := l.Text[len(l.Text)-1]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// white space just inside an element
var padSpaces = []string{" ", " ", " \n", "\n ", "  ", "\t", "\u00a0", "\u3000", "\u2003 ", " \u202f", "\u2009", "\u1680", "\u205f\u2002"}

func altTag(t string) string {
	return map[string]string{"em": "i", "i": "em", "strong": "b", "b": "strong", "del": "s", "s": "strike", "strike": "del"}[t]
}

// emphInner guarantees that the edges are plain words.
func (g *G) emphInner(depth int, inLink bool, st map[string]bool) []*N {
	if depth <= 0 || chance(g.r, 0.5) {
		return []*N{T(pick(g.r, []string{g.token(), g.token() + " " + g.token()}))}
	}
	in := g.emph(depth, inLink, st)
	out := []*N{T(g.token() + " ")}
	out = append(out, in...)
	return append(out, T(" "+g.token()))
}

func c16(c *Case) {
	cfg := randCfg(c.R, 0.2)
	cfg.Em = pick(c.R, []string{"", "*", "_"})
	cfg.Strong = pick(c.R, []string{"", "**", "__"})
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0, 0.3})
	in := g.emph(1+c.R.IntN(4), false, map[string]bool{})
	reread(c, g.place(g.host(in, hasTag(in, "br"), hasTag(in, "br"))), cfg)
}

func c24(c *Case) {
	cfg := randCfg(c.R, 0.2)
	cfg.Strike = chance(c.R, 0.85)
	if cfg.Strike && chance(c.R, 0.4) {
		cfg.StrikeDelim = pick(c.R, []string{"~", "~~"})
	}
	g := newG(c.R, cfg)
	var in []*N
	n := 1 + c.R.IntN(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			in = append(in, T(" "))
		}
		switch c.R.IntN(5) {
		case 0:
			in = append(in, T(pick(c.R, []string{g.token(), "a~b", "~~a~~", "~a~", "~", "~~", "~~~", "a ~~ b", "~~a", "a~~ b"})))
			if strings.HasSuffix(in[len(in)-1].Text, "~") {
				in = append(in, T(" x"))
			}
		default:
			tag := pick(c.R, []string{"del", "s", "strike"})
			kids := g.emphInner(1+c.R.IntN(2), false, map[string]bool{"del": true})
			e := E(tag, kids...)
			switch c.R.IntN(8) {
			case 0:
				e.Kids = append([]*N{T(pick(c.R, padSpaces))}, append(e.Kids, T(pick(c.R, padSpaces)))...)
			case 1:
				e = E(tag, E(altTag(tag), e.Kids...))
			case 2:
				e = E(tag, T(g.token()), E("br"), T(g.token()))
			case 3:
				e = E(tag, T(g.token()+" "), E(pick(c.R, []string{"em", "strong", "code", "a"}), T(g.token())).A("href", "/"+g.token()), T(" "+g.token()))
			case 4:
				e = E(tag, T(g.token()+" "), E(altTag(tag), T(g.token())), T(" "+g.token()))
			case 5:
				e = E(pick(c.R, []string{"em", "strong"}), T(g.token()+" "), e, T(" "+g.token()))
			case 6:
				e = E(tag, T(g.token()+pick(c.R, []string{"~", " ~ ", "~~", "~ "})+g.token()))
			}
			in = append(in, e)
			if chance(c.R, 0.2) && e.Tag != "em" && e.Tag != "strong" {
				in = append(in, E(altTag(tag), T(g.token())))
			}
			if chance(c.R, 0.2) && (g.tight() || e.Tag != "em" && e.Tag != "strong") {
				in = append(in, T(g.token()))
			}
		}
	}
	reread(c, g.place(g.host(in, hasTag(in, "br"), hasTag(in, "br"))), cfg)
}

// ---- C17 ----

var urlPieces = []string{"a", "b c", "(", ")", "((", "))", "()", "<", ">", "[", "]", "\"", "'", "\\", "%20", "%2F", "%", "%zz", "é", "日本", "?", "?a=1", "&b=2", "#", "#f", "+", ";", ",", ":", "@", "!", "$", "*", "_", "~", "`", "|", "{", "}", "^", "=", "/", "//", ".", "..", "1", "\u00a0", "😀"}

var emptyAuthority = regexp.MustCompile(`^([a-z]+:)?//([?#]|$)`)

func (g *G) hostileURL() string {
	s := pick(g.r, []string{"", "/", "http://ex.org/", "https://ex.org", "mailto:", "tel:", "#", "?", "//ex.org/", "ftp://u:p@ex.org:21/", "data:text/plain,", "javascript:", "./", "../", "https://ex.org/a?x="})
	n := g.r.IntN(5)
	for i := 0; i < n; i++ {
		s += pick(g.r, urlPieces)
	}
	if emptyAuthority.MatchString(strings.TrimSpace(s)) {
		return g.href() // an empty authority is dropped; no such URL has a meaning
	}
	return s + g.token()
}

func (g *G) hostileTitle() string {
	s := ""
	n := 1 + g.r.IntN(4)
	for i := 0; i < n; i++ {
		s += pick(g.r, []string{g.token(), " ", "\"", "'", "(", ")", "\\", "\\\"", "[", "]", "<", ">", "*", "_", "`", "!", "\n", "#", "|", "~", "é", "- ", "\\\\", "”"})
	}
	if strings.TrimSpace(s) == "" || strings.Contains(s, "\n") && strings.TrimSpace(strings.ReplaceAll(s, "\n", "")) == "" {
		s = g.token()
	}
	return s
}

func (g *G) linkContent() []*N {
	switch g.r.IntN(9) {
	case 0:
		return []*N{T(g.token())}
	case 1:
		return []*N{E(pick(g.r, []string{"em", "strong", "b"}), T(g.token()))}
	case 2:
		return []*N{E("code", T(g.code()))}
	case 3:
		return []*N{E("img").A("src", "/"+g.token()).A("alt", g.token())}
	case 4:
		return []*N{T(" " + g.token() + "\n" + g.token() + " ")}
	case 5:
		return []*N{T(g.token()), E("br"), T(g.token())}
	case 6:
		return []*N{E("span", T(g.token()+" ")), E("em", T(g.token())), T(" "), E("strong", T(g.token()))}
	case 7:
		h := g.hostile
		g.hostile = 1
		t := g.text()
		g.hostile = h
		return []*N{T(t)}
	default:
		return g.inlines(ictx{link: true, head: true, cell: true})
	}
}

func c17(c *Case) {
	cfg := randCfg(c.R, 0.2)
	g := newG(c.R, cfg)
	g.noStrike = true
	var in []*N
	noHref := false
	n := 1 + c.R.IntN(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			sep := pick(c.R, []string{" ", " " + g.token() + " ", ", "})
			if hasCode(in) || noHref {
				sep = " " // code inside of emphasis gets space around it by design
			}
			in = append(in, T(sep))
		}
		if chance(c.R, 0.4) {
			src := g.href()
			if chance(c.R, 0.6) {
				src = g.hostileURL()
			}
			im := E("img").A("src", src)
			if chance(c.R, 0.8) {
				alt := g.token()
				if chance(c.R, 0.6) {
					alt = g.hostileTitle()
				}
				im.A("alt", alt)
			}
			if chance(c.R, 0.5) {
				im.A("title", g.hostileTitle())
			}
			in = append(in, im)
			continue
		}
		href := g.href()
		if chance(c.R, 0.6) {
			href = g.hostileURL()
		}
		kids := g.linkContent()
		if chance(c.R, 0.08) {
			href = pick(c.R, []string{"", " "})
			noHref = true
		}
		if chance(c.R, 0.08) {
			kids = pick(c.R, [][]*N{{}, {E("span")}})
		}
		a := E("a", kids...).A("href", href)
		if chance(c.R, 0.5) {
			a.A("title", g.hostileTitle())
		}
		if chance(c.R, 0.2) {
			a.A("class", "x")
		}
		in = append(in, a)
		if chance(c.R, 0.2) && !hasCode(in) && !noHref {
			in = append(in, T(g.token()))
		}
	}
	if chance(c.R, 0.3) {
		in = append([]*N{T(pick(c.R, []string{g.token() + " ", g.token() + "! ", "see: "}))}, in...)
	}
	reread(c, g.place(g.host(in, hasTag(in, "br"), hasTag(in, "br"))), cfg)
}

// a link around a heading or a heading around links
func c17heading(c *Case) {
	cfg := randCfg(c.R, 0.2)
	g := newG(c.R, cfg)
	href := "/" + g.token()
	h := fmt.Sprintf("h%d", 1+c.R.IntN(6))
	content := g.inlines(ictx{link: true, head: true, cell: true})
	var b *N
	switch c.R.IntN(3) {
	case 0:
		b = E(h, E("a", content...).A("href", href))
	case 1:
		b = E(h, T(g.token()+" "), E("a", content...).A("href", href), T(" "+g.token()))
	default:
		b = E(h, E("a", content...).A("href", href).A("title", g.title()), T(" "), E("a", T(g.token())).A("href", g.href()))
	}
	reread(c, g.place([]*N{b}), cfg)
}

// ---- C19 ----

var codePieces = []string{"\r", "\r\n", "`", "``", "```", "````", "a", "x y", " ", "  ", "\n", "\\", "\\`", "*", "_", "|", "<b>", "</code>", "&amp;", "&", "[a](b)", "~~", "#", "- ", "!", "$", "1.", "é", "😀", "\t", "\"", "'", ">", "https://ex.org", "\\|", "x\u00a0y", "x\u2003\u3000y"}

func (g *G) hostileCode() string {
	for {
		s := ""
		n := 1 + g.r.IntN(6)
		for i := 0; i < n; i++ {
			s += pick(g.r, codePieces)
		}
		if chance(g.r, 0.5) {
			s += g.token()
		}
		if strings.TrimSpace(s) != "" {
			return s
		}
	}
}

func c19(c *Case) {
	cfg := randCfg(c.R, 0.2)
	g := newG(c.R, cfg)
	tag := func() string { return pick(c.R, []string{"code", "code", "kbd", "samp", "var", "tt"}) }
	var in []*N
	n := 1 + c.R.IntN(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			in = append(in, T(pick(c.R, []string{" ", " " + g.token() + " "})))
		}
		s := g.hostileCode()
		bare := n == 1 && chance(c.R, 0.5)
		if !bare {
			// white space at the edges of code is trimmed by design (golden tests)
			s = strings.TrimSpace(s)
		}
		if !bare && chance(c.R, 0.06) {
			in = append(in, E(tag(), T(pick(c.R, []string{"\u00a0", "\u2003", "\u3000", "\u00a0\u00a0"}))))
			continue
		}
		e := E(tag(), T(s))
		kind := c.R.IntN(8)
		if bare {
			kind = 7
		}
		switch kind {
		case 0: // markup inside
			e = E(tag(), T(g.token()), E(pick(c.R, []string{"b", "span", "em", "a", "code"}), T(s)), T(g.token()))
		case 1: // wrapped
			e = E(pick(c.R, []string{"em", "strong", "span"}), T(g.token()+" "), e, T(" "+g.token()))
		case 2:
			e = E("a", e).A("href", "/"+g.token())
		}
		in = append(in, e)
		if chance(c.R, 0.15) && e.Tag != "a" && e.Tag != "em" && e.Tag != "strong" && e.Tag != "span" {
			in = append(in, E(tag(), T(strings.TrimLeft(g.hostileCode(), " \n\t")+"q")))
		}
		if chance(c.R, 0.1) {
			in = append(in, T(" "), E(tag()))
		}
	}
	reread(c, g.place(g.host(in, false, false)), cfg)
}

// ---- C20 ----

var preLines = []string{"a\rb", "a\r\n  b", "\r", "", "", " ", "  ", "    ", "\t", "a", "  a", "    a", "\ta", "a  ", "* a", "- a", "1. a", "# a", "> a", "---", "===", "```", "````", "~~~", "~~~~", "``` go", "`a`", "\\", "\\*", "*a*", "_a_", "<b>a</b>", "&amp;", "&", "[a](b)", "| a | b |", "|---|---|", "<!-- x -->", "a\\", "::", "~", "\\n", "é", "日本", "😀", "    ```", " ~~~", "<pre>", "</pre>", "`````", "~~~~~", "<!--THE END-->", "$x$", "\\\\", "%s"}

func (g *G) preBody() string {
	n := 1 + g.r.IntN(7)
	if chance(g.r, 0.03) {
		n = 40
	}
	var ls []string
	for i := 0; i < n; i++ {
		l := pick(g.r, preLines)
		if chance(g.r, 0.4) {
			l += g.token()
		}
		if d := loadDict(); chance(g.r, 0.1) && len(d.novel) > 0 {
			l += pick(g.r, d.novel)
		}
		if !okHostile(strings.NewReplacer("&", "", "\t", "", "\r", "", "\n", "").Replace(l)) {
			l = g.token()
		}
		ls = append(ls, l)
	}
	s := strings.Join(ls, "\n")
	if strings.TrimSpace(s) == "" {
		s += g.token()
	}
	return s
}

func (g *G) hostilePre() *N {
	s := g.preBody()
	var kids []*N
	switch g.r.IntN(6) {
	case 0: // syntax highlighting spans
		for len(s) > 0 {
			k := min(len(s), 1+g.r.IntN(6))
			for k < len(s) && s[k]&0xC0 == 0x80 {
				k++
			}
			if chance(g.r, 0.5) {
				kids = append(kids, E("span", T(s[:k])).A("class", "k"))
			} else {
				kids = append(kids, T(s[:k]))
			}
			s = s[k:]
		}
	case 1: // some of the lines end with a <br>
		for i, l := range strings.SplitAfter(s, "\n") {
			for i == 0 && chance(g.r, 0.2) || chance(g.r, 0.05) {
				kids = append(kids, E("br"))
			}
			if strings.HasSuffix(l, "\n") && chance(g.r, 0.4) {
				kids = append(kids, T(l[:len(l)-1]), E("br"))
			} else {
				kids = append(kids, T(l))
			}
		}
	default:
		kids = []*N{T(s)}
	}
	p := E("pre", kids...)
	if chance(g.r, 0.7) {
		c := E("code", kids...)
		if chance(g.r, 0.5) {
			c.A("class", pick(g.r, []string{"language-go", "lang-js", "hljs language-c++", "language-objective-c extra", "language-x_y", "nolang", "language-c#",
				"hljs\nlanguage-go", "\thljs\tlang-go\t", " \r\n language-go \r\n line-numbers", "language-a`b", "language-`", "language-a\\*b", "language-a\\", "language-*a*", "language-<a>", "language-a~b", "language-~~~", "language-[a](b)", "language-go{1,2-3}", "language-ö", "a b c d e language-go", "language-a=b", "language-\"a\""}))
		}
		p = E("pre", c)
		if chance(g.r, 0.1) {
			p.A("class", pick(g.r, []string{"language-py", "brush\nlanguage-py"}))
			c.Attr = nil
		}
	}
	return p
}

func c20(c *Case) {
	cfg := randCfg(c.R, 0.2)
	cfg.Fence = pick(c.R, []string{"", "```", "~~~"})
	g := newG(c.R, cfg)
	bs := []*N{g.hostilePre()}
	for chance(c.R, 0.3) {
		bs = append(bs, g.hostilePre())
	}
	reread(c, g.place(bs), cfg)
}

// ---- C21 ----

func (g *G) bigList(depth int) *N {
	tag := pick(g.r, []string{"ul", "ol"})
	l := E(tag)
	if tag == "ol" && chance(g.r, 0.5) {
		l.A("start", fmt.Sprint(pick(g.r, []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 89, 95, 98, 99, 100, 101, 990, 998, 999, 1000, 9998, 9999, 65535, 99998, 999990, 9999999, 99999999, 999999900, 999999999, 1000000000, -1, -5, 9223372036854775807})))
		l.Attr[0][1] = spellInt(g.r, l.Attr[0][1])
	}
	n := pick(g.r, []int{1, 2, 3, 3, 4, 5, 9, 10, 11, 12, 25})
	if depth > 1 {
		n = 1 + g.r.IntN(3)
	}
	if depth <= 1 && chance(g.r, 0.04) {
		n = pick(g.r, []int{99, 100, 101, 110})
	}
	special := g.r.IntN(n)
	for i := 0; i < n; i++ {
		li := E("li")
		if i != special && chance(g.r, 0.7) {
			li.Kids = []*N{T(g.text())}
		} else {
			switch k := g.r.IntN(11); {
			case k == 0:
				li.Kids = []*N{E("p", T(g.token())), E("p", T(g.token()))}
			case k == 1:
				li.Kids = []*N{T(g.token()), g.hostilePre()}
			case k == 2:
				li.Kids = []*N{E("blockquote", E("p", T(g.token()))), E("p", T(g.token()))}
			case k == 3:
				li.Kids = []*N{E("p", T(g.token()), E("br"), T(g.token()))}
			case k == 4:
				li.Kids = []*N{E("h3", T(g.token())), T(g.token())}
			case k == 5:
				// empty items disappear
				li.Kids = pick(g.r, [][]*N{{}, {T(" ")}, {E("p")}, {E("span", T(" \n"))}})
			case k < 10 && depth < 5:
				a := []*N{T(g.token())}
				if chance(g.r, 0.2) {
					a = nil
				} else if chance(g.r, 0.3) {
					a = []*N{E("p", T(g.token()))}
				}
				li.Kids = append(a, g.bigList(depth+1))
				if chance(g.r, 0.3) {
					li.Kids = append(li.Kids, E("p", T(g.token())))
				}
				if chance(g.r, 0.15) && !g.cfg.NoEnd {
					li.Kids = append(li.Kids, g.bigList(depth+1))
				}
			default:
				li.Kids = g.inlines(ictx{})
			}
		}
		l.Kids = append(l.Kids, li)
		if chance(g.r, 0.3) {
			l.Kids = append(l.Kids, T("\n  "))
		}
		if chance(g.r, 0.04) {
			// content directly inside the list
			switch g.r.IntN(4) {
			case 0:
				if !g.cfg.NoEnd {
					l.Kids = append(l.Kids, g.bigList(depth+2))
				}
			case 1:
				l.Kids = append(l.Kids, E("p", T(g.token())))
			case 2:
				l.Kids = append(l.Kids, T(" "+g.token()+" "))
			case 3:
				l.Kids = append(l.Kids, E("div", T(g.token())))
			}
		}
	}
	if chance(g.r, 0.04) {
		l.Kids = append([]*N{pick(g.r, []*N{T(g.token()), E("p", T(g.token())), E("div", T(g.token()))})}, l.Kids...)
	}
	return l
}

func c21(c *Case) {
	cfg := randCfg(c.R, 0.2)
	cfg.Bullet = pick(c.R, []string{"", "-", "+", "*"})
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0, 0, 0.2})
	bs := []*N{g.bigList(0)}
	if chance(c.R, 0.2) && !cfg.NoEnd {
		bs = append(bs, g.bigList(1))
	}
	if cfg.NoEnd {
		reread(c, Root(g.para(), bs[0], g.para()), cfg)
		return
	}
	reread(c, g.place(bs), cfg)
}

// ---- C22 ----

func (g *G) quote(depth int) *N {
	q := E("blockquote")
	n := 1 + g.r.IntN(4)
	for i := 0; i < n; i++ {
		var b *N
		switch k := g.r.IntN(14); {
		case k < 3:
			b = E("p", g.inlines(ictx{})...)
		case k == 3:
			b = E("div", T(g.token()))
		case k == 4:
			b = E(fmt.Sprintf("h%d", 1+g.r.IntN(6)), T(g.text()))
		case k == 5:
			b = E("hr")
		case k == 6 || k == 7:
			b = g.hostilePre()
		case k == 8:
			b = g.bigList(3)
		case k == 9 && g.cfg.Table:
			b = g.table()
		case k == 10:
			b = E("p", T(g.text()), E("br"), T(g.text()))
		case k < 14 && depth < 6:
			b = g.quote(depth + 1)
		default:
			b = T(g.token())
		}
		if k := len(q.Kids); k > 0 && (g.clash(q.Kids[k-1], b) || b.Tag == "" && q.Kids[k-1].Tag == "") {
			continue
		}
		q.Kids = append(q.Kids, b)
	}
	if chance(g.r, 0.1) {
		q.Kids = append(q.Kids, E("p"))
	}
	return q
}

func c22(c *Case) {
	cfg := randCfg(c.R, 0.2)
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0, 0.4})
	bs := []*N{g.quote(0)}
	if chance(c.R, 0.3) {
		if q := g.quote(1); !g.clash(bs[0], q) {
			bs = append(bs, q)
		}
	}
	if chance(c.R, 0.1) {
		bs = append(bs, E("blockquote", pick(c.R, []*N{T(" "), E("p"), E("div", E("blockquote"))})))
	}
	if chance(c.R, 0.3) {
		bs = append(bs, E("p", T(g.token())))
	}
	reread(c, g.place(bs), cfg)
}

func init() {
	np := len(blockKinds) * len(blockKinds)
	register(&Check{ID: "C14", Rule: "all ordered pairs of 32 kinds of siblings in 6 containers, with and without white space, under 3 configurations, plus random sequences and random trees of containers of 20 names with texts before, between and after the nested ones; oracle: the rendered Markdown reads back as the same blocks; non-trivial: every document; distinct by source",
		Probe: rereadProbe, Streams: []Stream{
			{Name: "pairs", N: np, Once: true, F: c14pairs},
			{Name: "seqs", N: 12000, NT: 400000, F: c14seqs},
			{Name: "boxes", N: 12000, NT: 400000, F: c14boxes},
			{Name: "docs", N: 4000, NT: 100000, F: docStream},
			large(2500, c14seqs, docStream, c14boxes),
		}})
	register(&Check{ID: "C15", Rule: "headings h1-h6 with hostile, multi-line and nested inline content in random container stacks under both styles, headings that are the only content of a link, and blocks inside headings; oracle: reads back as the same heading; distinct by source",
		Probe: rereadProbe, Streams: []Stream{
			{Name: "heads", N: 25000, NT: 600000, F: c15},
			large(2500, c15),
			{Name: "linked", N: 4000, NT: 80000, F: c15linked},
			{Name: "hosted", N: 3000, NT: 60000, F: hosted("h1", "h2", "h3", "h4", "h5", "h6")},
			{Name: "edges", N: len(headEdges) * 12, Once: true, F: func(c *Case) {
				e := headEdges[c.Idx/12]
				lvl := 1 + c.Idx%6
				cfg := Cfg{Heading: styles[c.Idx%12/6], Table: true, Strike: true}
				h := fmt.Sprintf("h%d", lvl)
				g := newG(c.R, cfg)
				for _, in := range [][]*N{{T(e)}, {T("qa " + e)}, {T(e + " qb")}, {T("qa" + e)}, {T("qa"), E("br"), T(e)}, {T(e), E("br"), T("qb")}, {E("em", T("qc")), T(" " + e)}, {E("span", T(e))}, {T("qa "), E("code", T(e))}} {
					for box := 0; box < nBoxes; box++ {
						reread(c, g.boxes([]*N{E(h, in...), E("p", T(g.token()))}, box), cfg)
					}
				}
			}},
		}})
	register(&Check{ID: "C16", Rule: "inline content with nested, adjacent, intraword, padded (also with Unicode spaces) and multi-line emphasis, blocks inside emphasis, links, code and strikethrough, in all hosts, under all delimiters; oracle: every word reads back with exactly its emphasis; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "emph", N: 40000, NT: 900000, F: c16}, large(2500, c16), {Name: "hosted", N: 4000, NT: 80000, F: hosted("em", "i", "strong", "b")}}})
	register(&Check{ID: "C17", Rule: "blocks inside links; links and images with hostile destinations, titles, alternative texts and contents in all hosts; oracle: same destination (up to percent-encoding), title and content read back; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "links", N: 35000, NT: 900000, F: c17}, {Name: "headings", N: 5000, NT: 60000, F: c17heading}, large(2500, c17, c17, c17heading), {Name: "hosted", N: 3000, NT: 60000, F: hosted("a")}}})
	register(&Check{ID: "C19", Rule: "code, kbd, samp, var and tt with hostile contents (backtick runs, backslashes, markup) in all hosts; oracle: reads back as one code span with the same characters up to white space; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "code", N: 35000, NT: 900000, F: c19}, large(2500, c19)}})
	register(&Check{ID: "C20", Rule: "pre elements with hostile lines in random container stacks, both fences; oracle: reads back as one code block with the same bytes and info string; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "pre", N: 35000, NT: 900000, F: c20}, large(2500, c20)}})
	register(&Check{ID: "C21", Rule: "lists of 1-110 items, starts up to 9 digits, five levels of nesting, block items, stray content, in random container stacks; oracle: reads back as the same list; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "lists", N: 25000, NT: 600000, F: c21}, large(2500, c21)}})
	register(&Check{ID: "C22", Rule: "quotes nested up to 6 deep holding all block kinds, in random container stacks; oracle: reads back as the same quotes; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "quotes", N: 25000, NT: 600000, F: c22}, large(2500, c22)}})
	register(&Check{ID: "C24", Rule: "struck-through text nested, adjacent, padded, multi-line and mixed with literal tildes, with and without the plugin; oracle: every word reads back struck through exactly when the source is; distinct by source",
		Probe: rereadProbe, Streams: []Stream{{Name: "strike", N: 35000, NT: 900000, F: c24}, large(2500, c24), {Name: "hosted", N: 3000, NT: 60000, F: hosted("del", "s", "strike")}}})
}

var plainBoxes = []string{"address", "article", "aside", "details", "div", "dl", "dd", "dt", "fieldset", "figcaption", "figure", "footer", "form", "header", "hgroup", "main", "nav", "section", "dialog", "dl", "dd", "dt", "dt", "div", "blockquote", "ul", "ol"}

// elements that only pass on what they hold
var seeThrough = []string{"summary", "label", "center", "font", "small", "mark", "u", "ins", "x-card", "abbr", "cite", "big", "bdi", "time", "data", "object", "canvas", "video", "menu", "q", "sub", "sup", "map", "optional"}

// c14boxes: trees of containers of every name, with texts, inline content and
// blocks before, between and after the nested ones.
func c14boxes(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.3)
	cfg.NoEnd = false
	if cfg.Em == "_" || cfg.Strong == "__" {
		cfg.Em, cfg.Strong = "", "" // a form in a form vanishes, its text touches the neighbours
	}
	g := newG(r, cfg)
	left := 4 + r.IntN(12)
	var fill func(depth int) []*N
	fill = func(depth int) []*N {
		var out []*N
		inline := false
		ws := pick(r, []string{"", "", "", " ", "\n"})
		for k := 1 + r.IntN(3); k > 0 || len(out) == 0; k-- {
			if ws != "" && len(out) > 0 {
				out = append(out, T(ws))
			}
			left--
			switch x := r.IntN(10); {
			case x == 0 && depth > 0 && depth < 6 && left > 0 && !strings.HasPrefix(c.Stream, "large"):
				// elements that are not blocks themselves but hold some
				if inline {
					out = append(out, T(" "))
				}
				out = append(out, E(pick(r, seeThrough), fill(depth+1)...))
				inline = true
			case x < 5 && depth < 6 && left > 0:
				tag := pick(r, plainBoxes)
				switch tag {
				case "ul", "ol":
					l := E(tag)
					for j := 1 + r.IntN(2); j > 0; j-- {
						l.Kids = append(l.Kids, E("li", fill(depth+1)...))
					}
					out = append(out, l)
				case "dd", "dt":
					if chance(r, 0.7) {
						l := E("dl")
						if chance(r, 0.3) {
							l.Kids = append(l.Kids, T(g.token()))
						}
						for j := 1 + r.IntN(2); j > 0; j-- {
							l.Kids = append(l.Kids, E(pick(r, []string{"dd", "dt"}), fill(depth+1)...))
						}
						out = append(out, l)
						break
					}
					fallthrough
				default:
					out = append(out, E(tag, fill(depth+1)...))
				}
				inline = false
			case x < 8:
				if inline && (ws == "" || chance(r, 0.5)) {
					out = append(out, T(" "))
				}
				out = append(out, g.blockOf(pick(r, []string{"text", "inline", "link"}))...)
				inline = true
			default:
				bs, ok := g.seq([]string{pick(r, blockKinds)}, "")
				if !ok {
					bs = []*N{E("p", T(g.token()))}
				}
				if inline {
					out = append(out, T(" "))
				}
				out = append(out, bs...)
				inline = true
			}
		}
		return out
	}
	reread(c, Root(fill(0)...), cfg)
}

func docStream(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	reread(c, g.doc(), cfg)
}

func c14seqs(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	var ks []string
	for i := 0; i < 3+c.R.IntN(4); i++ {
		ks = append(ks, pick(c.R, blockKinds))
	}
	bs, ok := g.seq(ks, pick(c.R, []string{"", "", " ", "\n\n"}))
	if !ok {
		return
	}
	if cfg.NoEnd && hasList(E("x", bs...)) {
		reread(c, Root(bs...), cfg)
		return
	}
	reread(c, g.place(bs), cfg)
}
