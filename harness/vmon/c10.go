package main

import (
	"strings"
)

// C10: literal text that looks like Markdown.

var litAlphabet = []string{"*", "_", "#", "-", "+", "1", ".", ")", "=", ">", "<", "[", "]", "(", "!", "`", "~", "\\", "|", ":", " ", "a", "\""}

// litWord decodes an index into a word over the alphabet, lengths 1..3.
func litWord(i int) string {
	k := len(litAlphabet)
	for l := 1; ; l++ {
		n := 1
		for j := 0; j < l; j++ {
			n *= k
		}
		if i < n {
			s := ""
			for j := 0; j < l; j++ {
				s += litAlphabet[i%k]
				i /= k
			}
			return s
		}
		i -= n
	}
}

var litCount3 = len(litAlphabet) + len(litAlphabet)*len(litAlphabet) + len(litAlphabet)*len(litAlphabet)*len(litAlphabet)
var litCount4 = litCount3 + len(litAlphabet)*len(litAlphabet)*len(litAlphabet)*len(litAlphabet)

func wordEdge(s string) bool {
	c := s[len(s)-1]
	d := s[0]
	f := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	return f(c) && f(d)
}

// litFrames put a text into every inline position.
func litFrames(t string) []*N {
	return []*N{
		Root(E("p", T(t))),
		Root(E("p", T(t+" qb1"))),
		Root(E("p", T(t+"qb2"))),
		Root(E("p", T("qa"+t))),
		Root(E("p", T("qa "+t+" qb"))),
		Root(E("p", T("qa"+t+"qb "+t))),
		Root(E("p", T("qa\n"+t), E("br"), T(t+" qc"))),
		Root(E("ul", E("li", T(t)), E("li", T("qa "+t)))),
		Root(E("ol", E("li", T(t+"qb"), E("ul", E("li", T(t)))))),
		Root(E("blockquote", E("p", T(t)), E("p", T(t+" qb")))),
		Root(E("h2", T(t)), E("h1", T("qa "+t)), E("h3", T(t+" qb"))),
		Root(E("p", T("qa "), E("em", T("qb"+t+"qb")), T(" "+t+" "), E("strong", T("qc"+t+"qc")), T(" qd"))),
		Root(E("p", T("qa "), E("a", T(t+"q")).A("href", "/u"), T(" "+t+" "), E("a", T("q"+t)).A("href", "/v"))),
		Root(E("p", E("span", T(t)), E("span", T("qa"+t)), E("span", T(t)))),
		Root(E("p", T("qa "), E("code", T("x")), T(t), E("code", T("y")), T(t+" qb"))),
		Root(E("p", E("img").A("src", "/i").A("alt", "q"+t), T(t))),
		Root(E("div", T(t), E("p", T(t)), T(t))),
		Root(E("table", E("tr", E("th", T(t+"q")), E("th", T("q"+t))), E("tr", E("td", T(t)), E("td", T("q"+t+"q"))))),
		Root(E("p", T("qa "), E("del", T("qb"+t+"qb")), T(" "+t))),
	}
}

func c10probe(src string, cfg Cfg) string {
	return rereadProbe(src, cfg)
}

// litSkip: combinations outside the statement or listed as known findings.
func litOK(n *N) bool { return true }

func c10lit(n4 bool) func(c *Case) {
	return func(c *Case) {
		i := c.Idx
		if n4 {
			i = litCount3 + c.R.IntN(litCount4-litCount3)
		}
		t := litWord(i)
		cfgs := []Cfg{{Table: true, Strike: true}}
		if n4 {
			k := randCfg(c.R, 0.4)
			k.Table, k.Strike = true, chance(c.R, 0.7)
			cfgs = []Cfg{k}
		}
		for fi, f := range litFrames(t) {
			if n4 && !chance(c.R, 0.4) {
				continue
			}
			for _, cfg := range cfgs {
				src := f.HTML()
				c.Obs("literal_placements", 1)
				if msg := rereadKnown(c, src, cfg); msg != "" {
					c.Fail(src, &cfg, "frame %d text %q: %s", fi, t, msg)
				}
			}
		}
		if strings.Trim(t, " a1") != "" {
			c.Seen(t)
			c.Sample("%q in %d positions", t, len(litFrames(t)))
		}
	}
}

// rereadKnown is rereadProbe without what is the recorded finding KF-01: the
// difference disappears when the document has no opening brackets.
func rereadKnown(c *Case, src string, cfg Cfg) string {
	msg := rereadProbe(src, cfg)
	if msg != "" && c10known(src) && rereadProbe(strings.ReplaceAll(src, "[", "q"), cfg) == "" {
		c.Obs("attributed_to_KF-01", 1)
		return ""
	}
	return msg
}

// c10known: a bracket before a line break whose partner comes after it.
func c10known(src string) bool {
	for _, p := range strings.Split(src, "</p>") {
		for rest := p; ; {
			i := strings.Index(rest, "<br>")
			if i < 0 {
				break
			}
			if strings.Contains(rest[:i], "[") && strings.Contains(rest[i:], "]") {
				return true
			}
			rest = rest[i+4:]
			if strings.Contains(p[:len(p)-len(rest)], "[") && strings.Contains(rest, "]") {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		ID:     "C10",
		Rule:   "all strings of length 1-3 over 23 Markdown-significant characters (and sampled longer ones, mined literals, numbers of up to twelve digits at the starts of lines, and documents with hostile text everywhere) in 19 inline positions; oracle: a CommonMark+GFM reader sees the same literal characters and no additional structure; non-trivial: text contains a significant character; distinct by text / document",
		Assume: []string{"text containing '&' is not generated; a difference is attributed to KF-01 when a '[' stands before a line break, its ']' behind it, and the difference disappears without the '['"},
		Streams: []Stream{
			{Name: "short", N: litCount3, NT: litCount3, Once: true, F: c10lit(false)},
			{Name: "four", N: 2500, NT: 120000, F: c10lit(true)},
			{Name: "atoms", N: 12000, NT: 300000, F: func(c *Case) {
				cfg := randCfg(c.R, 0.3)
				g := newG(c.R, cfg)
				g.hostile = 1
				t := g.text()
				fs := litFrames(t)
				for k := 0; k < 3; k++ {
					src := fs[c.R.IntN(len(fs))].HTML()
					if !cfg.Table && strings.Contains(src, "<td>") {
						continue
					}
					c.Obs("literal_placements", 1)
					if msg := rereadKnown(c, src, cfg); msg != "" {
						c.Fail(src, &cfg, "text %q: %s", t, msg)
					}
				}
				c.Seen(t)
			}},
			{Name: "lines", N: 8000, NT: 200000, F: c10lines},
			{Name: "numbers", N: 2500, NT: 30000, F: c10numbers},
			{Name: "docs", N: 8000, NT: 200000, F: c10docs},
			large(2500, c10lines, c10docs, c10atoms),
		},
		Probe: c10probe,
	})
}

func c10lines(c *Case) {
	// several hostile lines in one block
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = 1
	var in []*N
	n := 2 + c.R.IntN(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			if chance(c.R, 0.6) {
				in = append(in, E("br"))
			} else {
				in = append(in, T("\n"))
			}
		}
		in = append(in, T(g.text()))
	}
	root := g.place(g.host(in, true, true))
	c.grow(cfg, root)
	src := root.HTML()
	c.Obs("literal_placements", 1)
	if msg := rereadKnown(c, src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Seen(src)
	c.Sample("%s", src)
}

func c10docs(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = 0.6
	src := c.doc(g).HTML()
	c.Obs("documents", 1)
	if msg := rereadKnown(c, src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Seen(src)
}

// c10atoms: hostile texts far apart in one block.
func c10atoms(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = 1
	t := g.text() + " " + g.words(scale(c.R, 20, 60000)) + " " + g.text()
	src := Root(g.host([]*N{T(t)}, false, true)...).HTML()
	c.Obs("literal_placements", 1)
	if msg := rereadKnown(c, src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Seen(src)
}

// c10numbers: numbers of every length as at the start of an item, but at the
// starts of lines and blocks of texts.
func c10numbers(c *Case) {
	cfg := randCfg(c.R, 0.2)
	g := newG(c.R, cfg)
	num := func() string {
		n := pick(c.R, []string{"", "", "0"})
		for k := 1 + c.R.IntN(pick(c.R, []int{2, 3, 9, 11})); k > 0; k-- {
			n += string(rune('0' + c.R.IntN(10)))
		}
		return n + pick(c.R, []string{".", ")"}) + pick(c.R, []string{" " + g.token(), "", "\t" + g.token(), g.token(), " " + g.token() + " 3. x"})
	}
	var bs []*N
	for k := 1 + c.R.IntN(4); k > 0; k-- {
		var in []*N
		for l := 1 + c.R.IntN(3); l > 0; l-- {
			if len(in) > 0 {
				in = append(in, E("br"))
			}
			if chance(c.R, 0.4) {
				in = append(in, T(g.words(1+c.R.IntN(12))), E("br"))
			}
			in = append(in, pick(c.R, []*N{T(num()), T(num()), T(num()), E("em", T(num())), E("span", T(num())), E("b", T(g.token())), T(num())}))
		}
		bs = append(bs, g.host(in, false, true)...)
		if chance(c.R, 0.4) {
			bs = append(bs, E("p", T(g.words(1+c.R.IntN(12)))))
		}
	}
	for i := 1; i < len(bs); i++ {
		if g.clash(bs[i-1], bs[i]) {
			return
		}
	}
	src := g.place(bs).HTML()
	c.Obs("literal_placements", 1)
	if msg := rereadKnown(c, src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Seen(src)
	c.Sample("%s", src)
}
