package main

// C34: selectors keep and drop exactly what they select. The selectors are
// generated together with a meaning of their own, evaluated here on the tree
// x/net/html parses; the command's output has to be the conversion of what is
// left of that tree.

import (
	"math/rand/v2"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/net/html"
)

type pred func(n *html.Node) bool

func isElem(n *html.Node) bool { return n != nil && n.Type == html.ElementNode }

func elemIndex(n *html.Node, same, back bool) int {
	i := 1
	step := func(m *html.Node) *html.Node {
		if back {
			return m.NextSibling
		}
		return m.PrevSibling
	}
	for m := step(n); m != nil; m = step(m) {
		if isElem(m) && (!same || m.Data == n.Data) {
			i++
		}
	}
	return i
}

func classes(n *html.Node) []string {
	v, _ := attr(n, "class")
	return strings.Fields(v)
}

var (
	selTags    = []string{"p", "div", "span", "b", "a", "section", "article", "ul", "li", "h2", "em", "blockquote", "td", "table", "tr", "x-w"}
	selClasses = []string{"ad", "main", "note", "a", "b", "content", "A"}
	selIDs     = []string{"top", "x1", "main"}
)

// simple draws a compound selector.
func (s *selGen) compound(depth int) (string, pred) {
	r := s.r
	text, tests := "", []pred{}
	if chance(r, 0.6) {
		t := pick(r, selTags)
		text, tests = t, append(tests, func(n *html.Node) bool { return n.Data == t })
		if chance(r, 0.05) {
			text = strings.ToUpper(t)
		}
	}
	for k := r.IntN(3); k > 0 || text == ""; k-- {
		switch r.IntN(12) {
		case 0, 1, 2:
			cl := pick(r, selClasses)
			text += "." + cl
			tests = append(tests, func(n *html.Node) bool { return contains29(classes(n), cl) })
		case 3:
			id := pick(r, selIDs)
			text += "#" + id
			tests = append(tests, func(n *html.Node) bool { v, _ := attr(n, "id"); return v == id })
		case 4:
			v := pick(r, []string{"1", "2", "ab", "ab cd"})
			switch r.IntN(4) {
			case 0:
				text += "[data-k]"
				tests = append(tests, func(n *html.Node) bool { _, ok := attr(n, "data-k"); return ok })
			case 1:
				text += `[data-k="` + v + `"]`
				tests = append(tests, func(n *html.Node) bool { w, ok := attr(n, "data-k"); return ok && w == v })
			case 2:
				text += `[data-k^="` + v[:1] + `"]`
				tests = append(tests, func(n *html.Node) bool { w, ok := attr(n, "data-k"); return ok && strings.HasPrefix(w, v[:1]) })
			case 3:
				text += `[data-k~='` + v[:1] + `b']`
				tests = append(tests, func(n *html.Node) bool {
					w, ok := attr(n, "data-k")
					return ok && contains29(strings.Fields(w), v[:1]+"b")
				})
			}
		case 5:
			text += ":first-child"
			tests = append(tests, func(n *html.Node) bool { return elemIndex(n, false, false) == 1 })
		case 6:
			text += ":last-child"
			tests = append(tests, func(n *html.Node) bool { return elemIndex(n, false, true) == 1 })
		case 7:
			k := 1 + r.IntN(4)
			text += ":nth-child(" + strconv.Itoa(k) + ")"
			tests = append(tests, func(n *html.Node) bool { return elemIndex(n, false, false) == k })
		case 8:
			odd := chance(r, 0.5)
			text += map[bool]string{true: ":nth-child(odd)", false: ":nth-child(2n)"}[odd]
			tests = append(tests, func(n *html.Node) bool { return (elemIndex(n, false, false)%2 == 1) == odd })
		case 9:
			text += ":nth-of-type(2)"
			tests = append(tests, func(n *html.Node) bool { return elemIndex(n, true, false) == 2 })
		case 10:
			text += ":only-child"
			tests = append(tests, func(n *html.Node) bool {
				return elemIndex(n, false, false) == 1 && elemIndex(n, false, true) == 1
			})
		case 11:
			if depth > 0 {
				continue
			}
			in, p := s.compound(depth + 1)
			text += ":not(" + in + ")"
			tests = append(tests, func(n *html.Node) bool { return !p(n) })
		}
	}
	return text, func(n *html.Node) bool {
		for _, t := range tests {
			if !t(n) {
				return false
			}
		}
		return true
	}
}

type selGen struct{ r *rand.Rand }

// complex draws compounds joined by combinators.
func (s *selGen) complex() (string, pred) {
	text, p := s.compound(0)
	if chance(s.r, 0.03) {
		text, p = "*", func(*html.Node) bool { return true }
	}
	for k := s.r.IntN(3); k > 0; k-- {
		t, q := s.compound(0)
		left := p
		// positional tests need a parent element; the root has none
		switch s.r.IntN(4) {
		case 0:
			text += pick(s.r, []string{" ", "  "}) + t
			p = func(n *html.Node) bool {
				if !q(n) {
					return false
				}
				for a := n.Parent; isElem(a); a = a.Parent {
					if left(a) {
						return true
					}
				}
				return false
			}
		case 1:
			text += pick(s.r, []string{" > ", ">"}) + t
			p = func(n *html.Node) bool { return q(n) && isElem(n.Parent) && left(n.Parent) }
		case 2:
			text += pick(s.r, []string{" + ", "+"}) + t
			p = func(n *html.Node) bool {
				if !q(n) {
					return false
				}
				m := n.PrevSibling
				for m != nil && !isElem(m) {
					m = m.PrevSibling
				}
				return m != nil && left(m)
			}
		case 3:
			text += pick(s.r, []string{" ~ ", "~"}) + t
			p = func(n *html.Node) bool {
				if !q(n) {
					return false
				}
				for m := n.PrevSibling; m != nil; m = m.PrevSibling {
					if isElem(m) && left(m) {
						return true
					}
				}
				return false
			}
		}
	}
	return text, p
}

// group draws a comma separated group.
func (s *selGen) group() (string, pred) {
	text, p := s.complex()
	for k := s.r.IntN(3); k > 0; k-- {
		t, q := s.complex()
		left := p
		text, p = text+pick(s.r, []string{",", ", "})+t, func(n *html.Node) bool { return left(n) || q(n) }
	}
	return text, p
}

// dress gives the elements of a tree classes, ids and other attributes.
func dress(r *rand.Rand, n *N) {
	if n.Tag != "" && n.Tag != "#root" {
		has := map[string]bool{}
		for _, a := range n.Attr {
			has[a[0]] = true
		}
		if chance(r, 0.35) && !has["class"] {
			var cl []string
			for k := 1 + r.IntN(3); k > 0; k-- {
				cl = append(cl, pick(r, selClasses))
			}
			n.A("class", strings.Join(cl, pick(r, []string{" ", "  ", "\t"})))
		}
		if chance(r, 0.1) && !has["id"] {
			n.A("id", pick(r, selIDs))
		}
		if chance(r, 0.1) {
			n.A("data-k", pick(r, []string{"1", "2", "ab", "ab cd", ""}))
		}
	}
	for _, k := range n.Kids {
		dress(r, k)
	}
}

// nested builds sections within sections, so that matches nest and touch.
func (g *G) nested(depth int) []*N {
	r := g.r
	var out []*N
	for k := 1 + r.IntN(4); k > 0; k-- {
		switch {
		case depth < 4 && chance(r, 0.55):
			out = append(out, E(pick(r, []string{"div", "div", "section", "article", "blockquote", "x-w"}), g.nested(depth+1)...))
		case chance(r, 0.2):
			var li []*N
			for m := 1 + r.IntN(3); m > 0; m-- {
				li = append(li, E("li", T(g.token())))
			}
			out = append(out, E("ul", li...))
		case chance(r, 0.15):
			row := func() *N { return E("tr", E("td", T(g.token())), E("td", E("b", T(g.token())))) }
			out = append(out, E("table", E("tbody", row(), row())))
		default:
			out = append(out, E(pick(r, []string{"p", "p", "h2"}), T(g.token()+" "), E(pick(r, []string{"b", "em", "span", "a"}), T(g.token())), T(" "+g.token()+" "), E(pick(r, []string{"b", "span"}), T(g.token()+" "), E("em", T(g.token())))))
		}
		if chance(r, 0.3) {
			out = append(out, T("\n"))
		}
		if chance(r, 0.05) {
			out = append(out, T(g.token()))
		}
	}
	return out
}

func c34(c *Case) {
	r := c.R
	var cfg Cfg
	var flags []string
	if chance(r, 0.3) {
		cfg, flags = cliCfg(r)
	} else if chance(r, 0.5) {
		cfg, flags = Cfg{Table: true}, []string{"--plugin-table"}
	}
	g := newG(r, cfg)
	var doc *N
	if chance(r, 0.25) {
		doc = g.doc()
	} else {
		doc = Root(g.nested(0)...)
	}
	c.grow(cfg, doc)
	dress(r, doc)
	src := doc.HTML()
	if chance(r, 0.2) {
		src = "<!DOCTYPE html><html><head><title>t</title></head><body class=\"main\">" + src + "</body></html>"
	}
	s := &selGen{r}
	var inc, exc pred
	var groups [][]string
	groups = append(groups, flags)
	var selText []string
	more := func(p pred, flag string) pred {
		text, q := s.group()
		groups = append(groups, opt(r, flag, text))
		selText = append(selText, flag+" "+text)
		if p == nil {
			return q
		}
		return func(n *html.Node) bool { return p(n) || q(n) }
	}
	mode := r.IntN(3)
	if mode != 1 {
		for k := pick(r, []int{1, 1, 2, 3}); k > 0; k-- {
			inc = more(inc, "include-selector")
		}
	}
	if mode != 0 {
		for k := pick(r, []int{1, 1, 2, 3}); k > 0; k-- {
			exc = more(exc, "exclude-selector")
		}
	}
	tree, err := html.Parse(strings.NewReader(src))
	if err != nil {
		c.Obs("unparsable", 1)
		return
	}
	root := &html.Node{Type: html.DocumentNode}
	nInc, nExc, nNested := 0, 0, 0
	// keep copies a subtree without what is excluded
	var keep func(n *html.Node) *html.Node
	keep = func(n *html.Node) *html.Node {
		if isElem(n) && exc != nil && exc(n) {
			nExc++
			return nil
		}
		m := &html.Node{Type: n.Type, Data: n.Data, DataAtom: n.DataAtom, Namespace: n.Namespace, Attr: append([]html.Attribute(nil), n.Attr...)}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if isElem(k) && inc != nil && inc(k) {
				nNested++
			}
			if kk := keep(k); kk != nil {
				m.AppendChild(kk)
			}
		}
		return m
	}
	var find func(n *html.Node)
	find = func(n *html.Node) {
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if isElem(k) && inc(k) {
				nInc++
				// an ancestor that is excluded does not matter: what was
				// included is its own piece
				if kk := keep(k); kk != nil {
					root.AppendChild(kk)
				}
				continue
			}
			find(k)
		}
	}
	if inc != nil {
		find(tree)
	} else {
		root = keep(tree)
	}
	dir, clean := c.scratch()
	defer clean()
	k := cliCmd{Dir: dir, Stdin: []byte(src)}
	if chance(r, 0.15) {
		mustWrite(filepath.Join(dir, "in.html"), []byte(src))
		groups = append(groups, opt(r, "input", "in.html"))
	}
	k.Args = joinFlags(r, groups...)
	want, err := cfg.New().ConvertNode(root, cfg.ConvOpts()...)
	if err != nil {
		c.Obs("conversion_errors", 1)
		return
	}
	o := k.run(c)
	if o.Code != 0 || string(o.Out) != string(want)+"\n" {
		c.Fail("", &cfg, "expected %s\n    got      %s\n    %s\n    included %d (and %d inside them), excluded %d\n    document: %s", trunc(quote(string(want)+"\n"), 900), o, shellWords(k.Args), nInc, nNested, nExc, trunc(src, 1500))
	}
	c.Obs("included", nInc)
	c.Obs("matches_inside_included", nNested)
	c.Obs("excluded", nExc)
	if nInc+nExc > 0 {
		c.Seen(strings.Join(selText, "|") + src)
	}
	c.Sample("%s (included %d, inside them %d, excluded %d) => %q", shellWords(k.Args), nInc, nNested, nExc, want)
}

func init() {
	register(&Check{
		ID:      "C34",
		Rule:    "the built command with generated selector groups over generated documents; the selectors evaluated independently on the parsed tree, what is left of it converted by the library and compared with standard output; distinct by selectors and document with at least one match",
		NeedCLI: true,
		Streams: []Stream{
			{Name: "selectors", N: 9000, F: c34},
			large(60, c34),
		},
	})
}
