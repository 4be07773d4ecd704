package main

// Blocks where Markdown can hold none: lists, quotes, code blocks, rules,
// headings and paragraphs inside emphasis, links, struck-through text and
// headings. There is no one right spelling for these, so the monitor does not
// compare the blocks; it demands of the trusted reader's view that
//   - every word is there, once, in order, and words of different blocks do
//     not run together;
//   - nothing else is visible but the quotation marks that stand for a quote;
//   - every word carries the element that was around the block (and a heading
//     within it is strong, a code block is code);
//   - the words do not end up in a list, a quote, a code block or a heading
//     that the container does not have.

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"
)

func (g *G) hostedBlock(depth int, link bool) []*N {
	t := func() *N { return T(g.token()) }
	body := func() []*N {
		if depth <= 0 || chance(g.r, 0.5) {
			return []*N{t()}
		}
		return g.hostedMix(depth-1, link)
	}
	switch g.r.IntN(14) {
	case 12, 13: // another element around the blocks within
		if depth > 0 {
			if !link && chance(g.r, 0.5) {
				in := append([]*N{T(g.token())}, g.hostedMix(depth-1, true)...)
				return []*N{T(" "), E("a", in...).A("href", "/"+g.token()), T(" ")}
			}
			in := append([]*N{T(g.token())}, g.hostedMix(depth-1, link)...)
			return []*N{T(" "), E(pick(g.r, []string{"em", "strong", "b", "i"}), append(in, T(" "+g.token()))...), T(" ")}
		}
		fallthrough
	case 9:
		return []*N{E("dl", E("dt", t()), E("dd", body()...))}
	case 10:
		return []*N{E(pick(g.r, []string{"section", "article", "figure", "details", "aside", "header"}), body()...)}
	case 11:
		in := []*N{t(), T(" "), E(pick(g.r, []string{"em", "strong", "b", "i", "code", "span", "u"}), t()), T(" "), t()}
		if chance(g.r, 0.3) {
			in = append(in, E("br"), t())
		}
		if !link && chance(g.r, 0.3) {
			in = append(in, T(" "), E("a", t()).A("href", "/"+g.token()), T(" "), t())
		}
		return []*N{E("p", in...)}
	case 0, 1:
		l := E(pick(g.r, []string{"ul", "ol"}))
		for i := 1 + g.r.IntN(3); i > 0; i-- {
			l.Kids = append(l.Kids, E("li", body()...))
			if chance(g.r, 0.3) {
				l.Kids = append(l.Kids, T("\n "))
			}
		}
		return []*N{l}
	case 2:
		return []*N{E("blockquote", body()...)}
	case 3:
		ls := []string{g.token()}
		for chance(g.r, 0.5) {
			ls = append(ls, g.token())
		}
		if chance(g.r, 0.5) {
			return []*N{E("pre", E("code", T(strings.Join(ls, "\n"))))}
		}
		return []*N{E("pre", T(strings.Join(ls, "\n")))}
	case 4:
		return []*N{E("hr")}
	case 5:
		in := []*N{t()}
		if chance(g.r, 0.3) {
			in = append(in, T(" "), E(pick(g.r, []string{"em", "strong", "b", "i", "code"}), t()))
		}
		if chance(g.r, 0.3) {
			in = append(in, T(" "), t())
		}
		if chance(g.r, 0.2) {
			in = []*N{E(pick(g.r, []string{"b", "strong", "em", "span"}), in...)}
		}
		return []*N{E(fmt.Sprintf("h%d", 1+g.r.IntN(6)), in...)}
	case 6:
		return []*N{E("div", body()...)}
	default:
		return []*N{E("p", t())}
	}
}

// hostedMix is text and blocks in any order; two texts are never next to each other.
func (g *G) hostedMix(depth int, link bool) []*N {
	var out []*N
	text := chance(g.r, 0.5)
	for n := 1 + g.r.IntN(4); n > 0 || len(out) == 0; n-- {
		if text {
			out = append(out, T(pick(g.r, []string{"", "", " ", "\n"})+g.token()+pick(g.r, []string{"", "", " ", "\n "})))
		} else {
			out = append(out, g.hostedBlock(depth, link)...)
			if chance(g.r, 0.15) {
				out = append(out, g.hostedBlock(depth, link)...)
			}
		}
		text = !text
	}
	return out
}

type hostedWord struct{ word, chain string }

// hostedWords lists the words of a document, each with the containers, styles
// and heading it is in. For the source, blocks inside of a host do not count.
func hostedWords(root *html.Node, source bool) (ws []hostedWord) {
	sep := true
	var f func(n *html.Node, boxes, styles []string, hosted, pre bool)
	add := func(in []string, s string) []string {
		for _, x := range in {
			if x == s {
				return in
			}
		}
		return append(append([]string{}, in...), s)
	}
	f = func(n *html.Node, boxes, styles []string, hosted, pre bool) {
		block := false
		if n.Type == html.TextNode {
			cur := ""
			flush := func() {
				if cur == "" {
					return
				}
				if k := len(ws); !sep && k > 0 {
					ws[k-1].word += cur
				} else {
					set := map[string]bool{}
					for _, s := range styles {
						set[s] = true
					}
					var c []string
					for _, s := range []string{"a", "em", "strong", "del", "code"} {
						if set[s] {
							c = append(c, s)
						}
					}
					ws = append(ws, hostedWord{cur, strings.Join(boxes, ">") + "|" + strings.Join(c, "+")})
				}
				cur, sep = "", false
			}
			for _, r := range n.Data {
				if r == ' ' || r == '\n' || r == '\t' || r == '"' && !source {
					flush()
					sep = true
				} else {
					cur += string(r)
				}
			}
			flush()
			return
		}
		switch n.Data {
		case "ul", "ol", "li", "blockquote", "table":
			block = true
			if !hosted {
				boxes = append(append([]string{}, boxes...), n.Data)
			}
		case "h1", "h2", "h3", "h4", "h5", "h6":
			block = true
			if hosted {
				styles = add(styles, "strong")
			} else {
				boxes = append(append([]string{}, boxes...), n.Data)
				hosted = source
			}
		case "p", "div", "dt", "dd", "section", "article", "figure", "details", "aside", "header":
			block = true
		case "hr":
			block = true
			if !source || !hosted {
				ws = append(ws, hostedWord{"<hr>", ""})
			}
		case "pre":
			block = true
			if source && hosted {
				styles = add(styles, "code")
			} else {
				boxes, pre = append(append([]string{}, boxes...), "pre"), true
			}
		case "br":
			block = true
		case "em", "i":
			styles, hosted = add(styles, "em"), source
		case "strong", "b":
			styles, hosted = add(styles, "strong"), source
		case "del", "s", "strike":
			styles, hosted = add(styles, "del"), source
		case "a":
			styles, hosted = add(styles, "a"), source
		case "code":
			if !pre {
				styles = add(styles, "code")
			}
			block = true // a change of style sets apart as well
		}
		if block {
			sep = true
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c, boxes, styles, hosted, pre)
		}
		if block {
			sep = true
		}
	}
	f(root, nil, nil, false, false)
	return ws
}

func hostedProbe(src string, cfg Cfg) string {
	md, err := cfg.Convert(src)
	if err != nil {
		return "conversion failed: " + err.Error()
	}
	want := hostedWords(parseHTML(src), true)
	got := hostedWords(parseHTML(mdToHTML(cfg, md)), false)
	show := func(w []hostedWord, i int) string {
		if i < len(w) {
			return w[i].word + " in " + w[i].chain
		}
		return "the end"
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			return fmt.Sprintf("word %d is %s, but reads as %s\n    markdown: %s\n    html: %s\n    options: %s", i, show(want, i), show(got, i), trunc(quote(md), 900), trunc(quote(src), 900), cfg)
		}
	}
	return ""
}

// hostIn are the elements that the host of the blocks can be in itself.
var hostIn = map[string][]string{
	"em": {"strong", "b", "em", "del", "a"}, "i": {"b", "s"}, "strong": {"em", "i", "b", "del"}, "b": {"i", "em"},
	"del": {"em", "b", "s"}, "s": {"strong", "i"},
}

// hosted is a workload of blocks inside the given elements.
func hosted(hosts ...string) func(*Case) {
	return func(c *Case) {
		cfg := randCfg(c.R, 0.15)
		cfg.Strike = cfg.Strike || hosts[0] == "del"
		g := newG(c.R, cfg)
		h := pick(c.R, hosts)
		kids := g.hostedMix(c.R.IntN(3), h == "a")
		host := E(h, kids...)
		if in := hostIn[h]; in != nil && chance(c.R, 0.2) {
			host = E(pick(c.R, in), host)
			if host.Tag == "a" {
				host.A("href", "/"+g.token())
			}
			cfg.Strike = true
		}
		if h == "a" {
			// a link around one heading is turned around, which is another matter
			host = E(h, append([]*N{T(g.token() + pick(c.R, []string{"", " "}))}, kids...)...).A("href", "/"+g.token())
		}
		root := g.boxes([]*N{host}, c.R.IntN(nBoxes))
		src := root.HTML()
		if msg := hostedProbe(src, cfg); msg != "" {
			c.Fail(src, nil, "%s", msg)
		}
		c.Obs("documents_with_hosted_blocks", 1)
		c.Seen(src)
		c.Sample("%s", src)
	}
}
