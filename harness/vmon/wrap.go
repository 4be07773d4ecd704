package main

import (
	"fmt"
)

// para is a short paragraph of plain words.
func (g *G) para() *N { return E("p", T(g.token()+" "+g.token())) }

// neighbour is a simple block to stand next to the block under test.
func (g *G) neighbour() *N {
	switch g.r.IntN(9) {
	case 0:
		return E("h"+fmt.Sprint(1+g.r.IntN(6)), T(g.token()))
	case 1:
		if !g.cfg.NoEnd {
			l := E(pick(g.r, []string{"ul", "ol"}), E("li", T(g.token())))
			if chance(g.r, 0.5) {
				l.Kids = append(l.Kids, E("li", T(g.token())))
			}
			return l
		}
	case 2:
		return E("blockquote", g.para())
	case 3:
		return E("pre", E("code", T(g.token()+"\n\n"+g.token())))
	case 4:
		return E("div", T(g.token()))
	case 5:
		if g.cfg.Table {
			return E("table", E("tr", E("th", T(g.token())), E("th", T(g.token()))), E("tr", E("td", T(g.token())), E("td", T(g.token()))))
		}
	case 6:
		return E("hr")
	}
	return g.para()
}

func (g *G) around(bs []*N) []*N {
	var out []*N
	if chance(g.r, 0.4) {
		if n := g.neighbour(); !g.clash(n, bs[0]) {
			out = append(out, n)
		}
	}
	out = append(out, bs...)
	if chance(g.r, 0.4) {
		if n := g.neighbour(); !g.clash(n, bs[len(bs)-1]) {
			out = append(out, n)
		}
	}
	return out
}

// clash tells that two neighbours cannot be told apart in Markdown.
func (g *G) clash(a, b *N) bool {
	return g.cfg.NoEnd && hasList(a) && hasList(b)
}

func hasList(n *N) bool {
	r := false
	n.walk(func(x *N) {
		if x.Tag == "ul" || x.Tag == "ol" {
			r = true
		}
	})
	return r
}

// container puts blocks into one container.
func (g *G) container(bs []*N) []*N {
	switch g.r.IntN(10) {
	case 0, 1, 2:
		return []*N{E("blockquote", bs...)}
	case 3, 4, 5, 6:
		tag := pick(g.r, []string{"ul", "ol"})
		l := E(tag)
		if tag == "ol" && chance(g.r, 0.5) {
			l.A("start", fmt.Sprint(pick(g.r, []int{0, 1, 2, 7, 8, 9, 10, 42, 98, 99, 100, 998, 1000, 123456, 99999998})))
		}
		pre := pick(g.r, []int{0, 0, 0, 1, 2, 9})
		for i := 0; i < pre; i++ {
			l.Kids = append(l.Kids, E("li", T(g.token())))
		}
		if chance(g.r, 0.4) {
			bs = append([]*N{T(g.token() + " ")}, bs...)
		}
		l.Kids = append(l.Kids, E("li", bs...))
		if chance(g.r, 0.4) {
			l.Kids = append(l.Kids, E("li", T(g.token())))
		}
		return []*N{l}
	case 7:
		return []*N{E(pick(g.r, []string{"div", "section", "article", "figure", "address", "main"}), bs...)}
	case 8:
		return []*N{E("dl", E("dt", T(g.token())), E("dd", bs...))}
	default:
		return []*N{E("div", E("div", bs...), g.para())}
	}
}

// place puts blocks into a random stack of containers with neighbours.
func (g *G) place(bs []*N) *N {
	depth := pick(g.r, []int{0, 0, 1, 1, 1, 2, 2, 3, 4, 6})
	for i := 0; i < depth; i++ {
		bs = g.container(g.around(bs))
	}
	return Root(g.around(bs)...)
}

// host is a block that holds inline content.
func (g *G) host(in []*N, noHead, noCell bool) []*N {
	for {
		switch g.r.IntN(12) {
		case 0, 1, 2, 3:
			return []*N{E("p", in...)}
		case 4:
			if noHead {
				continue
			}
			return []*N{E(fmt.Sprintf("h%d", 1+g.r.IntN(6)), in...)}
		case 5:
			return []*N{E("ul", E("li", in...))}
		case 6:
			return []*N{E("ol", E("li", T(g.token())), E("li", in...))}
		case 7:
			return []*N{E("blockquote", in...)}
		case 8:
			return []*N{E("div", in...)}
		case 9:
			if noCell || !g.cfg.Table {
				continue
			}
			t := E("table", E("tr", E("th", T(g.token())), E("th", T(g.token()))), E("tr", E("td", T(g.token())), E("td", in...)))
			if chance(g.r, 0.3) {
				t = E("table", E("tr", E("th", in...), E("th", T(g.token()))), E("tr", E("td", T(g.token())), E("td", T(g.token()))))
			}
			return []*N{t}
		case 10:
			return []*N{E("dl", E("dt", in...), E("dd", T(g.token())))}
		default:
			return []*N{E("figure", E("p", T(g.token())), E("figcaption", in...))}
		}
	}
}
