package main

// C28: conversion is local. Pairs of conversions that differ in the
// surroundings of a block are compared byte for byte.

import (
	"fmt"
	"regexp"
	"strings"
)

var endComment = regexp.MustCompile(`(?m)\n[> ]*\n[> ]*<!--THE END-->$`)

// noEnd takes out the comments that separate lists: they depend on the neighbours by design.
func noEnd(md string) string { return endComment.ReplaceAllString(md, "") }

func (c *Case) conv(src string, cfg *Cfg) string {
	c.lastHTML, c.lastCfg = src, cfg
	md, err := cfg.Convert(src)
	if err != nil {
		c.Fail(src, cfg, "conversion failed: %v", err)
	}
	return md
}

func listEdge(n *N, last bool) bool {
	switch n.Tag {
	case "ul", "ol":
		return true
	case "div", "section", "article", "main", "aside", "figure", "header", "footer", "form", "fieldset", "details", "#root":
		if len(n.Kids) > 0 {
			if last {
				return listEdge(n.Kids[len(n.Kids)-1], true)
			}
			return listEdge(n.Kids[0], false)
		}
	}
	return false
}

// indent is what a quote or an item adds to every line.
func prefixLines(s, first, rest string) string {
	return first + strings.ReplaceAll(s, "\n", "\n"+rest)
}

func (g *G) someBlocks(n int) []*N {
	for {
		bs := g.blocks(bctx{}, n)
		if len(bs) == 0 {
			continue
		}
		ok := true
		for _, b := range bs {
			if blankN(b) {
				ok = false
			}
		}
		if ok {
			return bs
		}
	}
}

func blankN(n *N) bool {
	blank := true
	n.walk(func(x *N) {
		if x.Tag == "" && strings.TrimSpace(x.Text) != "" || x.Tag == "hr" || x.Tag == "img" {
			blank = false
		}
	})
	return blank
}

func c28concat(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0.3})
	k := 2 + c.R.IntN(3)
	var srcs, mds []string
	var all []*N
	for i := 0; i < k; i++ {
		b := g.someBlocks(1)[0]
		if len(all) > 0 && g.clash(all[len(all)-1], b) {
			continue
		}
		all = append(all, b)
		b = c.growBlock(cfg, b)
		h := b.HTML()
		srcs = append(srcs, h)
		// on a first line less needs to be escaped: put a paragraph before it
		md, ok := strings.CutPrefix(c.conv("<p>q</p>"+h, &cfg), "q\n\n")
		if !ok {
			c.Fail("<p>q</p>"+h, &cfg, "the first paragraph does not come out as it is")
		}
		mds = append(mds, md)
	}
	sep := pick(c.R, []string{"", "\n", " ", "\n\n  ", "<!-- x -->"})
	src := "<p>q</p>" + strings.Join(srcs, sep)
	got := c.conv(src, &cfg)
	mds[0] = "q\n\n" + mds[0]
	want := strings.Join(mds, "\n\n")
	if noEnd(got) != noEnd(want) {
		c.Fail(src, &cfg, "blocks convert differently next to each other\n    %s\n    alone: %s\n    together: %s", diffLines(noEnd(want), noEnd(got)), trunc(quote(want), 1000), trunc(quote(got), 1000))
	}
	if strings.TrimSpace(want) != "" && len(mds) > 1 {
		c.Seen(src)
	}
	c.Obs("blocks", len(mds))
	c.Sample("%s", src)
}

func c28quote(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0.3})
	var in []*N
	if chance(c.R, 0.3) {
		in = g.inlines(ictx{})
	}
	if len(in) == 0 || chance(c.R, 0.6) {
		in = append(in, g.someBlocks(1+c.R.IntN(3))...)
	}
	inRoot := Root(in...)
	c.grow(cfg, inRoot)
	inner := inRoot.HTML()
	want := c.conv(inner, &cfg)
	src := inner
	depth := c.many(1+c.R.IntN(3), 120)
	for i := 0; i < depth; i++ {
		src = "<blockquote>" + src + "</blockquote>"
		want = prefixLines(want, "> ", "> ")
	}
	got := c.conv(src, &cfg)
	if noEnd(got) != noEnd(want) {
		c.Fail(src, &cfg, "the quote is not its content with a prefix\n    %s\n    expected: %s\n    got: %s", diffLines(noEnd(want), noEnd(got)), trunc(quote(want), 1000), trunc(quote(got), 1000))
	}
	c.Seen(src)
	c.Obs("lines", strings.Count(got, "\n")+1)
	c.Sample("%s", src)
}

var itemMarker = regexp.MustCompile(`^([-+*]|[0-9]+\.) `)

func c28item(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0.3})
	n := c.many(1+c.R.IntN(4), 300)
	tag := pick(c.R, []string{"ul", "ol"})
	src := "<" + tag
	if tag == "ol" && chance(c.R, 0.6) {
		src += fmt.Sprintf(` start="%d"`, pick(c.R, []int{0, 1, 3, 8, 9, 98, 99, 998, 12345}))
	}
	src += ">"
	var items []string
	for i := 0; i < n; i++ {
		var in []*N
		if chance(c.R, 0.6) {
			in = g.inlines(ictx{})
		}
		if len(in) == 0 || chance(c.R, 0.4) {
			bs := g.someBlocks(1 + c.R.IntN(2))
			if len(in) == 0 && bs[0].Tag == "hr" {
				bs = append([]*N{g.para()}, bs...) // a rule at the start of an item takes another marker
			}
			if len(in) > 0 && bs[0].Tag != "ul" && bs[0].Tag != "ol" && chance(c.R, 0.5) {
				in = nil
			}
			in = append(in, bs...)
		}
		if first := firstLeaf(in); first == "hr" {
			in = append([]*N{g.para()}, in...)
		}
		h := Root(in...).HTML()
		alone := c.conv(h, &cfg)
		if first, _, _ := strings.Cut(alone, "\n"); strings.Trim(first, "-*_ ") == "" {
			h = "<p>q</p>" + h // with the marker this would be a rule
			alone = c.conv(h, &cfg)
		}
		items = append(items, alone)
		src += pick(c.R, []string{"", "", "\n", "  "}) + "<li>" + h + "</li>"
	}
	src += "</" + tag + ">"
	got := noEnd(c.conv(src, &cfg))
	// take the items off one by one, with the marker that the list has for them
	rest := got
	width := 0
	for i, it := range items {
		m := itemMarker.FindString(rest)
		if m == "" || i > 0 && len(m) != width {
			c.Fail(src, &cfg, "item %d: no marker (of width %d) at %s", i, width, trunc(quote(rest), 300))
		}
		width = len(m)
		want := prefixLines(noEnd(it), m, strings.Repeat(" ", width))
		if !strings.HasPrefix(rest, want) {
			c.Fail(src, &cfg, "item %d is not its content with marker and indentation\n    %s\n    expected: %s\n    got: %s", i, diffLines(want, rest), trunc(quote(want), 800), trunc(quote(rest), 800))
		}
		rest = rest[len(want):]
		if i < len(items)-1 {
			// one or two line breaks between items
			t := strings.TrimLeft(rest, "\n ")
			if gap := rest[:len(rest)-len(t)]; strings.Count(gap, "\n") < 1 || strings.Count(gap, "\n") > 2 {
				c.Fail(src, &cfg, "item %d is followed by %q", i, trunc(rest, 100))
			}
			rest = t
		}
	}
	if rest != "" {
		c.Fail(src, &cfg, "after the last item: %s", trunc(quote(rest), 300))
	}
	c.Seen(src)
	c.Obs("items", n)
	c.Sample("%s", src)
}

func firstLeaf(in []*N) string {
	for _, n := range in {
		if n.Tag == "" {
			if strings.TrimSpace(n.Text) == "" {
				continue
			}
			return ""
		}
		switch n.Tag {
		case "hr", "img", "br":
			return n.Tag
		}
		if blankN(n) {
			continue
		}
		return firstLeaf(n.Kids)
	}
	return ""
}

var neutralTags = []string{"div", "section", "article", "main", "aside", "header", "footer", "form", "fieldset", "figure", "nav", "body", "address"}

func c28wrap(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.hostile = pick(c.R, []float64{0, 0.3})
	root := Root(g.someBlocks(1 + c.R.IntN(4))...)
	c.grow(cfg, root)
	plain := root.HTML()
	want := c.conv(plain, &cfg)
	// wrap runs of sibling blocks at random places
	var wrap func(n *N) *N
	made := 0
	wrap = func(n *N) *N {
		m := &N{Tag: n.Tag, Text: n.Text, Attr: n.Attr}
		kids := make([]*N, 0, len(n.Kids))
		for _, k := range n.Kids {
			kids = append(kids, wrap(k))
		}
		switch n.Tag {
		case "#root", "blockquote", "div", "section", "article", "main", "aside", "li":
			for i := 0; i < len(kids); i++ {
				if !isBlockN(kids[i]) || !chance(c.R, 0.4) {
					m.Kids = append(m.Kids, kids[i])
					continue
				}
				j := i + 1
				for j < len(kids) && isBlockN(kids[j]) && chance(c.R, 0.5) {
					j++
				}
				w := E(pick(c.R, neutralTags[:11]), kids[i:j]...)
				if chance(c.R, 0.3) {
					w = E(pick(c.R, neutralTags[:5]), w)
				}
				made++
				m.Kids = append(m.Kids, w)
				i = j - 1
			}
		default:
			m.Kids = kids
		}
		return m
	}
	src := wrap(root).HTML()
	if made == 0 {
		src = "<div>" + plain + "</div>"
	}
	got := c.conv(src, &cfg)
	if got != want {
		c.Fail(src, &cfg, "neutral containers change the result\n    %s\n    without: %s", diffLines(want, got), trunc(quote(plain), 1000))
	}
	c.Seen(src)
	c.Obs("wrappers", made)
	c.Sample("%s", src)
}

func isBlockN(n *N) bool {
	switch n.Tag {
	case "p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "blockquote", "pre", "hr", "table", "div", "section", "article", "main", "aside":
		return true
	}
	return false
}

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "blocks converted alone and next to others, in quotes, in list items and in neutral containers; distinct by document. Comments that separate lists are left out of the comparison (C14 and C21 look at them)",
		Streams: []Stream{
			{Name: "concat", N: 12000, F: c28concat},
			{Name: "quote", N: 12000, F: c28quote},
			{Name: "item", N: 12000, F: c28item},
			{Name: "wrap", N: 12000, F: c28wrap},
			large(1600, c28concat, c28quote, c28item, c28wrap),
		},
	})
}

// growBlock makes one dimension of a block large in the scale workload.
func (c *Case) growBlock(cfg Cfg, b *N) *N {
	r := Root(b)
	c.grow(cfg, r)
	if len(r.Kids) == 1 {
		return r.Kids[0]
	}
	return E("div", r.Kids...)
}
