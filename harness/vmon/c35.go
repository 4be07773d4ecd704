package main

// C35: converting a part of a parsed tree converts that part and nothing else.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

func cloneTree(n *html.Node) *html.Node {
	c := &html.Node{Type: n.Type, DataAtom: n.DataAtom, Data: n.Data, Namespace: n.Namespace, Attr: append([]html.Attribute(nil), n.Attr...)}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		c.AppendChild(cloneTree(k))
	}
	return c
}

// describe writes the tree below n; the part and what is in it is only a mark.
func describe(n, part *html.Node) string {
	var b strings.Builder
	var f func(n *html.Node)
	f = func(n *html.Node) {
		if n == part {
			b.WriteString("(THE PART)")
			return
		}
		fmt.Fprintf(&b, "(%d %q", n.Type, n.Data)
		for _, a := range n.Attr {
			fmt.Fprintf(&b, " %q=%q", a.Key, a.Val)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
		b.WriteString(")")
	}
	f(n)
	return b.String()
}

// nodesOf lists the nodes of the tree in document order.
func nodesOf(doc *html.Node) []*html.Node {
	var out []*html.Node
	var f func(n *html.Node)
	f = func(n *html.Node) {
		if n.Type != html.DocumentNode {
			out = append(out, n)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
	}
	f(doc)
	return out
}

// asDocument gives the source of a document whose body is a copy of the part,
// if there is one.
func asDocument(part *html.Node) (string, bool) {
	var b bytes.Buffer
	if part.Type != html.ElementNode || html.Render(&b, part) != nil {
		return "", false
	}
	doc := parseHTML(b.String())
	if doc == nil {
		return "", false
	}
	for _, n := range nodesOf(doc) {
		if n.Data == "body" && n.Type == html.ElementNode {
			if n.FirstChild == nil || n.FirstChild.NextSibling != nil {
				return "", false
			}
			return b.String(), describe(n.FirstChild, nil) == describe(part, nil)
		}
	}
	return "", false
}

func convertTree(conv *converter.Converter, cfg Cfg, n *html.Node) string {
	out, err := conv.ConvertNode(n, cfg.ConvOpts()...)
	return fmt.Sprintf("%q, error %v", out, err)
}

func c35doc(c *Case) (string, Cfg) {
	cfg := anyCfg(c.R)
	var src string
	for src == "" || len(src) > c.many(5000, 200000) {
		if chance(c.R, 0.6) {
			g := newG(c.R, cfg)
			g.hostile = 0.2
			if chance(c.R, 0.4) { // elements next to each other that could be joined
				var kids []*N
				for k := 2 + c.R.IntN(5); k > 0; k-- {
					tag := pick(c.R, []string{"b", "strong", "i", "em", "code", "del", "s", "ul", "ol", "span", "a", "kbd"})
					e := E(tag, T(pick(c.R, []string{"", " "})+g.token()+pick(c.R, []string{"", " "})))
					if tag == "ul" || tag == "ol" {
						e = E(tag, E("li", T(g.token())))
					}
					if chance(c.R, 0.3) {
						e = E(pick(c.R, []string{"b", "i", "span", "del", "code", "div", "h2"}), e)
					}
					kids = append(kids, e)
					if chance(c.R, 0.3) {
						kids = append(kids, T(pick(c.R, []string{" ", g.token(), "\n"})))
					}
				}
				src = Root(E(pick(c.R, []string{"div", "p", "li", "b", "td", "a", "span", "blockquote"}), kids...)).HTML()
			} else {
				src = c.doc(g).HTML()
			}
		} else {
			src = plainDoc(c.R, cfg)
		}
	}
	if chance(c.R, 0.2) {
		src = salt(c.R, src)
	}
	return src, cfg
}

func c35parts(c *Case) {
	src, cfg := c35doc(c)
	c.lastHTML, c.lastCfg = src, &cfg
	all := nodesOf(parseHTML(src))
	for k := 0; k < 4; k++ {
		i := c.R.IntN(len(all))
		if msg := c35part(c, src, cfg, i); msg != "" {
			c.Fail(src, &cfg, "%s", msg)
		}
	}
}

func c35part(c *Case, src string, cfg Cfg, i int) string {
	fresh := func() (*html.Node, *html.Node) {
		doc := parseHTML(src)
		return doc, nodesOf(doc)[i]
	}
	doc, part := fresh()
	copied := cloneTree(part)
	source := describe(part, nil)
	asDoc, haveDoc := asDocument(part)
	want := convertTree(cfg.New(), cfg, copied)
	before := describe(doc, part)
	parent, prev, next := part.Parent, part.PrevSibling, part.NextSibling
	got := convertTree(cfg.New(), cfg, part)
	if got != want {
		return fmt.Sprintf("the part %s in its document gives\n    %s\n    but a copy of it gives\n    %s", trunc(source, 400), got, want)
	}
	if part.Parent != parent || part.PrevSibling != prev || part.NextSibling != next {
		return fmt.Sprintf("the part %s has other neighbours after its conversion", trunc(source, 400))
	}
	if after := describe(doc, part); after != before {
		return fmt.Sprintf("the conversion of the part %s changed the tree around it:\n    before %s\n    after  %s", trunc(source, 400), before, after)
	}
	_, part = fresh()
	if part.Parent != nil {
		part.Parent.RemoveChild(part)
	}
	if got := convertTree(cfg.New(), cfg, part); got != want {
		return fmt.Sprintf("the part %s taken out of its document gives\n    %s\n    but a copy of it gives\n    %s", trunc(source, 400), got, want)
	}
	c.Obs("parts", 1)
	if haveDoc {
		out, err := cfg.New().ConvertString(asDoc, cfg.ConvOpts()...)
		if got := fmt.Sprintf("%q, error %v", out, err); got != want {
			return fmt.Sprintf("the document %q gives\n    %s\n    but its only element converted as tree gives\n    %s", asDoc, got, want)
		}
		c.Obs("parts_as_documents", 1)
	}
	if want != `"", error <nil>` {
		c.Seen(source + cfg.String())
		c.Sample("%s => %s", source, want)
	}
	return ""
}

// c35sequence converts the children of an element one after the other in place.
func c35sequence(c *Case) {
	src, cfg := c35doc(c)
	c.lastHTML, c.lastCfg = src, &cfg
	doc := parseHTML(src)
	all := nodesOf(doc)
	var parents []*html.Node
	for _, n := range all {
		if n.FirstChild != nil && n.FirstChild.NextSibling != nil {
			parents = append(parents, n)
		}
	}
	if len(parents) == 0 {
		return
	}
	p := pick(c.R, parents)
	var kids []*html.Node
	var want []string
	for k := p.FirstChild; k != nil; k = k.NextSibling {
		kids = append(kids, k)
		want = append(want, convertTree(cfg.New(), cfg, cloneTree(k)))
	}
	conv := cfg.New()
	for _, i := range c.R.Perm(len(kids)) {
		d := trunc(describe(kids[i], nil), 300)
		if got := convertTree(conv, cfg, kids[i]); got != want[i] {
			c.Fail(src, &cfg, "child %d of %s, %s, converted in place between its siblings gives\n    %s\n    but alone\n    %s", i, p.Data, d, got, want[i])
		}
	}
	c.Obs("siblings", len(kids))
	c.Seen(src + p.Data)
}

func init() {
	register(&Check{ID: "C35",
		Rule: "elements and texts of generated documents, tag soup and mutated test data converted as trees: in place, taken out, as a copy, and as the only element of a document, under all configurations; the results must agree, and the tree around the part (structure, attributes, texts, neighbours) must stay as it was; and all children of an element converted in place one after another; distinct by part and configuration",
		Streams: []Stream{
			{Name: "parts", N: 20000, NT: 500000, F: c35parts},
			{Name: "sequence", N: 10000, NT: 200000, F: c35sequence},
			large(2000, c35parts, c35sequence),
		}})
}
