package main

// C36: what a handler renders through its context comes out like what the
// converter renders itself.

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// writePieces writes the bytes through the methods of the writer in pieces.
func writePieces(r *rand.Rand, w converter.Writer, b []byte) (bad string) {
	for len(b) > 0 {
		k := 1 + r.IntN(min(len(b), 7))
		var n int
		var err error
		switch r.IntN(4) {
		case 0:
			n, err = w.Write(b[:k])
		case 1:
			n, err = w.WriteString(string(b[:k]))
		case 2:
			k = 1
			n, err = 1, w.WriteByte(b[0])
		case 3:
			ru, size := utf8.DecodeRune(b)
			if ru == utf8.RuneError {
				k = 1
				n, err = 1, w.WriteByte(b[0])
			} else {
				k = size
				n, err = w.WriteRune(ru)
			}
		}
		if n != k || err != nil {
			bad = fmt.Sprintf("writing %d bytes returns %d, %v", k, n, err)
		}
		b = b[k:]
	}
	return
}

var c36tags = []string{"p", "div", "b", "strong", "em", "i", "a", "h1", "h2", "h6", "ul", "ol", "li", "blockquote", "pre", "code", "span", "section", "td", "th", "tr", "table", "del", "s", "x-wrap", "article", "br", "hr", "img", "#document", "html", "body", "#text", "dl", "figure"}

func c36delegate(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	src := anyDoc(r, cfg)
	if c.Stream == "large" {
		src = grownDoc(r, cfg)
	}
	if len(src) > c.many(8000, 200000) {
		return
	}
	c.lastHTML, c.lastCfg = src, &cfg
	want, err := cfg.Convert(src)
	if err != nil {
		return
	}

	// 1. Renderers that look at what would be rendered, and leave it to others.
	tags := map[string]bool{}
	for k := 1 + r.IntN(6); k > 0; k-- {
		tags[pick(r, c36tags)] = true
	}
	conv := cfg.New()
	looked := 0
	seen := map[*html.Node]bool{}
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		name := n.Data
		if n.Type == html.DocumentNode {
			name = "#document"
		}
		if tags[name] && !seen[n] && looked < 200 {
			seen[n] = true
			looked++
			var one, two bytes.Buffer
			ctx.RenderChildNodes(ctx, &one, n)
			for k := n.FirstChild; k != nil; k = k.NextSibling {
				ctx.RenderNodes(ctx, &two, k)
			}
			if chance(r, 0.3) {
				var kids []*html.Node
				for k := n.FirstChild; k != nil; k = k.NextSibling {
					kids = append(kids, k)
				}
				two.Reset()
				ctx.RenderNodes(ctx, &two, kids...)
			}
			if one.String() != two.String() {
				c.Fail(src, &cfg, "RenderChildNodes of <%s> gives %s, but rendering its children one by one %s", name, quote(one.String()), quote(two.String()))
			}
			if n.FirstChild != nil && chance(r, 0.3) {
				// a selection of the children, some of them more than once
				var kids, some []*html.Node
				for k := n.FirstChild; k != nil && len(kids) < 20; k = k.NextSibling {
					kids = append(kids, k)
				}
				for k := 1 + r.IntN(4); k > 0; k-- {
					some = append(some, pick(r, kids))
				}
				one.Reset()
				two.Reset()
				ctx.RenderNodes(ctx, &one, some...)
				for _, k := range some {
					ctx.RenderNodes(ctx, &two, k)
				}
				if one.String() != two.String() {
					c.Fail(src, &cfg, "RenderNodes of a selection of %d nodes in <%s> gives %s, one by one they give %s", len(some), name, quote(one.String()), quote(two.String()))
				}
				c.Obs("selections", 1)
			}
		}
		return converter.RenderTryNext
	}, pick(r, []int{1, converter.PriorityEarly, converter.PriorityEarly - 1, converter.PriorityStandard - 1}))
	got, err := conv.ConvertString(src, cfg.ConvOpts()...)
	if err != nil || got != want {
		c.Fail(src, &cfg, "with a renderer that only looks at the Markdown of the children of %v, the result is\n    %s (%v), without it\n    %s", tags, quote(got), err, quote(want))
	}
	c.Obs("nodes_looked_at", looked)

	// 2. Every element rendered by the converter, but through a buffer and in pieces.
	conv = cfg.New()
	busy := map[*html.Node]bool{}
	pieces := 0
	bad := ""
	type inside struct{}
	whole := chance(r, 0.5)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if busy[n] || pieces > 3000 {
			return converter.RenderTryNext
		}
		// the value given with the context is that of the nearest node rendered this way
		up := n.Parent
		for up != nil && !busy[up] {
			up = up.Parent
		}
		if v, _ := ctx.Value(inside{}).(*html.Node); v != up && bad == "" {
			bad = fmt.Sprintf("; the renderer of <%s> does not see the value given with the context of its ancestor", n.Data)
		}
		busy[n] = true
		var buf bytes.Buffer
		if n.Type == html.DocumentNode && whole {
			ctx.RenderChildNodes(ctx.WithValue(inside{}, n), &buf, n)
		} else {
			ctx.RenderNodes(ctx.WithValue(inside{}, n), &buf, n)
		}
		delete(busy, n)
		pieces++
		if m := writePieces(r, w, buf.Bytes()); m != "" {
			bad = m
		}
		return converter.RenderSuccess
	}, 1)
	got, err = conv.ConvertString(src, cfg.ConvOpts()...)
	if err != nil || got != want || bad != "" {
		c.Fail(src, &cfg, "rendered through buffers and written in pieces the result is\n    %s (%v) %s, otherwise\n    %s", quote(got), err, bad, quote(want))
	}
	c.Obs("nodes_in_pieces", pieces)
	if want != "" {
		c.Seen(src + cfg.String())
		c.Sample("%s %v", src, tags)
	}
}

// c36text: an element whose renderer writes a text that it escapes itself reads like that text.
func c36text(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.3)
	if chance(r, 0.3) {
		cfg.Escape = "disabled"
	}
	if chance(r, 0.5) {
		cfg.Domain = pick(r, []string{"example.com", "https://example.com/a/b?c#d", "http://ex.org:80/x/"})
	}
	g := newG(r, cfg)
	texts := []string{}
	var kids, plain []*N
	for k := 1 + r.IntN(3); k > 0; k-- {
		t := strings.NewReplacer("<", "(", ">", ")", "&", "+", "\n", " ").Replace(g.hostileText())
		t = strings.Join(strings.Fields(t), " ")
		if t == "" {
			t = "*"
		}
		texts = append(texts, t)
		kids = append(kids, E("x-text", T("i")).A("n", sprint(len(texts)-1)))
		plain = append(plain, E("x-text", T(t)))
		if k > 1 {
			s := pick(r, []string{" ", " " + g.token() + " ", g.token()})
			kids = append(kids, T(s))
			plain = append(plain, T(s))
		}
	}
	host := func(in []*N) *N {
		return E("p", append([]*N{T("w ")}, append(in, T(" w"))...)...)
	}
	if chance(r, 0.5) {
		tag := pick(r, []string{"b", "em", "a", "span", "h2", "blockquote", "li"})
		host = func(in []*N) *N {
			return E(tag, append([]*N{T("w ")}, append(in, T(" w"))...)...).A("href", "/x")
		}
	}
	src, ref := Root(host(kids)).HTML(), Root(host(plain)).HTML()
	conv := cfg.New()
	urls := map[string]string{}
	conv.Register.RendererFor("x-text", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		v, _ := attr(n, "n")
		var i int
		fmt.Sscan(v, &i)
		t := []byte(texts[i])
		// as the text transformers of the shipped plugins would see and change it
		var buf bytes.Buffer
		ctx.RenderNodes(ctx, &buf, &html.Node{Type: html.TextNode, Data: texts[i]})
		if i%2 == 1 { // several nodes at once, outside of any tree
			var again bytes.Buffer
			ctx.RenderNodes(ctx, &again, &html.Node{Type: html.TextNode}, &html.Node{Type: html.TextNode, Data: texts[i]}, &html.Node{Type: html.CommentNode, Data: "c"})
			if again.String() != buf.String() {
				c.Fail(src, &cfg, "RenderNodes of the text %q alone gives %q, together with an empty text and a comment %q", texts[i], &buf, &again)
			}
		}
		esc := ctx.EscapeContent(t)
		if !bytes.Equal(t, []byte(texts[i])) {
			c.Fail(src, &cfg, "EscapeContent changed its argument from %q to %q", texts[i], t)
		}
		kept := append([]byte(nil), esc...)
		// a slice of a larger buffer of the handler
		buf2 := append(append([]byte("before"), esc...), "behind"...)
		ctx.EscapeContent(buf2[:len(buf2)-6][6:])
		ctx.UnEscapeContent(buf2[:len(buf2)-6][6:])
		if string(buf2) != "before"+string(kept)+"behind" {
			c.Fail(src, &cfg, "EscapeContent or UnEscapeContent changed the bytes of the caller from %q to %q", "before"+string(kept)+"behind", buf2)
		}
		un1 := ctx.UnEscapeContent(esc)
		if !bytes.Equal(esc, kept) {
			c.Fail(src, &cfg, "UnEscapeContent changed its argument from %q to %q", kept, esc)
		}
		if un2 := ctx.UnEscapeContent(esc); !bytes.Equal(un1, un2) {
			c.Fail(src, &cfg, "UnEscapeContent of %q gives %q, and the second time %q", kept, un1, un2)
		}
		if s := un1; cfg.Escape == "disabled" && string(s) != texts[i] {
			c.Fail(src, &cfg, "escaping is disabled but %q becomes %q", texts[i], s)
		} else if strings.ReplaceAll(string(s), `\`, "") != strings.ReplaceAll(texts[i], `\`, "") {
			c.Fail(src, &cfg, "%q escaped and un-escaped is %q", texts[i], s)
		}
		w.Write(buf.Bytes())
		for _, u := range []string{"/p?a=b", "q", "https://o.org/x", "#f"} {
			urls[u] = ctx.AssembleAbsoluteURL(ctx, "a", u)
		}
		return converter.RenderSuccess
	}, converter.PriorityEarly)
	got, err := conv.ConvertString(src, cfg.ConvOpts()...)
	if err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	want, err := cfg.Convert(ref)
	if err != nil {
		c.Fail(ref, &cfg, "error %v", err)
	}
	if got != want {
		c.Fail(src, &cfg, "texts %q rendered by a handler give\n    %s, as texts of the document\n    %s", texts, quote(got), quote(want))
	}
	for u, abs := range urls {
		md, err := Cfg{Domain: cfg.Domain}.Convert(`<a href="` + u + `">t</a>`)
		if err != nil || md != "[t]("+abs+")" {
			c.Fail(src, &cfg, "AssembleAbsoluteURL(%q) is %q but a link comes out as %q (domain %q)", u, abs, md, cfg.Domain)
		}
	}
	c.Obs("texts", len(texts))
	c.Obs("urls", len(urls))
	c.Seen(src + strings.Join(texts, "|") + cfg.String())
	c.Sample("%q => %s", texts, quote(got))
}

func init() {
	register(&Check{ID: "C36",
		Rule: "documents of all generators converted with added renderers that render children into buffers (whole and one by one) and leave the node to the others, with a renderer that passes every node through a buffer and writes it in pieces by all methods of the writer, and with elements whose texts a handler renders and escapes itself; the result must be the one without these handlers; AssembleAbsoluteURL must agree with links; distinct by document, configuration and handlers",
		Streams: []Stream{
			{Name: "delegate", N: 7000, NT: 150000, F: c36delegate},
			large(2000, c36delegate),
			{Name: "text", N: 12000, NT: 300000, F: c36text},
		}})
}
