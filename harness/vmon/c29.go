package main

// C29: registered tag types and renderers decide how elements come out. Trees
// of elements are converted with random registrations; the output is compared
// with what a small layout model expects, and the calls of the registered
// renderers with the calls the registrations call for.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

var (
	c29inline  = []string{"q", "u", "mark", "small", "abbr", "cite", "bdi", "label", "sub", "time"}
	c29block   = []string{"div", "section", "nav", "p", "header", "footer", "article", "main", "address", "form"}
	c29custom  = []string{"x-a", "star-rating", "my-el", "foo", "x-b:c", "x-a-b", "x-a2", "my-el-x", "foo-bar", "xa"}
	c29removed = []string{"script", "style", "link", "meta", "iframe", "noscript", "input", "textarea"}
	// rendered by the CommonMark plugin
	c29md = []string{"blockquote"}
)

var priorities = []int{-5, 0, converter.PriorityEarly, 101, 499, converter.PriorityStandard, 501, converter.PriorityLate, 5000}

type reg29 struct {
	tag    string
	typ    string // "" = none
	prio   int
	render string // "", "mark", "try", "html", "wrapper", "plain"
	idx    int
}

// the type's name is not exported: pick one of the constants
func registerReg(conv *converter.Converter, r reg29, log *[]string) {
	typ := converter.TagTypeInline
	switch r.typ {
	case "block":
		typ = converter.TagTypeBlock
	case "remove":
		typ = converter.TagTypeRemove
	}
	if r.render == "" {
		conv.Register.TagType(r.tag, typ, r.prio)
		return
	}
	var fn converter.HandleRenderFunc
	note := func(n *html.Node) {
		id, _ := attr(n, "id")
		*log = append(*log, fmt.Sprintf("%d:%s:%s", r.idx, n.Data, id))
	}
	switch r.render {
	case "mark":
		fn = func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			note(n)
			t, _ := ctx.GetTagType(n.Data)
			if t == converter.TagTypeBlock {
				w.WriteString("\n\n")
			}
			id, _ := attr(n, "id")
			w.WriteString(fmt.Sprintf("M%dx%sM", r.idx, id))
			if t == converter.TagTypeBlock {
				w.WriteString("\n\n")
			}
			return converter.RenderSuccess
		}
	case "try":
		fn = func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			note(n)
			return converter.RenderTryNext
		}
	case "html", "wrapper", "plain":
		f := map[string]converter.HandleRenderFunc{"html": base.RenderAsHTML, "wrapper": base.RenderAsHTMLWrapper, "plain": base.RenderAsPlaintextWrapper}[r.render]
		fn = func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			note(n)
			return f(ctx, w, n)
		}
	}
	conv.Register.RendererFor(r.tag, typ, fn, r.prio)
}

type c29world struct {
	regs  []reg29
	log   []string
	atoms []string // what atomic words stand for
}

// typeOf is the type that wins: lowest priority number, then first registered.
func (w *c29world) typeOf(tag string) string {
	best, prio := "", 1<<62
	for _, t := range c29removed {
		if t == tag {
			best, prio = "remove", converter.PriorityStandard
		}
	}
	for _, r := range w.regs {
		if r.tag == tag && r.typ != "" && r.prio < prio {
			best, prio = r.typ, r.prio
		}
	}
	if best != "" {
		return best
	}
	for _, t := range c29block {
		if t == tag {
			return "block"
		}
	}
	return map[string]string{"h2": "block", "h4": "block", "blockquote": "block", "pre": "block"}[tag]
}

func contains29(l []string, tag string) bool {
	for _, t := range l {
		if t == tag {
			return true
		}
	}
	return false
}

func (w *c29world) isMD(tag string) bool {
	for _, t := range c29md {
		if t == tag {
			return true
		}
	}
	return false
}

// renderers lists the registered renderers of a tag in the order of their turn.
func (w *c29world) renderers(tag string) (out []reg29) {
	for _, r := range w.regs {
		if r.tag == tag && r.render != "" {
			out = append(out, r)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].prio < out[j].prio })
	return
}

// winner is the renderer that takes the node; calls lists those asked.
func (w *c29world) winner(tag, id string) (win string, calls []string) {
	for _, r := range w.renderers(tag) {
		if w.isMD(tag) && r.prio >= converter.PriorityStandard {
			return "commonmark", calls // the plugin registered first
		}
		calls = append(calls, fmt.Sprintf("%d:%s:%s", r.idx, tag, id))
		if r.render == "mark" {
			return fmt.Sprintf("M%dx%sM", r.idx, id), calls
		}
		if r.render != "try" {
			return r.render, calls
		}
	}
	if w.isMD(tag) {
		return "commonmark", calls
	}
	return "fallback", calls
}

func (w *c29world) atom(s string) string {
	w.atoms = append(w.atoms, s)
	return fmt.Sprintf("\x03%d\x04", len(w.atoms)-1)
}

func plainHTML(w *c29world, n *N) string {
	if n.Tag == "" {
		return html.EscapeString(n.Text)
	}
	if w.typeOf(n.Tag) == "remove" {
		return ""
	}
	var b strings.Builder
	b.WriteString("<" + n.Tag)
	for _, a := range n.Attr {
		b.WriteString(" " + a[0] + `="` + html.EscapeString(a[1]) + `"`)
	}
	b.WriteString(">")
	if n.Tag == "link" || n.Tag == "meta" || n.Tag == "input" {
		return strings.TrimSuffix(b.String(), ">") + "/>"
	}
	for _, k := range n.Kids {
		b.WriteString(plainHTML(w, k))
	}
	b.WriteString("</" + n.Tag + ">")
	return b.String()
}

// expect writes the flow of a tree and the calls of the renderers.
func (w *c29world) expect(n *N, b *strings.Builder, calls *[]string) {
	if n.Tag == "" {
		b.WriteString(n.Text)
		return
	}
	typ := w.typeOf(n.Tag)
	if typ == "remove" {
		return
	}
	id := ""
	for _, a := range n.Attr {
		if a[0] == "id" {
			id = a[1]
		}
	}
	win, cs := w.winner(n.Tag, id)
	*calls = append(*calls, cs...)
	edge := func() {
		if typ == "block" {
			b.WriteByte(wsEdge)
		}
	}
	kids := func() {
		for _, k := range n.Kids {
			w.expect(k, b, calls)
		}
	}
	switch win {
	case "fallback", "plain":
		edge()
		kids()
		edge()
	case "wrapper":
		edge()
		b.WriteString("<" + n.Tag + ">")
		b.WriteByte(wsEdge)
		kids()
		b.WriteByte(wsEdge)
		b.WriteString("</" + n.Tag + ">")
		edge()
	case "html":
		edge()
		b.WriteString(w.atom(plainHTML(w, n)))
		edge()
	default:
		edge()
		b.WriteString(win)
		edge()
	}
}

func (w *c29world) output(flow string) string {
	s := rendered(string(wsEdge) + flow + string(wsEdge))
	var parts []string
	for _, p := range strings.Split(s, string(wsEdge)) {
		if p != "" {
			parts = append(parts, p)
		}
	}
	s = strings.Join(parts, "\n\n")
	for i, a := range w.atoms {
		s = strings.Replace(s, fmt.Sprintf("\x03%d\x04", i), a, 1)
	}
	return s
}

func toNode(n *N) *html.Node {
	if n.Tag == "" {
		return &html.Node{Type: html.TextNode, Data: n.Text}
	}
	m := &html.Node{Type: html.ElementNode, Data: n.Tag}
	if n.Tag == "#root" {
		m = &html.Node{Type: html.DocumentNode}
	}
	for _, a := range n.Attr {
		m.Attr = append(m.Attr, html.Attribute{Key: a[0], Val: a[1]})
	}
	for _, k := range n.Kids {
		m.AppendChild(toNode(k))
	}
	return m
}

func (w *c29world) describe() string {
	var b strings.Builder
	for _, r := range w.regs {
		fmt.Fprintf(&b, " %d:%s/%s/%s@%d", r.idx, r.tag, r.typ, r.render, r.prio)
	}
	return b.String()
}

func c29(c *Case) {
	cfg := randCfg(c.R, 0.1)
	g := newG(c.R, cfg)
	w := &c29world{}
	var pool []string
	for _, s := range [][]string{c29inline, c29block, c29custom, c29removed} {
		for k := 0; k < 3; k++ {
			pool = append(pool, pick(c.R, s))
		}
	}
	mdTags := []string{pick(c.R, c29md), pick(c.R, c29md)}
	for n := 1 + c.R.IntN(7); n > 0; n-- {
		r := reg29{tag: pick(c.R, pool), typ: pick(c.R, []string{"block", "inline", "remove"}), prio: pick(c.R, priorities), idx: len(w.regs)}
		if chance(c.R, 0.25) {
			r.tag = pick(c.R, mdTags)
		}
		if chance(c.R, 0.45) {
			r.render = pick(c.R, []string{"mark", "try", "html", "wrapper", "plain"})
			if r.typ == "remove" && chance(c.R, 0.6) {
				r.typ = "block"
			}
		}
		w.regs = append(w.regs, r)
	}
	ids := 0
	var fill func(depth int, tight bool) []*N
	fill = func(depth int, tight bool) []*N {
		var out []*N
		n := 1 + c.R.IntN(4)
		if depth == 0 {
			n = c.many(n, 500)
		}
		for i := 0; i < n; i++ {
			if len(out) > 0 || !tight {
				if chance(c.R, 0.5) {
					out = append(out, T(pick(c.R, []string{" ", "  ", "\n"})))
				}
			}
			if depth > 3 || chance(c.R, 0.4) {
				out = append(out, T(g.token()))
				continue
			}
			tag := pick(c.R, pool)
			if chance(c.R, 0.3) {
				tag = w.regs[c.R.IntN(len(w.regs))].tag
			}
			if win, _ := w.winner(tag, ""); win == "commonmark" && w.typeOf(tag) != "remove" {
				tag = pick(c.R, c29custom) // how the plugin renders it is judged elsewhere
			}
			if win, _ := w.winner(tag, ""); (tag == "link" || tag == "meta" || tag == "input") && w.typeOf(tag) != "remove" && win != "html" && !strings.HasPrefix(win, "M") {
				tag = pick(c.R, c29custom) // elements that are always empty and write nothing keep the spaces around them apart
			}
			e := E(tag)
			ids++
			e.A("id", fmt.Sprint("n", ids))
			if chance(c.R, 0.3) {
				e.A(pick(c.R, []string{"class", "title", "data-x"}), pick(c.R, []string{"a b", "*x* _y_", "\"q\" & <z>", "[a](b)", "`", "\\"}))
			}
			win, _ := w.winner(tag, "")
			switch {
			case tag == "link" || tag == "meta" || tag == "input":
				// nothing inside
			case contains29(c29removed, tag):
				e.Kids = []*N{T(g.token())}
			case win == "fallback" || win == "plain":
				e.Kids = fill(depth+1, false)
			case win == "wrapper":
				e.Kids = append(append([]*N{T(g.token())}, fill(depth+1, true)...), T(g.token()))
			case win == "html":
				e.Kids = []*N{T(g.token() + " " + g.token() + " "), E("b", T(g.token())).A("class", "x & y"), T(pick(c.R, []string{" < & > ", "*a* ", " "})), E("x-z", T(g.token()))}
				if chance(c.R, 0.3) && w.typeOf("script") == "remove" {
					e.Kids = append(e.Kids, E("script", T("var "+g.token())))
				}
			default:
				e.Kids = []*N{T(g.token())}
			}
			out = append(out, e)
		}
		return out
	}
	doc := Root(fill(0, false)...)
	var flow strings.Builder
	var calls []string
	for _, k := range doc.Kids {
		w.expect(k, &flow, &calls)
	}
	want := w.output(flow.String())
	conv := cfg.New()
	for _, r := range w.regs {
		registerReg(conv, r, &w.log)
	}
	node := toNode(doc)
	out, err := conv.ConvertNode(node, cfg.ConvOpts()...)
	desc := func() string {
		return fmt.Sprintf("\n    registrations (index:tag/type/renderer@priority):%s\n    document: %s", w.describe(), trunc(doc.HTML(), 1500))
	}
	if err != nil {
		c.Fail("", &cfg, "conversion failed: %v%s", err, desc())
	}
	if got := string(out); got != want {
		c.Fail("", &cfg, "expected %s\n    got      %s%s", trunc(quote(want), 1200), trunc(quote(got), 1200), desc())
	}
	if fmt.Sprint(w.log) != fmt.Sprint(calls) {
		c.Fail("", &cfg, "renderers called: %v\n    expected: %v%s", w.log, calls, desc())
	}
	c.Obs("renderer_calls", len(calls))
	c.Obs("registrations", len(w.regs))
	c.Seen(w.describe() + doc.HTML())
	c.Sample("%s => %q", desc(), want)
}

// what ctx.GetTagType tells a handler
func c29type(c *Case) {
	w := &c29world{}
	var pool []string
	for _, s := range [][]string{c29inline, c29block, c29custom, c29removed} {
		pool = append(pool, pick(c.R, s))
	}
	for n := c.R.IntN(8); n > 0; n-- {
		w.regs = append(w.regs, reg29{tag: pick(c.R, pool), typ: pick(c.R, []string{"block", "inline", "remove"}), prio: pick(c.R, priorities), idx: len(w.regs)})
	}
	conv := Cfg{}.New()
	for _, r := range w.regs {
		registerReg(conv, r, &w.log)
	}
	got := map[string]string{}
	known := map[string]bool{}
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		for _, t := range pool {
			v, ok := ctx.GetTagType(t)
			got[t], known[t] = string(v), ok
		}
	}, pick(c.R, priorities))
	if _, err := conv.ConvertString("<p>x</p>"); err != nil {
		c.Fail("", nil, "conversion failed: %v", err)
	}
	for _, t := range pool {
		want := w.typeOf(t)
		if want == "" {
			for _, k := range c29inline {
				if k == t {
					want = "inline"
				}
			}
		}
		if got[t] != want || known[t] != (want != "") {
			c.Fail("", nil, "the type of %q is %q (known: %v), expected %q; registrations:%s", t, got[t], known[t], want, w.describe())
		}
		c.Obs("types", 1)
	}
	c.Seen(w.describe())
}

func init() {
	register(&Check{
		ID:   "C29",
		Rule: "trees of known, custom and by default removed elements converted with random registrations of tag types and renderers at random priorities; the whole output and the calls of the renderers are compared with a model; distinct by registrations and document",
		Streams: []Stream{
			{Name: "trees", N: 30000, F: c29},
			large(3000, c29),
			{Name: "types", N: 10000, F: c29type},
		},
	})
}
