package main

// C06: handlers run in priority order. Recording handlers of every kind are
// registered in random order with distinct random priorities; the recorded
// event log is checked against the specification afterwards.

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

type hev struct {
	kind string // pre, render, text, unesc, post
	prio int
	node *html.Node
	pos  int
	in   string // content seen
	out  string // what it added ("" if it left nothing)
	ok   bool   // reported success / claimed the position
}

// prios draws n distinct priorities, many close to the documented constants.
func prios(r *rand.Rand, n int, avoid map[int]bool) []int {
	seen := map[int]bool{}
	var out []int
	for len(out) < n {
		p := r.IntN(2400) - 200
		switch r.IntN(4) {
		case 0:
			p = pick(r, []int{converter.PriorityEarly, converter.PriorityStandard, converter.PriorityLate}) + r.IntN(7) - 3
		case 1:
			p = pick(r, []int{-1 << 40, -1 << 31, -1, 0, 1, 1 << 31, 1 << 40, 1<<62 - 1, -1 << 62}) + r.IntN(3)
		}
		if avoid[p] || seen[p] {
			continue
		}
		seen[p] = true
		out = append(out, p)
	}
	return out
}

// c06mark is what a text transformer appends: nothing in it is ever escaped.
func c06mark(p int) string { return "‹" + strings.ReplaceAll(fmt.Sprint(p), "-", "m") + "›" }

func sorted(ps []int) []int {
	o := append([]int(nil), ps...)
	sort.Ints(o)
	return o
}

var c06known = []string{"p", "em", "strong", "h1", "blockquote", "ul", "code", "a", "br", "hr", "img", "pre"}

func c06(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	smart := cfg.Escape != "disabled"
	g := newG(r, cfg)
	g.hostile = 0.4
	d := c.doc(g)
	// own elements that no plugin renders
	var own []*N
	for i := 0; i < 3; i++ {
		own = append(own, E(fmt.Sprintf("x-%d", i), T(g.token()+"*"), E("em", T(g.token())), E("x-9", T(g.token()))))
	}
	d.Kids = append(d.Kids, E("p", own...))
	shuffle(r, d.Kids)
	src := d.HTML()
	if chance(r, 0.05) {
		src = pick(r, []string{"", " ", "\n", "<!-- c -->", "<script>x</script>", "<p></p>", "<ul></ul>", "<b> </b>", "<head></head>"})
	}

	max := pick(r, []int{1, 3, 6, 20, 40})
	avoid := map[int]bool{}
	n := func() int { return 1 + r.IntN(max) }
	preP, renP, txtP, unP, postP := prios(r, n(), avoid), prios(r, n(), avoid), prios(r, n(), avoid), prios(r, n(), avoid), prios(r, n(), avoid)
	// which renderer claims which element
	claims := map[int]map[string]bool{}
	for _, p := range renP {
		m := map[string]bool{}
		for i := 0; i < 3; i++ {
			if chance(r, 0.15) {
				m[fmt.Sprintf("x-%d", i)] = true
			}
		}
		if chance(r, 0.1) {
			m[pick(r, c06known)] = true
		}
		if chance(r, 0.05) {
			m["x-9"] = true
		}
		claims[p] = m
	}
	unClaim := map[int]bool{}
	for _, p := range unP {
		unClaim[p] = chance(r, 0.08)
	}
	// handlers that leave nothing
	erase := map[int]bool{}
	if chance(r, 0.15) {
		erase[pick(r, txtP)] = true
	}
	erasePost := map[int]bool{}
	if chance(r, 0.15) {
		erasePost[pick(r, postP)] = true
	}
	var log []hev
	var plug []func(conv *converter.Converter)
	for _, p := range preP {
		plug = append(plug, func(conv *converter.Converter) {
			conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
				log = append(log, hev{kind: "pre", prio: p, node: doc})
				doc.AppendChild(&html.Node{Type: html.CommentNode, Data: fmt.Sprint("m", p)})
				k := 0
				for x := doc.FirstChild; x != nil; x = x.NextSibling {
					if x.Type == html.CommentNode && strings.HasPrefix(x.Data, "m") {
						k++
					}
				}
				log[len(log)-1].pos = k
			}, p)
		})
	}
	for _, p := range renP {
		plug = append(plug, func(conv *converter.Converter) {
			conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				e := hev{kind: "render", prio: p, node: n}
				if claims[p][n.Data] && n.Type == html.ElementNode {
					e.ok = true
					log = append(log, e)
					w.WriteString(" claimedby" + strings.ReplaceAll(fmt.Sprint(p), "-", "m") + "z ")
					return converter.RenderSuccess
				}
				log = append(log, e)
				return converter.RenderTryNext
			}, p)
		})
	}
	for _, p := range txtP {
		plug = append(plug, func(conv *converter.Converter) {
			conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
				log = append(log, hev{kind: "text", prio: p, in: s})
				if erase[p] {
					log[len(log)-1].out = ""
					return ""
				}
				if strings.TrimSpace(s) == "" && p%3 != 0 {
					log[len(log)-1].out = s
					return s
				}
				log[len(log)-1].out = c06mark(p)
				return s + c06mark(p)
			}, p)
		})
	}
	for _, p := range unP {
		plug = append(plug, func(conv *converter.Converter) {
			conv.Register.UnEscaper(func(b []byte, i int) int {
				log = append(log, hev{kind: "unesc", prio: p, pos: i, ok: unClaim[p]})
				if unClaim[p] {
					return 1
				}
				return -1
			}, p)
		})
	}
	for _, p := range postP {
		plug = append(plug, func(conv *converter.Converter) {
			conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
				log = append(log, hev{kind: "post", prio: p, in: string(b)})
				if erasePost[p] {
					if p%2 == 0 {
						return nil
					}
					return []byte{}
				}
				log[len(log)-1].out = fmt.Sprintf("⟪%d⟫", p)
				return append(append([]byte(nil), b...), fmt.Sprintf("⟪%d⟫", p)...)
			}, p)
		})
	}
	shuffle(r, plug)
	cut := r.IntN(len(plug) + 1)
	conv := converter.NewConverter()
	if !smart {
		conv = converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled))
	}
	for _, f := range plug[:cut] {
		f(conv)
	}
	for _, p := range cfg.Plugins() {
		conv.Register.Plugin(p)
	}
	late := plug[cut:]
	if chance(r, 0.3) {
		conv.ConvertString("<p>warm up *</p>")
	}
	for _, f := range late {
		f(conv)
	}
	rounds := 1 + r.IntN(2)
	for round := 0; round < rounds; round++ {
		log = nil
		c.lastHTML, c.lastCfg = src, &cfg
		out, err := conv.ConvertString(src)
		if err != nil {
			return
		}
		if msg := c06judge(c, log, preP, renP, txtP, unP, postP, claims, out, smart, len(erasePost) > 0); msg != "" {
			c.Fail(src, &cfg, "%s", msg)
		}
	}
	c.Seen(src + fmt.Sprint(preP, renP, txtP, unP, postP))
	c.Sample("pre %v render %v text %v unescape %v post %v: %d events", len(preP), len(renP), len(txtP), len(unP), len(postP), len(log))
}

func c06judge(c *Case, log []hev, preP, renP, txtP, unP, postP []int, claims map[int]map[string]bool, out string, smart, lost bool) string {
	var pre, post []int
	want := sorted(renP)
	phase := 0
	type key struct{}
	// renderers: the visits of a node form runs that go up through all
	// priorities until one claims it; visits of descendants may lie between
	open := map[*html.Node]int{} // node -> index of the next expected priority
	visited := 0
	var txt []hev
	flushText := func() string {
		if len(txt) == 0 {
			return ""
		}
		w := sorted(txtP)
		if len(txt)%len(w) != 0 {
			return fmt.Sprintf("%d calls of %d text transformers: some text did not pass through all of them", len(txt), len(w))
		}
		for i := 0; i < len(txt); i += len(w) {
			for j := range w {
				if txt[i+j].prio != w[j] {
					return fmt.Sprintf("text transformers ran in the order %v, expected %v", prioOf(txt[i:i+len(w)]), w)
				}
				if j > 0 {
					// what the previous one returned is what this one gets (other plugins may work in between)
					if !strings.Contains(txt[i+j].in, txt[i+j-1].out) || (txt[i+j-1].out == "" && txt[i+j].in != "") {
						return fmt.Sprintf("text transformer %d did not get the result of transformer %d: %q", w[j], w[j-1], txt[i+j].in)
					}
				}
			}
		}
		c.Obs("texts_transformed", len(txt)/len(w))
		txt = nil
		return ""
	}
	var un []hev
	var lastPost hev
	for _, e := range log {
		c.Obs("events_"+e.kind, 1)
		ph := map[string]int{"pre": 1, "render": 2, "text": 2, "unesc": 0, "post": 3}[e.kind]
		if ph > 0 {
			if ph < phase {
				return fmt.Sprintf("a %s handler ran after a later phase had begun", e.kind)
			}
			phase = ph
		}
		switch e.kind {
		case "pre":
			pre = append(pre, e.prio)
			if e.pos > len(pre) {
				return fmt.Sprintf("pre-renderer %d sees %d earlier modifications, expected at most %d", e.prio, e.pos, len(pre))
			}
		case "post":
			if n := len(post); n > 0 && (!strings.Contains(e.in, lastPost.out) || (lastPost.out == "" && e.in != "")) {
				return fmt.Sprintf("post-renderer %d did not get the result of post-renderer %d", e.prio, post[n-1])
			}
			lastPost = e
			post = append(post, e.prio)
		case "render":
			if e.node.Type == html.TextNode {
				return "a renderer was called for a text node"
			}
			i := open[e.node]
			if e.prio != want[i%len(want)] {
				// a new visit begins when the built-in renderers claimed the node before
				if i > 0 && e.prio == want[0] {
					i = 0
				} else {
					return fmt.Sprintf("renderer %d was called for <%s>, expected renderer %d next (order %v)", e.prio, dom.NodeName(e.node), want[i%len(want)], want)
				}
			}
			if i == 0 {
				visited++
			}
			i++
			if e.ok || i == len(want) {
				i = 0
			}
			open[e.node] = i
		case "text":
			txt = append(txt, e)
		case "unesc":
			un = append(un, e)
		}
	}
	if msg := flushText(); msg != "" {
		return msg
	}
	// a node that nothing claims goes through all renderers
	for n, i := range open {
		if i != 0 && n.Type == html.ElementNode && strings.HasPrefix(n.Data, "x-") {
			return fmt.Sprintf("<%s>: the renderers after priority %d were not asked although none reported success", n.Data, want[i-1])
		}
	}
	for n := range open {
		if lost {
			break
		}
		// the output holds the claiming renderer's text
		for _, p := range want {
			if claims[p][n.Data] && strings.HasPrefix(n.Data, "x-") {
				if !strings.Contains(out, "claimedby"+strings.ReplaceAll(fmt.Sprint(p), "-", "m")+"z") {
					return fmt.Sprintf("<%s> is claimed by renderer %d, but its result is missing", n.Data, p)
				}
				break
			}
		}
	}
	if fmt.Sprint(pre) != fmt.Sprint(sorted(preP)) {
		return fmt.Sprintf("pre-renderers ran in the order %v, expected %v, each once", pre, sorted(preP))
	}
	if fmt.Sprint(post) != fmt.Sprint(sorted(postP)) {
		return fmt.Sprintf("post-renderers ran in the order %v, expected %v, each once", post, sorted(postP))
	}
	// un-escapers: per position ascending, stopping at the first that claims it
	w := sorted(unP)
	for i := 0; i < len(un); {
		j := 0
		for i+j < len(un) && j < len(w) && un[i+j].pos == un[i].pos && un[i+j].prio == w[j] {
			j++
			if un[i+j-1].ok {
				break
			}
		}
		if j == 0 {
			return fmt.Sprintf("un-escaper %d was asked first for a position, expected %d first (order %v)", un[i].prio, w[0], w)
		}
		i += j
		if i < len(un) && !un[i-1].ok && un[i].pos == un[i-1].pos && un[i].prio > un[i-1].prio {
			return fmt.Sprintf("un-escaper %d followed %d for one position (order %v)", un[i].prio, un[i-1].prio, w)
		}
	}
	if !smart && len(un) > 0 {
		return "un-escapers ran although escaping is disabled"
	}
	if visited == 0 {
		return "no renderer was called"
	}
	c.Obs("nodes_rendered", visited)
	return ""
}

func prioOf(es []hev) (o []int) {
	for _, e := range es {
		o = append(o, e.prio)
	}
	return
}

// c06default: with only claiming/declining renderers, an element that nobody
// claims comes out by the default rendering: children, set apart when block.
func c06default(c *Case) {
	r := c.R
	cfg := Cfg{}
	conv := cfg.New()
	type reg struct {
		t string
		p int
	}
	name := pick(r, []string{"x-a", "foo", "div", "span", "section", "custom-tag", "u", "time", "p", "sup"})
	k := r.IntN(20)
	var regs []reg
	ps := prios(r, k, map[int]bool{})
	if k > 1 && chance(r, 0.3) {
		// of equals the one that was registered first counts
		for i := range ps {
			ps[i] = ps[r.IntN(1+r.IntN(k))]
		}
	}
	for _, p := range ps {
		regs = append(regs, reg{pick(r, []string{"block", "inline", "remove"}), p})
	}
	for i, g := range regs {
		switch g.t {
		case "block":
			conv.Register.TagType(name, converter.TagTypeBlock, g.p)
		case "inline":
			conv.Register.TagType(name, converter.TagTypeInline, g.p)
		case "remove":
			conv.Register.TagType(name, converter.TagTypeRemove, g.p)
		}
		if chance(r, 0.1) {
			conv.ConvertString(fmt.Sprintf("<%s>x</%s> %d", name, name, i))
		}
	}
	best := ""
	bp := 0
	for i, g := range regs {
		if i == 0 || g.p < bp {
			best, bp = g.t, g.p
		}
	}
	if best == "" {
		switch name {
		case "div", "section", "p":
			best = "block"
		default:
			best = "inline"
		}
	}
	src := fmt.Sprintf("<article>qa <%s>qb</%s> qc</article>", name, name)
	want := map[string]string{"block": "qa\n\nqb\n\nqc", "inline": "qa qb qc", "remove": "qa qc"}[best]
	out, err := conv.ConvertString(src)
	if err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	c.Obs("tag_types_registered", len(regs))
	if out != want {
		c.Fail(src, &cfg, "tag types for %q registered in the order %v: the one with the lowest priority number is %q, which gives %q, but the output is %q", name, regs, best, want, out)
	}
	var seen string
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		t, ok := ctx.GetTagType(name)
		seen = fmt.Sprint(t, ok)
	}, 5)
	conv.ConvertString(src)
	if len(regs) > 0 && seen != best+"true" {
		c.Fail(src, &cfg, "tag types for %q registered in the order %v: GetTagType gives %q, expected %q", name, regs, seen, best)
	}
	c.Seen(fmt.Sprint(name, regs))
	c.Sample("%s %v -> %s", name, regs, best)
}

// c06equal: handlers of one kind with few distinct priorities keep the order
// of their registration within one priority.
func c06equal(c *Case) {
	r := c.R
	n := 2 + r.IntN(50)
	span := 1 + r.IntN(4)
	type id struct{ p, seq int }
	var want []id
	kinds := []string{"pre", "render", "text", "unesc", "post"}
	logs := map[string]*[]id{}
	for _, k := range kinds {
		logs[k] = &[]id{}
	}
	conv := converter.NewConverter()
	var reg []id
	for i := 0; i < n; i++ {
		e := id{r.IntN(span) + 50, i}
		reg = append(reg, e)
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { *logs["pre"] = append(*logs["pre"], e) }, e.p)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			if n.Data == "x-one" {
				*logs["render"] = append(*logs["render"], e)
			}
			return converter.RenderTryNext
		}, e.p)
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			*logs["text"] = append(*logs["text"], e)
			return s
		}, e.p)
		conv.Register.UnEscaper(func(b []byte, i int) int {
			*logs["unesc"] = append(*logs["unesc"], e)
			return -1
		}, e.p)
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
			*logs["post"] = append(*logs["post"], e)
			return b
		}, e.p)
	}
	want = append(want, reg...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].p < want[j].p })
	cfg := Cfg{}
	for _, p := range cfg.Plugins() {
		conv.Register.Plugin(p)
	}
	src := "<x-one>*</x-one>"
	if _, err := conv.ConvertString(src); err != nil {
		c.Fail(src, &cfg, "error %v", err)
	}
	for _, k := range kinds {
		got := *logs[k]
		if len(got) != len(want) {
			c.Fail(src, &cfg, "%d %s handlers registered, %d calls", n, k, len(got))
		}
		for i := range got {
			if got[i] != want[i] {
				c.Fail(src, &cfg, "%s handlers ran in the order %v (priority, registration), expected %v", k, got, want)
			}
		}
	}
	c.Obs("equal_priority_handlers", n)
	c.Seen(fmt.Sprint(reg))
	c.Sample("%v", reg)
}

// c06texts: every text that a document holds once the pre-renderers are done
// passes through all text transformers once, in document order, whatever it
// consists of.
func c06texts(c *Case) {
	r := c.R
	cfg := Cfg{Escape: pick(r, []string{"", "disabled"})}
	conv := cfg.New()
	if chance(r, 0.3) {
		conv = converter.NewConverter(converter.WithPlugins(base.NewBasePlugin()))
	}
	conv.Register.RendererFor("x-none", converter.TagTypeInline, func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus { return converter.RenderTryNext }, 7)
	texts := []string{" ", " ", "\n", "\u00a0", "\u00a0 ", "  ", "\t", "0", ".", "*", "a", "-", "\u200b", "\u3000", "\x01", "\ufffd", "\\", "é", "1.", "#", " a", "a ", "a b", "same", "same"}
	tags := []string{"x-a", "x-b", "span", "div", "section", "u", "sup", "time", "article"}
	var build func(depth int) []*N
	build = func(depth int) []*N {
		var out []*N
		for k := 1 + r.IntN(4); k > 0; k-- {
			if depth > 3 || chance(r, 0.5) {
				out = append(out, T(pick(r, texts)))
			} else {
				out = append(out, E(pick(r, tags), build(depth+1)...))
			}
		}
		return out
	}
	src := Root(E(pick(r, tags), build(0)...), E("div", build(0)...)).HTML()
	var want []string
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		want = nil
		for n := range doc.Descendants() {
			if n.Type == html.TextNode && n.Data != "" {
				want = append(want, n.Data)
			}
		}
	}, 1<<40)
	n := 1 + r.IntN(5)
	got := make([][]string, n)
	for i := range n {
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			if s != "" {
				got[i] = append(got[i], s)
			}
			return s
		}, -100+i)
	}
	last := 0
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string { last++; return s }, 1<<40)
	c.lastHTML, c.lastCfg = src, &cfg
	for round := 0; round < 2; round++ {
		for i := range got {
			got[i] = nil
		}
		last = 0
		if _, err := conv.ConvertString(src); err != nil {
			c.Fail(src, &cfg, "error %v", err)
		}
		for i := range got {
			if strings.Join(got[i], "\x00") != strings.Join(want, "\x00") {
				c.Fail(src, &cfg, "text transformer %d of %d got the texts\n    %q, the document holds\n    %q", i, n, got[i], want)
			}
		}
		if last < len(want) {
			c.Fail(src, &cfg, "the last text transformer was called %d times for %d texts", last, len(want))
		}
	}
	c.Obs("texts_in_order", len(want))
	c.Seen(src + cfg.String())
	c.Sample("%s: %d texts", src, len(want))
}

func init() {
	register(&Check{ID: "C06",
		Rule: "up to 40 recording handlers of each kind with distinct random priorities (64-bit extremes and neighbours of the documented constants included) registered in random order before, between and after the shipped plugins and after a first conversion; offline checker over the event log: phases, order per document, node, text and position, stop at the first success, data flow between handlers; handlers that leave nothing (an empty text, an empty result) and documents without content; documents of plain elements whose every text (whitespace, digits, control and special characters included) must reach every text transformer once in order; tag types with up to 20 competing registrations, equals included; distinct by document and priorities",
		Streams: []Stream{
			{Name: "order", N: 12000, NT: 300000, F: c06},
			large(500, c06),
			{Name: "texts", N: 6000, NT: 150000, F: c06texts},
			{Name: "equal", N: 3000, NT: 60000, F: c06equal},
			{Name: "tagtypes", N: 8000, NT: 200000, F: c06default},
		}})
}
