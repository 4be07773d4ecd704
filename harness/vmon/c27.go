package main

// C27: white space collapses the way HTML rendering does. The package collapse
// is run on trees made here, and each tree is compared, before and after, with
// a flow model: what a renderer would lay out.

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

type wsModel struct{ block, void, pre map[string]bool }

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

var wsDefault = wsModel{
	block: setOf("address article aside blockquote body center dd div dl dt fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 header hgroup hr html li main menu nav ol p pre section table tbody td tfoot th thead tr ul"),
	void:  setOf("area col embed hr img input link meta wbr"),
	pre:   setOf("pre code"),
}

func (m wsModel) funcs(given int) *collapse.DomFuncs {
	f := &collapse.DomFuncs{}
	is := func(s map[string]bool) func(n *html.Node) bool {
		return func(n *html.Node) bool { return n.Type == html.ElementNode && s[n.Data] }
	}
	if given&1 != 0 {
		f.IsBlockNode = is(m.block)
	}
	if given&2 != 0 {
		f.IsVoidNode = is(m.void)
	}
	if given&4 != 0 {
		f.IsPreformattedNode = is(m.pre)
	}
	return f
}

const wsEdge, wsAtom = '\x01', '\x02'

func collapsible(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// flow writes what is laid out: characters, edges of blocks (also line breaks)
// and atoms (void and preformatted elements).
func (m wsModel) flow(root *html.Node) string {
	var b strings.Builder
	var f func(n *html.Node)
	f = func(n *html.Node) {
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			switch k.Type {
			case html.TextNode:
				b.WriteString(k.Data)
			case html.ElementNode:
				switch {
				case k.Data == "br":
					b.WriteByte(wsEdge)
				case m.block[k.Data]:
					b.WriteByte(wsEdge)
					if m.pre[k.Data] {
						b.WriteByte(wsAtom)
					} else {
						f(k)
					}
					b.WriteByte(wsEdge)
				case m.void[k.Data] || m.pre[k.Data]:
					b.WriteByte(wsAtom)
				default:
					f(k)
				}
			}
		}
	}
	b.WriteByte(wsEdge)
	f(root)
	b.WriteByte(wsEdge)
	return b.String()
}

// rendered collapses a flow as CSS does for white-space: normal.
func rendered(s string) string {
	var b strings.Builder
	last := byte(wsEdge)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if collapsible(c) {
			if last == ' ' || last == wsEdge {
				continue
			}
			c = ' '
		}
		if c == wsEdge && last == ' ' {
			t := strings.TrimSuffix(b.String(), " ")
			b.Reset()
			b.WriteString(t)
		}
		b.WriteByte(c)
		last = c
	}
	return b.String()
}

type wsNode struct {
	n      *html.Node
	parent *html.Node
	data   string
	text   bool
	pre    bool
	attrs  string
}

func (m wsModel) snapshot(root *html.Node) (out []wsNode) {
	var f func(n *html.Node, pre bool)
	f = func(n *html.Node, pre bool) {
		out = append(out, wsNode{n, n.Parent, n.Data, n.Type == html.TextNode, pre, fmt.Sprint(n.Type, n.Attr, n.DataAtom)})
		p := pre || n.Type == html.ElementNode && m.pre[n.Data]
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k, p)
		}
	}
	f(root, false)
	return
}

func wellFormed(root *html.Node) string {
	seen := map[*html.Node]bool{}
	var f func(n *html.Node) string
	f = func(n *html.Node) string {
		if seen[n] {
			return "a node is in the tree twice"
		}
		seen[n] = true
		var prev *html.Node
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if k.Parent != n {
				return "a child does not point to its parent"
			}
			if k.PrevSibling != prev {
				return "a node does not point to its previous sibling"
			}
			if s := f(k); s != "" {
				return s
			}
			prev = k
		}
		if n.LastChild != prev {
			return "the last child is wrong"
		}
		return ""
	}
	return f(root)
}

func onlyWS(s string) bool {
	for i := 0; i < len(s); i++ {
		if !collapsible(s[i]) {
			return false
		}
	}
	return true
}

func squeezeWS(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if !collapsible(s[i]) {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// runCollapse collapses below root and judges the tree. top is the root of the
// whole tree, of which everything outside of root has to stay.
func (m wsModel) runCollapse(top, root *html.Node, given int) (string, int) {
	outside := func() string {
		var b strings.Builder
		var f func(n *html.Node)
		f = func(n *html.Node) {
			fmt.Fprintf(&b, "%p %d %q(", n, n.Type, n.Data)
			if n != root {
				for k := n.FirstChild; k != nil; k = k.NextSibling {
					f(k)
				}
			}
			b.WriteString(")")
		}
		f(top)
		return b.String()
	}
	var fs *collapse.DomFuncs
	if given > 0 {
		fs = m.funcs(given)
	}
	before, out0 := m.snapshot(root), outside()
	want := rendered(m.flow(root))
	if m.pre[root.Data] && root.Type == html.ElementNode {
		want = m.flow(root)
	}
	collapse.Collapse(root, fs)
	if s := wellFormed(top); s != "" {
		return s, 0
	}
	if outside() != out0 {
		return "something outside of the element changed", 0
	}
	changes := 0
	i := 0
	after := m.snapshot(root)
	for _, a := range after {
		for i < len(before) && before[i].n != a.n {
			b := before[i]
			if b.text && onlyWS(b.data) && !b.pre || strings.HasPrefix(b.attrs, fmt.Sprint(html.DoctypeNode)+" ") {
				i++
				changes++
				continue
			}
			return fmt.Sprintf("node %q was removed or moved", b.data), 0
		}
		if i == len(before) {
			return fmt.Sprintf("node %q was added or moved", a.data), 0
		}
		b := before[i]
		i++
		switch {
		case a.parent != b.parent:
			return fmt.Sprintf("node %q has another parent", b.data), 0
		case a.attrs != b.attrs:
			return fmt.Sprintf("node %q: type or attributes changed", b.data), 0
		case a.data == b.data:
		case !b.text || b.pre:
			return fmt.Sprintf("%q became %q", b.data, a.data), 0
		case squeezeWS(a.data) != squeezeWS(b.data):
			return fmt.Sprintf("text %q became %q", b.data, a.data), 0
		default:
			changes++
		}
	}
	for ; i < len(before); i++ {
		b := before[i]
		if !(b.text && onlyWS(b.data) && !b.pre || strings.HasPrefix(b.attrs, fmt.Sprint(html.DoctypeNode)+" ")) {
			return fmt.Sprintf("node %q was removed", b.data), 0
		}
		changes++
	}
	if got := m.flow(root); got != want {
		return fmt.Sprintf("the flow should be %q but is %q", want, got), 0
	}
	// once more
	collapse.Collapse(root, fs)
	again := m.snapshot(root)
	j := 0
	for _, a := range again {
		for j < len(after) && after[j].n != a.n && after[j].text && after[j].data == "" {
			j++ // an empty text node says nothing
		}
		if j == len(after) || after[j] != a {
			return fmt.Sprintf("collapsing again changes node %q", a.data), 0
		}
		j++
	}
	for ; j < len(after); j++ {
		if !(after[j].text && after[j].data == "") {
			return fmt.Sprintf("collapsing again removes node %q", after[j].data), 0
		}
	}
	return "", changes
}

func treeString(n *html.Node) string {
	var b strings.Builder
	var f func(n *html.Node)
	f = func(n *html.Node) {
		switch n.Type {
		case html.TextNode:
			fmt.Fprintf(&b, "%q", n.Data)
		case html.CommentNode:
			fmt.Fprintf(&b, "<!--%s-->", n.Data)
		case html.DoctypeNode:
			b.WriteString("<!doctype>")
		default:
			fmt.Fprintf(&b, "<%s ", n.Data)
			for k := n.FirstChild; k != nil; k = k.NextSibling {
				f(k)
			}
			b.WriteString(">")
		}
	}
	f(n)
	return b.String()
}

type wsGen struct {
	r                         *rand.Rand
	block, inline, void, pre_ []string
	words                     []string
}

func (g *wsGen) text() string {
	ws := func() string {
		s := ""
		for n := 1 + g.r.IntN(3); n > 0; n-- {
			s += pick(g.r, []string{" ", " ", "\n", "\t", "\r", "\r\n", "  "})
		}
		return s
	}
	s := ""
	if chance(g.r, 0.5) {
		s = ws()
	}
	for n := g.r.IntN(3); n > 0; n-- {
		s += pick(g.r, g.words)
		if n > 1 || chance(g.r, 0.5) {
			s += ws()
		}
	}
	return s
}

func (g *wsGen) fill(p *html.Node, depth, inPre int, budget *int) {
	n := g.r.IntN(5)
	if depth == 0 {
		n = 2 + g.r.IntN(5)
	}
	for ; n > 0 && *budget > 0; n-- {
		*budget--
		var k *html.Node
		el := func(names []string) *html.Node {
			t := pick(g.r, names)
			return &html.Node{Type: html.ElementNode, Data: t, DataAtom: atom.Lookup([]byte(t))}
		}
		switch x := g.r.IntN(20); {
		case x < 9:
			k = &html.Node{Type: html.TextNode, Data: g.text()}
		case x < 11 && depth < 6:
			k = el(g.block)
			g.fill(k, depth+1, inPre, budget)
		case x < 15 && depth < 6:
			k = el(g.inline)
			g.fill(k, depth+1, inPre, budget)
		case x < 16:
			k = el(g.void)
		case x < 17:
			k = el([]string{"br"})
		case x < 18 && depth < 6:
			k = el(g.pre_)
			g.fill(k, depth+1, 1, budget)
		case x < 19:
			k = &html.Node{Type: html.CommentNode, Data: g.text()}
		default:
			if depth == 0 && chance(g.r, 0.3) {
				k = &html.Node{Type: html.DoctypeNode, Data: "html"}
			} else {
				k = &html.Node{Type: html.TextNode, Data: pick(g.r, []string{"", " ", "\n"})}
			}
		}
		p.AppendChild(k)
	}
}

var wsWords = []string{"a", "b1", "word", "é", "\u00a0", "日", "\u2003x", "\u200b", "😀", "\f", "\v", "-", "\u0085", "\x00", "\xff", "\u2028", "\u3000", "\u200c", "\u200d", "\ufeff", "\u00ad", "\u180e", "\u1680", "\u2060", "\u0301", "\u2009", "&", "<"}

func c27trees(c *Case) {
	m := wsDefault
	g := &wsGen{r: c.R, block: strings.Fields("p div ul li blockquote h1 section table tr td dl hr form"), inline: strings.Fields("span b i em a strong u small x-a q"), void: strings.Fields("img input wbr embed"), pre_: strings.Fields("pre code"), words: wsWords}
	given := 0
	if chance(c.R, 0.4) {
		given = 1 + c.R.IntN(7)
		m = wsModel{map[string]bool{}, map[string]bool{}, map[string]bool{}}
		cp := func(dst, src map[string]bool) {
			for k := range src {
				dst[k] = true
			}
		}
		for i, p := range []struct{ d, s map[string]bool }{{m.block, wsDefault.block}, {m.void, wsDefault.void}, {m.pre, wsDefault.pre}} {
			if given&(1<<i) == 0 || chance(c.R, 0.5) {
				cp(p.d, p.s)
			}
		}
		if given&1 != 0 {
			for _, t := range append(append([]string{}, g.inline...), "div", "p", "x-b") {
				if chance(c.R, 0.3) {
					m.block[t] = !m.block[t]
				}
			}
		}
		if given&2 != 0 {
			for _, t := range []string{"img", "input", "x-v", "wbr"} {
				m.void[t] = chance(c.R, 0.6)
			}
			g.void = append(g.void, "x-v")
		}
		if given&4 != 0 {
			for _, t := range []string{"pre", "x-pre", "textarea", "tt"} {
				m.pre[t] = chance(c.R, 0.6)
			}
			g.pre_ = append(g.pre_, "x-pre", "textarea", "tt")
			m.pre["code"] = true // code keeps the space around it in any case
		}
		g.block = append(g.block, "x-b")
	}
	top := &html.Node{Type: html.DocumentNode}
	budget := pick(c.R, []int{4, 8, 16, 40})
	root := top
	if chance(c.R, 0.4) {
		budget2 := 4
		g.fill(top, 1, 0, &budget2)
		root = &html.Node{Type: html.ElementNode, Data: pick(c.R, []string{"div", "p", "body", "span", "li", "b"})}
		top.AppendChild(root)
		g.fill(top, 1, 0, &budget2)
	}
	g.fill(root, 0, 0, &budget)
	src := treeString(top)
	msg, n := m.runCollapse(top, root, given)
	if msg != "" {
		c.Fail("", nil, "%s\n    tree: %s\n    collapsed below <%s> (functions given: %d)\n    result: %s", msg, src, root.Data, given, treeString(top))
	}
	c.Obs("texts_changed", n)
	if n > 0 {
		c.Seen(src)
		c.Sample("%s", src)
	}
}

// every sequence of up to five pieces, exhaustively
var wsPieces = []string{"a", " ", " a", "a ", "a  \n", "|block", "|inl ", "|inl", "|img", "|br", "|code", "|pre", "|comment"}

func c27small(c *Case) {
	i := c.Idx
	root := &html.Node{Type: html.ElementNode, Data: "div"}
	top := &html.Node{Type: html.DocumentNode}
	top.AppendChild(root)
	for ; i > 0; i /= len(wsPieces) + 1 {
		d := i % (len(wsPieces) + 1)
		if d == 0 {
			continue
		}
		el := func(t string, text string) *html.Node {
			n := &html.Node{Type: html.ElementNode, Data: t}
			if text != "" {
				n.AppendChild(&html.Node{Type: html.TextNode, Data: text})
			}
			return n
		}
		var k *html.Node
		switch p := wsPieces[d-1]; p {
		case "|block":
			k = el("p", " x ")
		case "|inl ":
			k = el("b", " ")
		case "|inl":
			k = el("b", " x ")
		case "|img":
			k = el("img", "")
		case "|br":
			k = el("br", "")
		case "|code":
			k = el("code", " x  y ")
		case "|pre":
			k = el("pre", " x \n y ")
		case "|comment":
			k = &html.Node{Type: html.CommentNode, Data: " "}
		default:
			k = &html.Node{Type: html.TextNode, Data: p}
		}
		root.AppendChild(k)
	}
	src := treeString(top)
	msg, n := wsDefault.runCollapse(top, root, 0)
	if msg != "" {
		c.Fail("", nil, "%s\n    tree: %s\n    result: %s", msg, src, treeString(top))
	}
	if n > 0 {
		c.Seen(src)
	}
}

func c27probe(src string, cfg Cfg) string {
	doc := parseHTML(src)
	if doc == nil {
		return ""
	}
	msg, _ := wsDefault.runCollapse(doc, doc, 0)
	return msg
}

// parsed documents
func c27html(c *Case) {
	g := newG(c.R, randCfg(c.R, 0.3))
	src := c.doc(g).HTML()
	if chance(c.R, 0.7) {
		src = c26spaced(c.R, src)
	}
	if msg := c27probe(src, Cfg{}); msg != "" {
		c.Fail(src, &Cfg{}, "%s", msg)
	}
	c.Seen(src)
}

// c26spaced puts white space around tags.
func c26spaced(r *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if (s[i] == '<' || i > 0 && s[i-1] == '>') && chance(r, 0.3) {
			b.WriteString(pick(r, []string{" ", "\n", "\t ", "  ", "<!-- -->", " <!-- --> ", "<span> </span>"}))
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func init() {
	n5 := 1
	for i := 0; i < 4; i++ {
		n5 *= len(wsPieces) + 1
	}
	register(&Check{
		ID:     "C27",
		Rule:   "trees of block, inline, void, preformatted, comment and text nodes with white space in all positions, also with caller-given node classes; non-trivial: collapsing changed something; distinct by tree",
		Assume: []string{"the elements used are in the same class in the package and in HTML; form feeds are not collapsible"},
		Streams: []Stream{
			{Name: "trees", N: 150000, F: c27trees},
			{Name: "small", N: n5, NT: n5 * (len(wsPieces) + 1), Once: true, F: c27small},
			{Name: "html", N: 5000, F: c27html},
			large(1500, c27html),
		},
		Probe: c27probe, AnyShape: true,
	})
}
