package main

// Document model used by the generators: a small HTML tree that can be
// serialised with or without insignificant noise, and shrunk.

import (
	"fmt"
	"math/rand/v2"
	"net/url"
	"strings"
	"time"

	"golang.org/x/net/html"
)

type N struct {
	Tag  string // "" = text, "#root", "#raw" = raw HTML
	Text string
	Attr [][2]string
	Kids []*N
}

func T(s string) *N { return &N{Text: s} }
func E(tag string, kids ...*N) *N {
	return &N{Tag: tag, Kids: kids}
}
func (n *N) A(k, v string) *N { n.Attr = append(n.Attr, [2]string{k, v}); return n }
func Root(kids ...*N) *N      { return &N{Tag: "#root", Kids: kids} }
func Raw(s string) *N         { return &N{Tag: "#raw", Text: s} }

var voidTags = map[string]bool{"br": true, "hr": true, "img": true, "input": true, "wbr": true, "col": true, "meta": true, "link": true, "area": true, "base": true, "embed": true, "param": true, "source": true, "track": true}

func escText(s string) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	s = strings.ReplaceAll(s, ">", "&gt;")
	s = strings.ReplaceAll(s, "\r", "&#13;")
	return s
}
func escAttr(s string) string {
	return strings.ReplaceAll(escText(s), `"`, "&quot;")
}

func (n *N) HTML() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *N) write(b *strings.Builder) {
	switch n.Tag {
	case "":
		b.WriteString(escText(n.Text))
		return
	case "#raw":
		b.WriteString(n.Text)
		return
	case "#root":
		for _, k := range n.Kids {
			k.write(b)
		}
		return
	}
	b.WriteString("<" + n.Tag)
	for _, a := range n.Attr {
		fmt.Fprintf(b, ` %s="%s"`, a[0], escAttr(a[1]))
	}
	b.WriteString(">")
	if voidTags[n.Tag] {
		return
	}
	if n.Tag == "pre" && len(n.Kids) > 0 {
		// the parser drops one newline directly after <pre>
		if t := firstText(n); strings.HasPrefix(t, "\n") && n.Kids[0].Tag == "" {
			b.WriteString("\n")
		}
	}
	for _, k := range n.Kids {
		k.write(b)
	}
	b.WriteString("</" + n.Tag + ">")
}

func firstText(n *N) string {
	if n.Tag == "" {
		return n.Text
	}
	for _, k := range n.Kids {
		if t := firstText(k); t != "" {
			return t
		}
	}
	return ""
}

func (n *N) clone() *N {
	c := *n
	c.Attr = append([][2]string(nil), n.Attr...)
	c.Kids = make([]*N, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = k.clone()
	}
	return &c
}

func (n *N) walk(f func(*N)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// fromHTML builds a model from parsed HTML (body children), for shrinking.
func fromHTML(src string) *N {
	doc := parseHTML(src)
	if doc == nil {
		return nil
	}
	root := Root()
	var conv func(p *html.Node, dst *N)
	conv = func(p *html.Node, dst *N) {
		for c := p.FirstChild; c != nil; c = c.NextSibling {
			switch c.Type {
			case html.TextNode:
				if p.Data == "script" || p.Data == "style" {
					dst.Kids = append(dst.Kids, Raw(c.Data))
				} else {
					dst.Kids = append(dst.Kids, T(c.Data))
				}
			case html.CommentNode:
				dst.Kids = append(dst.Kids, Raw("<!--"+c.Data+"-->"))
			case html.ElementNode:
				e := E(c.Data)
				for _, a := range c.Attr {
					e.A(a.Key, a.Val)
				}
				conv(c, e)
				dst.Kids = append(dst.Kids, e)
			}
		}
	}
	var body *html.Node
	var find func(*html.Node)
	find = func(n *html.Node) {
		if n.Type == html.ElementNode && n.Data == "body" {
			body = n
			return
		}
		for c := n.FirstChild; c != nil && body == nil; c = c.NextSibling {
			find(c)
		}
	}
	find(doc)
	if body == nil {
		return nil
	}
	conv(body, root)
	return root
}

// shrinkTree reduces t while bad(html) stays true.
func shrinkTree(t *N, bad func(string) bool, budget int) *N {
	cur := t
	try := func(c *N) bool {
		if budget <= 0 {
			return false
		}
		budget--
		return bad(c.HTML())
	}
	for changed := true; changed && budget > 0; {
		changed = false
		// enumerate edits by path
		type edit func(root *N) bool
		count := 0
		cur.walk(func(*N) { count++ })
		for i := 0; i < count && budget > 0; i++ {
			for kind := 0; kind < 5; kind++ {
				c := cur.clone()
				var parent, node *N
				pi, k := -1, 0
				var find func(p *N)
				find = func(p *N) {
					for j, q := range p.Kids {
						k++
						if k == i && node == nil {
							parent, node, pi = p, q, j
						}
						find(q)
					}
				}
				find(c)
				if node == nil {
					break
				}
				ok := false
				switch kind {
				case 0: // delete
					parent.Kids = append(parent.Kids[:pi:pi], parent.Kids[pi+1:]...)
					ok = true
				case 1: // hoist children
					if node.Tag != "" && len(node.Kids) > 0 {
						parent.Kids = append(parent.Kids[:pi:pi], append(append([]*N{}, node.Kids...), parent.Kids[pi+1:]...)...)
						ok = true
					}
				case 2: // drop attributes
					if len(node.Attr) > 0 {
						node.Attr = node.Attr[:len(node.Attr)-1]
						ok = true
					}
				case 3, 4: // halve text
					if len(node.Text) > 1 {
						h := len(node.Text) / 2
						for h > 0 && h < len(node.Text) && node.Text[h]&0xC0 == 0x80 {
							h++
						}
						if kind == 3 {
							node.Text = node.Text[:h]
						} else {
							node.Text = node.Text[h:]
						}
						ok = true
					}
				}
				if ok && c.HTML() != cur.HTML() && try(c) {
					cur = c
					changed = true
					cnt := 0
					cur.walk(func(*N) { cnt++ })
					count = cnt
					i--
					break
				}
			}
			if i < 0 {
				i = -1
			}
		}
		// drop single characters of texts
		if !changed {
			var texts []int
			k := 0
			cur.walk(func(n *N) {
				if n.Tag == "" && len(n.Text) > 1 && len(n.Text) < 80 {
					texts = append(texts, k)
				}
				k++
			})
			for _, ti := range texts {
				for pos := 0; budget > 0; pos++ {
					c := cur.clone()
					k := 0
					var n *N
					c.walk(func(x *N) {
						if k == ti {
							n = x
						}
						k++
					})
					rs := []rune(n.Text)
					if pos >= len(rs) || len(rs) < 2 {
						break
					}
					n.Text = string(append(append([]rune{}, rs[:pos]...), rs[pos+1:]...))
					if try(c) {
						cur = c
						changed = true
						pos--
					}
				}
			}
		}
	}
	return cur
}

func shrinkViolation(c *Check, v *Violation) {
	cfg := *v.Cfg
	deadline := time.Now().Add(20 * time.Second)
	bad := func(h string) (r bool) {
		if time.Now().After(deadline) {
			return false
		}
		defer func() {
			if p := recover(); p != nil {
				r = false
			}
		}()
		return (c.AnyShape || shrinkable(h, cfg)) && c.Probe(h, cfg) != ""
	}
	if !bad(v.HTML) {
		return
	}
	t := fromHTML(v.HTML)
	if t == nil || !bad(t.HTML()) {
		return
	}
	s := shrinkTree(t, bad, 3000)
	// simplify the configuration
	for _, f := range []func(*Cfg){
		func(c *Cfg) { c.Em = "" }, func(c *Cfg) { c.Strong = "" }, func(c *Cfg) { c.Rule = "" }, func(c *Cfg) { c.Bullet = "" },
		func(c *Cfg) { c.Fence = "" }, func(c *Cfg) { c.Heading = "" }, func(c *Cfg) { c.NoEnd, c.EndOn = false, false },
		func(c *Cfg) { c.Href = "" }, func(c *Cfg) { c.Content = "" }, func(c *Cfg) { c.Escape = "" }, func(c *Cfg) { c.Strike = false; c.StrikeDelim = "" },
		func(c *Cfg) { c.Span = "" }, func(c *Cfg) { c.Newline = "" }, func(c *Cfg) { c.Padding = "" }, func(c *Cfg) { c.SkipEmpty = false },
		func(c *Cfg) { c.Promote = false }, func(c *Cfg) { c.Present = false }, func(c *Cfg) { c.Table = false }, func(c *Cfg) { c.Domain = "" },
	} {
		k := cfg
		f(&k)
		old := cfg
		cfg = k
		if !bad(s.HTML()) {
			cfg = old
		}
	}
	h := s.HTML()
	what := c.Probe(h, cfg)
	if what == "" {
		return
	}
	v.What = "(shrunk) " + what
	v.HTML = h
	v.Cfg = &cfg
}

// shrinkable keeps the shrinker away from shapes that the monitors exclude.
func shrinkable(h string, cfg Cfg) bool {
	doc := parseHTML(h)
	ok := true
	var f func(n *html.Node)
	f = func(n *html.Node) {
		if n.Type == html.ElementNode {
			switch n.Data {
			case "table":
				if !cfg.Table || !strings.Contains(h, "<th") {
					ok = false
				}
			case "del", "s", "strike", "em", "i", "b", "strong":
				t := strings.TrimSpace(codeText(n))
				if t == "" || strings.HasPrefix(t, "~") || strings.HasSuffix(t, "~") {
					ok = false
				}
			case "li", "a", "h1", "h2", "h3", "h4", "h5", "h6", "td", "th":
				if n.FirstChild == nil {
					ok = false
				}
			case "ul", "ol":
				if n.FirstChild == nil || n.FirstChild.Data != "li" {
					ok = false
				}
			case "br":
				if n.PrevSibling == nil || n.NextSibling == nil || n.PrevSibling.Data == "br" {
					ok = false
				}
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(doc)
	return ok && !(cfg.NoEnd && strings.Count(h, "<ul")+strings.Count(h, "<ol") > 1)
}

// normURL is a destination up to percent-encoding.
func normURL(s string) string {
	s = strings.TrimSpace(s)
	f := ""
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s, f = s[:i], s[i:]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		s = s[:i] + strings.ReplaceAll(s[i:], "+", " ")
	}
	s += f
	return pctDecode(s)
}

func pctDecode(s string) string {
	if d, err := url.PathUnescape(s); err == nil {
		return d
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if d, err := url.PathUnescape(s[i : i+3]); err == nil {
				b.WriteString(d)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func shuffle[X any](r *rand.Rand, xs []X) {
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
}
