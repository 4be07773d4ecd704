package main

import (
	"math"
	"math/rand/v2"
	"strings"
)

// Scale workloads: one dimension of a generated document is made large, so
// that behaviour which depends on a size or a count is executed on both sides
// of wherever a threshold may lie.

// scale draws a size between lo and hi, evenly over the orders of magnitude,
// with a preference for round numbers and their neighbours.
func scale(r *rand.Rand, lo, hi int) int {
	x := math.Exp(math.Log(float64(lo)) + r.Float64()*(math.Log(float64(hi))-math.Log(float64(lo))))
	n := int(x)
	if chance(r, 0.3) {
		p := 1
		for p*2 <= n {
			p *= 2
		}
		n = p + r.IntN(3) - 1
	} else if chance(r, 0.15) {
		p := 1
		for p*10 <= n {
			p *= 10
		}
		n = p*(1+r.IntN(9)) + r.IntN(3) - 1
	}
	return min(max(n, lo), hi)
}

// large is the scale workload over the given generators.
func large(n int, fs ...func(*Case)) Stream {
	return Stream{Name: "large", N: n, NT: n * 15, F: func(c *Case) { fs[c.Idx%len(fs)](c) }}
}

// many is a count: the small one, or a large one in the scale workload.
func (c *Case) many(small, hi int) int {
	if c.Stream != "large" || chance(c.R, 0.5) {
		return small
	}
	return scale(c.R, 4, hi)
}

// grownDoc is the source of a document with one dimension made large.
func grownDoc(r *rand.Rand, cfg Cfg) string {
	g := newG(r, cfg)
	g.hostile = pick(r, []float64{0, 0, 0.2, 0.6})
	d := g.doc()
	g.n = 100000
	g.grow(d, nil)
	return d.HTML()
}

// doc is a generated document, with one dimension made large in the scale workload.
func (c *Case) doc(g *G) *N {
	d := g.doc()
	c.grow(g.cfg, d)
	return d
}

// grow makes one dimension of the document large when the case belongs to the
// scale workload, and says which.
func (c *Case) grow(cfg Cfg, root *N) {
	if !strings.HasPrefix(c.Stream, "large") {
		return
	}
	g := newG(c.R, cfg)
	g.n = 100000
	if what, n := g.grow(root, focusTags[c.run.Check.ID]); what != "" {
		c.Obs("grown_"+what, 1)
		k := c.run
		k.mu.Lock()
		if int64(n) > k.counts["max_"+what] {
			k.counts["max_"+what] = int64(n)
		}
		k.mu.Unlock()
	}
}

// focusTags are the elements that a property is about.
var focusTags = map[string][]string{
	"C15": {"h1", "h2", "h3", "h4", "h5", "h6"},
	"C16": {"em", "i", "strong", "b"},
	"C17": {"a", "img"},
	"C18": {"a", "img"},
	"C19": {"code", "kbd", "samp", "var", "tt"},
	"C20": {"pre"},
	"C21": {"ul", "ol"},
	"C22": {"blockquote"},
	"C23": {"table"},
	"C24": {"del", "s", "strike"},
}

type place struct {
	n, up *N
	anc   string // " div p " …
}

func places(root *N) (out []place) {
	var f func(n, up *N, anc string)
	f = func(n, up *N, anc string) {
		out = append(out, place{n, up, anc})
		for _, k := range n.Kids {
			f(k, n, anc+n.Tag+" ")
		}
	}
	f(root, nil, " ")
	return
}

func (p place) in(tags ...string) bool {
	for _, t := range tags {
		if strings.Contains(p.anc, " "+t+" ") {
			return true
		}
	}
	return false
}

func (p place) code() bool { return p.in("pre", "code", "kbd", "samp", "var", "tt") }

// words yields about n bytes of plain words.
func (g *G) words(n int) string {
	var b strings.Builder
	for b.Len() < n {
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(g.token())
		if n > 5000 { // cheap filler
			b.WriteString(strings.Repeat("x", min(n/500, 60)))
		}
	}
	return b.String()
}

var growDims = []string{"text", "text", "word", "attr", "attr", "space", "items", "items", "items", "depth", "depth", "breaks", "pre", "inlines"}

func (g *G) grow(root *N, focus []string) (string, int) {
	for try := 0; try < 30; try++ {
		d := pick(g.r, growDims)
		if n := g.growDim(root, d, focus); n > 0 {
			return d, n
		}
	}
	return "", 0
}

func (g *G) growDim(root *N, dim string, focus []string) int {
	ps := places(root)
	one := func(ok func(p place) bool) (place, bool) {
		var c []place
		for _, p := range ps {
			if ok(p) {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			return place{}, false
		}
		if len(focus) > 0 && chance(g.r, 0.7) {
			var d []place
			for _, p := range c {
				if strings.Contains(" "+strings.Join(focus, " ")+" ", " "+p.n.Tag+" ") && p.n.Tag != "" || p.in(focus...) {
					d = append(d, p)
				}
			}
			if len(d) > 0 {
				return pick(g.r, d), true
			}
			if chance(g.r, 0.7) {
				return place{}, false
			}
		}
		return pick(g.r, c), true
	}
	isText := func(p place) bool { return p.n.Tag == "" && strings.TrimSpace(p.n.Text) != "" }
	switch dim {
	case "text": // many words between the two ends of a text
		p, ok := one(isText)
		if !ok {
			return 0
		}
		n := scale(g.r, 30, 1<<17)
		if p.in("table") {
			n = scale(g.r, 30, 20000)
		}
		w := " " + g.words(n) + " "
		if !p.code() && chance(g.r, 0.4) {
			// Markdown-like pieces now and then, some at the start of a line
			ws := strings.Fields(w)
			for i := range ws {
				if i > 0 && i < len(ws)-1 && chance(g.r, 0.1) {
					ws[i] = pick(g.r, []string{" ", " ", "\n"}) + pick(g.r, hostileAtoms)
				}
			}
			w = " " + strings.Join(ws, " ") + " "
		}
		if i := strings.IndexByte(p.n.Text, ' '); i > 0 && i < len(p.n.Text)-1 {
			p.n.Text = p.n.Text[:i] + w + p.n.Text[i+1:]
		} else if plainEdge(p.n.Text) {
			p.n.Text += w + p.n.Text
		} else {
			return 0
		}
		return n
	case "word": // one long word
		p, ok := one(func(p place) bool { return isText(p) && strings.Contains(p.n.Text, "q") })
		if !ok {
			return 0
		}
		n := scale(g.r, 30, 1<<16)
		if p.in("table") {
			n = scale(g.r, 30, 10000)
		}
		p.n.Text = strings.Replace(p.n.Text, "q", "q"+strings.Repeat("a", n), 1)
		return n
	case "attr":
		p, ok := one(func(p place) bool { return len(p.n.Attr) > 0 })
		if !ok {
			return 0
		}
		a := &p.n.Attr[g.r.IntN(len(p.n.Attr))]
		n := scale(g.r, 30, 30000)
		switch a[0] {
		case "href", "src":
			switch {
			case strings.TrimSpace(a[1]) == "" || !strings.Contains(a[1], "q"):
				return 0
			case strings.ContainsAny(a[1], "?#%") || strings.HasPrefix(a[1], "mailto:"):
				a[1] = strings.TrimRight(a[1], " \n") + strings.Repeat("a", n)
			case chance(g.r, 0.5):
				k := scale(g.r, 10, 2000)
				a[1] = strings.TrimRight(a[1], " \n") + "?p=1" + strings.Repeat("&p=1", k)
				return 4 * k
			default:
				a[1] = strings.TrimRight(a[1], " \n") + strings.Repeat("/"+strings.Repeat("a", 1+g.r.IntN(60)), 1+n/30)
			}
		case "title", "alt":
			i := strings.IndexByte(a[1], ' ')
			if i <= 0 || i == len(a[1])-1 {
				if !plainEdge(a[1]) {
					return 0
				}
				a[1] += " " + g.words(n) + " " + a[1]
			} else {
				a[1] = a[1][:i] + " " + g.words(n) + " " + a[1][i+1:]
			}
		case "class":
			if p.n.Tag == "code" && strings.HasPrefix(a[1], "lang") && plainEdge(a[1]) {
				a[1] += strings.Repeat("x", n)
				return n
			}
			a[1] += strings.Repeat(" c"+g.token(), n/8)
		default:
			return 0
		}
		return n
	case "space":
		p, ok := one(func(p place) bool {
			return p.n.Tag == "" && !p.code() && strings.ContainsAny(p.n.Text, " \n")
		})
		if !ok {
			return 0
		}
		n := scale(g.r, 10, 20000)
		i := strings.IndexAny(p.n.Text, " \n")
		ws := strings.Repeat(pick(g.r, []string{" ", " ", "\n", "\t", " \n", "\n\t  "}), n)
		ws = ws[:n]
		if !strings.Contains(p.n.Text[:i], "q") && strings.TrimSpace(p.n.Text[:i]) == "" && g.cfg.Newline == "preserve" {
			return 0
		}
		p.n.Text = p.n.Text[:i] + ws + p.n.Text[i+1:]
		return n
	case "items":
		p, ok := one(func(p place) bool {
			switch p.n.Tag {
			case "ul", "ol", "blockquote", "div", "section", "article", "table", "tbody", "#root", "dd":
				return !p.code() && len(p.n.Kids) > 0
			}
			return false
		})
		if !ok {
			return 0
		}
		n := scale(g.r, 8, 4000)
		if p.in("table") && p.n.Tag != "table" && p.n.Tag != "tbody" {
			return 0
		}
		var more []*N
		switch p.n.Tag {
		case "ul", "ol":
			for i := 0; i < n; i++ {
				more = append(more, E("li", T(g.token())))
			}
			i := g.r.IntN(len(p.n.Kids) + 1)
			p.n.Kids = append(p.n.Kids[:i:i], append(more, p.n.Kids[i:]...)...)
			return n
		case "table", "tbody":
			return g.growTable(p, n)
		}
		for i := 0; i < n; i++ {
			more = append(more, E("p", T(g.token())))
		}
		if chance(g.r, 0.3) {
			for i := range more {
				if i%7 == 3 {
					more[i] = g.blockOf(pick(g.r, []string{"h3", "quote", "hr", "pre", "p2", "pbr"}))[0]
				}
			}
		}
		if chance(g.r, 0.5) {
			p.n.Kids = append(more, p.n.Kids...)
		} else {
			p.n.Kids = append(p.n.Kids, more...)
		}
		return n
	case "depth":
		n := scale(g.r, 4, 300)
		p, ok := one(func(p place) bool {
			switch p.n.Tag {
			case "", "#root", "#raw", "li", "td", "th", "tr", "thead", "tbody", "tfoot", "caption", "dt", "dd", "summary", "figcaption", "colgroup", "col":
				return false
			}
			return p.up != nil && !p.in("p", "h1", "h2", "h3", "h4", "h5", "h6", "table", "pre", "a", "em", "strong", "b", "i", "code", "del", "s", "strike", "span", "ul")
		})
		if !ok {
			return 0
		}
		blockish := map[string]bool{"p": true, "div": true, "ul": true, "ol": true, "blockquote": true, "pre": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "table": true, "section": true, "dl": true, "figure": true}
		kind := "div"
		switch {
		case !blockish[p.n.Tag]:
			kind = "span"
		case chance(g.r, 0.35):
			kind = "blockquote"
			n = scale(g.r, 4, 100)
		case chance(g.r, 0.35) && !g.cfg.NoEnd && p.n.Tag != "ul" && p.n.Tag != "ol":
			kind = "list"
			n = scale(g.r, 4, 40)
		}
		x := *p.n
		cur := &x
		for i := 0; i < n; i++ {
			switch kind {
			case "list":
				cur = E(pick(g.r, []string{"ul", "ol"}), E("li", T(g.token()), cur))
			default:
				cur = E(kind, cur)
			}
		}
		if p.in("ol", "blockquote") && kind == "list" {
			*p.n = *E("div", T(g.token()), cur)
		} else {
			*p.n = *cur
		}
		return n
	case "breaks": // many line breaks behind a text
		p, ok := one(func(p place) bool {
			return isText(p) && plainEdge(p.n.Text) && p.up != nil && p.up.Tag != "#root" && !p.code() &&
				!p.in("table", "h1", "h2", "h3", "h4", "h5", "h6", "caption") && !(p.in("em", "i") && p.in("strong", "b"))
		})
		if !ok {
			return 0
		}
		n := scale(g.r, 4, 2000)
		for i, k := range p.up.Kids {
			if k == p.n {
				var more []*N
				for j := 0; j < n; j++ {
					more = append(more, E("br"), T(g.token()))
				}
				p.up.Kids = append(p.up.Kids[:i+1:i+1], append(more, p.up.Kids[i+1:]...)...)
				break
			}
		}
		return n
	case "pre":
		p, ok := one(func(p place) bool { return p.n.Tag == "" && p.in("pre") && plainEdge(p.n.Text) })
		if !ok {
			return 0
		}
		n := scale(g.r, 100, 150000)
		s := p.n.Text + "\n"
		p.n.Text = strings.Repeat(s, 1+n/len(s)) + p.n.Text
		return n
	case "inlines": // many elements in a line
		p, ok := one(func(p place) bool {
			if p.in("table") || p.code() {
				return false
			}
			switch p.n.Tag {
			case "p", "li", "h1", "h2", "h3", "h4", "h5", "h6", "dt":
				return len(p.n.Kids) > 0
			}
			return false
		})
		if !ok {
			return 0
		}
		n := scale(g.r, 4, 1000)
		var more []*N
		for i := 0; i < n; i++ {
			more = append(more, T(g.token()+" "))
			switch i % 4 {
			case 0:
				more = append(more, E("em", T(g.token())))
			case 1:
				more = append(more, E("strong", T(g.token())))
			case 2:
				more = append(more, E("a", T(g.token())).A("href", "/"+g.token()))
			case 3:
				more = append(more, E("code", T(g.token())))
			}
			more = append(more, T(" "))
		}
		more = append(more, T(g.token()+" "))
		p.n.Kids = append(more, p.n.Kids...)
		return n
	}
	return 0
}

// growTable adds rows, or columns to every row.
func (g *G) growTable(p place, n int) int {
	var rows []*N
	ok := true
	p.n.walk(func(x *N) {
		if x.Tag == "tr" {
			rows = append(rows, x)
		}
		if len(x.Attr) > 0 && (x.Tag == "td" || x.Tag == "th") {
			for _, a := range x.Attr {
				if strings.Contains(a[0], "span") {
					ok = false
				}
			}
		}
	})
	if !ok || len(rows) == 0 {
		return 0
	}
	last := rows[len(rows)-1]
	if p.n.Tag == "table" && chance(g.r, 0.5) {
		n = min(n, 1000)
		for _, tr := range rows {
			if len(tr.Kids) == 0 {
				return 0
			}
			tag := tr.Kids[len(tr.Kids)-1].Tag
			for i := 0; i < n; i++ {
				tr.Kids = append(tr.Kids, E(tag, T(g.token())))
			}
		}
		return n
	}
	var up *N
	p.n.walk(func(x *N) {
		for _, k := range x.Kids {
			if k == last {
				up = x
			}
		}
	})
	if up == nil || up.Tag == "thead" || up.Tag == "tfoot" {
		return 0
	}
	cols := 0
	for _, k := range last.Kids {
		if k.Tag == "td" || k.Tag == "th" {
			cols++
		}
	}
	n = min(n, 2000)
	for i := 0; i < n; i++ {
		tr := E("tr")
		for j := 0; j < cols; j++ {
			tr.Kids = append(tr.Kids, E("td", T(g.token())))
		}
		up.Kids = append(up.Kids, tr)
	}
	return n
}

func plainEdge(s string) bool { return s != "" && wordEdge(s) }
