package main

// C08: option values are either honoured or rejected. The expected output of a
// document made of simple constructs is computed by a small model of every
// documented option and compared exactly; values outside the documented sets
// must be rejected by name.

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// w8 is a unique word of varying width, all of it plain letters.
func w8(g *G) string {
	s := g.token()
	if g.long > 0 && chance(g.r, 0.3) {
		return s + strings.Repeat("a", scale(g.r, 3, g.long))
	}
	if chance(g.r, 0.3) {
		s += pick(g.r, []string{"aa", "aaaa", "éé", "日本"})
	}
	return s
}

func or(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// part is one block: the HTML and what it converts to.
type part struct{ html, md string }

func c08grid(cfg Cfg, rows [][]string, caption string) string {
	cols := 0
	for _, r := range rows {
		cols = max(cols, len(r))
	}
	width := make([]int, cols)
	for i := range width {
		width[i] = 1
	}
	for _, r := range rows {
		for i, c := range r {
			width[i] = max(width[i], len([]rune(c)))
		}
	}
	pad := or(cfg.Padding, "aligned")
	var b strings.Builder
	for i, r := range rows {
		for j := 0; j < cols; j++ {
			c := ""
			if j < len(r) {
				c = r[j]
			}
			if j == 0 {
				b.WriteString("|")
			}
			switch pad {
			case "aligned":
				b.WriteString(" " + c + strings.Repeat(" ", width[j]-len([]rune(c))) + " |")
			case "minimal":
				b.WriteString(" " + c + " |")
			default:
				if strings.HasSuffix(c, "\\") {
					c += " " // otherwise the pipe is escaped
				}
				b.WriteString(c + "|")
			}
		}
		b.WriteString("\n")
		if i == 0 {
			for j := 0; j < cols; j++ {
				if j == 0 {
					b.WriteString("|")
				}
				if pad == "aligned" {
					b.WriteString(strings.Repeat("-", width[j]+2) + "|")
				} else {
					b.WriteString("---|")
				}
			}
			b.WriteString("\n")
		}
	}
	s := strings.TrimSuffix(b.String(), "\n")
	if caption != "" {
		s += "\n\n" + caption
	}
	return s
}

func c08table(g *G, cfg Cfg) part {
	r := g.r
	a, b, d, e, f, h := w8(g), w8(g), w8(g), w8(g), w8(g), w8(g)
	mirror := func(s string) string {
		if cfg.Span == "mirror" {
			return s
		}
		return ""
	}
	tr := func(tag string, cs ...string) string {
		s := "<tr>"
		for _, c := range cs {
			if strings.HasPrefix(c, "<") {
				s += c
			} else {
				s += "<" + tag + ">" + c + "</" + tag + ">"
			}
		}
		return s + "</tr>"
	}
	switch r.IntN(10) {
	case 8, 9:
		return c08rows(g, cfg)
	case 0:
		return part{"<table>" + tr("th", a, b) + tr("td", d, e) + "</table>", c08grid(cfg, [][]string{{a, b}, {d, e}}, "")}
	case 1:
		return part{"<table>" + tr("th", a, b) + tr("td", `<td colspan="2">`+d+"</td>") + tr("td", e, f) + "</table>", c08grid(cfg, [][]string{{a, b}, {d, mirror(d)}, {e, f}}, "")}
	case 2:
		return part{"<table>" + tr("th", a, b) + tr("td", `<td rowspan="2">`+d+"</td>", e) + tr("td", f) + "</table>", c08grid(cfg, [][]string{{a, b}, {d, e}, {mirror(d), f}}, "")}
	case 3:
		rows := [][]string{{a, b}, {"", ""}, {d, e}}
		if cfg.SkipEmpty {
			rows = [][]string{{a, b}, {d, e}}
		}
		return part{"<table>" + tr("th", a, b) + tr("td", "<td></td>", "<td> </td>") + tr("td", d, e) + "</table>", c08grid(cfg, rows, "")}
	case 4:
		rows := [][]string{{"", ""}, {a, b}, {d, e}}
		if cfg.Promote {
			rows = rows[1:]
		}
		return part{"<table>" + tr("td", a, b) + tr("td", d, e) + "</table>", c08grid(cfg, rows, "")}
	case 5:
		if cfg.Present {
			return part{`<table role="presentation">` + tr("th", a) + tr("td", b) + "</table>", c08grid(cfg, [][]string{{a}, {b}}, "")}
		}
		return part{`<table role="presentation">` + tr("th", a) + tr("td", b) + "</table>", a + "\n\n" + b}
	case 6:
		if cfg.Newline == "preserve" {
			return part{"<table>" + tr("th", a) + tr("td", "<td>"+b+"<br>"+d+"</td>") + "</table>", c08grid(cfg, [][]string{{a}, {b + "  <br />" + d}}, "")}
		}
		return part{"<table>" + tr("th", a) + tr("td", "<td><p>"+b+"</p><p>"+d+"</p></td>") + "</table>", a + "\n\n" + b + "\n\n" + d}
	default:
		return part{"<table><caption>" + h + "</caption>" + tr("th", a, b) + tr("td", d, e) + "</table>", c08grid(cfg, [][]string{{a, b}, {d, e}}, h)}
	}
}

// c08rows: a table with many rows, of which some are empty, under all the
// options about rows and spans together.
func c08rows(g *G, cfg Cfg) part {
	r := g.r
	cols, n := 1+r.IntN(4), 1+r.IntN(pick(r, []int{3, 8, 30}))
	header := chance(r, 0.5)
	rows := [][]string{}
	if !header {
		rows = append(rows, make([]string, cols))
	}
	src := "<table>"
	filled := false
	for y := 0; y < n; y++ {
		row := make([]string, cols)
		hasText := chance(r, 0.6) || y == n-1 && !filled
		src += "<tr>"
		tag := "td"
		if y == 0 && header {
			tag = "th"
		}
		for x := 0; x < cols; x++ {
			span := 1
			if chance(r, 0.2) {
				span = 1 + r.IntN(cols-x)
			}
			if hasText && (chance(r, 0.6) || !filled) {
				row[x] = g.token()
				filled = true
			}
			if span == 1 {
				src += "<" + tag + ">" + row[x] + "</" + tag + ">"
			} else {
				src += fmt.Sprintf("<%s colspan=%d>%s</%s>", tag, span, row[x], tag)
			}
			for k := 1; k < span; k++ {
				if cfg.Span == "mirror" {
					row[x+k] = row[x]
				}
			}
			x += span - 1
		}
		src += "</tr>"
		rows = append(rows, row)
	}
	empty := func(row []string) bool { return strings.Join(row, "") == "" }
	if cfg.SkipEmpty {
		k := rows[:1:1]
		for _, row := range rows[1:] {
			if !empty(row) {
				k = append(k, row)
			}
		}
		rows = k
	}
	if cfg.Promote && empty(rows[0]) {
		rows = rows[1:]
	}
	return part{src + "</table>", c08grid(cfg, rows, "")}
}

// c08inside is what a quote or an item may hold: blocks that are no lists.
func c08inside(g *G, cfg Cfg) (html, md string) {
	var m []string
	for n := 1 + g.r.IntN(3); n > 0; {
		p, list := c08part(g, cfg)
		if list {
			continue
		}
		n--
		html += p.html
		m = append(m, p.md)
	}
	return html, strings.Join(m, "\n\n")
}

func c08part(g *G, cfg Cfg) (p part, list bool) {
	r := g.r
	em, st, bul, fence := or(cfg.Em, "*"), or(cfg.Strong, "**"), or(cfg.Bullet, "-"), or(cfg.Fence, "```")
	a, b, d := w8(g), w8(g), w8(g)
	for {
		switch r.IntN(13) {
		case 11: // the options hold inside of quotes and items just as well
			h, m := c08inside(g, cfg)
			return part{"<blockquote>" + h + "</blockquote>", "> " + strings.ReplaceAll(m, "\n", "\n> ")}, false
		case 12:
			h, m := c08inside(g, cfg)
			if chance(r, 0.5) {
				n := pick(r, []int{0, 1, 7, 10, 123, 999999999})
				mark := fmt.Sprintf("%d. ", n)
				return part{fmt.Sprintf(`<ol start="%d"><li>%s</li></ol>`, n, h), mark + strings.ReplaceAll(m, "\n", "\n"+strings.Repeat(" ", len(mark)))}, true
			}
			// the bullet and a rule of the same character would be one rule
			first, rest, more := strings.Cut(m, "\n")
			if bul != "+" && strings.HasPrefix(h, "<hr>") && strings.HasPrefix(first, bul) {
				other := "*"
				if bul == "*" {
					other = "-"
				}
				first = strings.ReplaceAll(first, bul, other)
			}
			if more {
				first += "\n" + rest
			}
			return part{"<ul><li>" + h + "</li></ul>", bul + " " + strings.ReplaceAll(first, "\n", "\n  ")}, true
		case 0:
			n := 1 + r.IntN(6)
			h := fmt.Sprintf("<h%d>%s %s</h%d>", n, a, b, n)
			if cfg.Heading == "setext" && n < 3 {
				u := "="
				if n == 2 {
					u = "-"
				}
				t := a + " " + b
				return part{h, t + "\n" + strings.Repeat(u, max(3, len([]rune(t))))}, false
			}
			return part{h, strings.Repeat("#", n) + " " + a + " " + b}, false
		case 1:
			t := pick(r, []string{"em", "i"})
			return part{"<p>" + a + " <" + t + ">" + b + "</" + t + "> " + d + "</p>", a + " " + em + b + em + " " + d}, false
		case 2:
			t := pick(r, []string{"strong", "b"})
			return part{"<p>" + a + " <" + t + ">" + b + "</" + t + "> " + d + "</p>", a + " " + st + b + st + " " + d}, false
		case 3:
			return part{"<hr>", strings.TrimSpace(or(cfg.Rule, "* * *"))}, false
		case 4:
			return part{"<ul><li>" + a + "</li><li>" + b + "</li></ul>", bul + " " + a + "\n" + bul + " " + b}, true
		case 5:
			n := pick(r, []int{0, 1, 3, 41})
			return part{fmt.Sprintf(`<ol start="%d"><li>%s</li><li>%s</li></ol>`, n, a, b), fmt.Sprintf("%d. %s\n%d. %s", n, a, n+1, b)}, true
		case 6:
			code := pick(r, []string{a, a + "\n" + b, "  " + a + "\n\n" + b, fence + "\n" + a, a + "\n" + fence + fence[:1] + "\n" + b})
			f := fence
			run, best := 0, 0
			for _, ch := range code {
				if ch == rune(fence[0]) {
					run++
					best = max(best, run)
				} else {
					run = 0
				}
			}
			if best >= 3 {
				f = strings.Repeat(fence[:1], best+1)
			}
			return part{`<pre><code class="language-go">` + code + "</code></pre>", f + "go\n" + code + "\n" + f}, false
		case 7: // links without a destination
			if cfg.Href == "skip" {
				return part{"<p>" + a + ` <a href="">` + b + "</a> " + d + "</p>", a + " " + b + " " + d}, false
			}
			return part{"<p>" + a + ` <a href="">` + b + "</a> " + d + "</p>", a + " [" + b + "]() " + d}, false
		case 8: // links without content
			if cfg.Content == "skip" {
				return part{"<p>" + a + ` <a href="/` + b + `"></a> ` + d + "</p>", a + " " + d}, false
			}
			// the spaces around the empty link collapse into the first
			b = g.token()
			return part{"<p>" + a + ` <a href="/` + b + `"></a> ` + d + "</p>", a + " [](/" + b + ")" + d}, false
		case 9:
			t := pick(r, []string{"del", "s", "strike"})
			dl := ""
			if cfg.Strike {
				dl = or(cfg.StrikeDelim, "~~")
			}
			return part{"<p>" + a + " <" + t + ">" + b + "</" + t + "> " + d + "</p>", a + " " + dl + b + dl + " " + d}, false
		case 10:
			if !cfg.Table {
				continue
			}
			return c08table(g, cfg), false
		}
	}
}

// c08conv builds the converter with every option given explicitly, in random
// order and sometimes after another value of the same option.
func c08conv(r *rand.Rand, cfg Cfg) *converter.Converter {
	var o []commonmark.OptionFunc
	add := func(v string, set []string, f func(string) commonmark.OptionFunc) {
		if v == "" {
			if chance(r, 0.2) {
				o = append(o, f(""))
			}
			return
		}
		if chance(r, 0.2) {
			o = append(o, f(pick(r, set)))
		}
		o = append(o, f(v))
	}
	var fs []func()
	fs = append(fs,
		func() { add(cfg.Em, emDelims, commonmark.WithEmDelimiter) },
		func() { add(cfg.Strong, strongDelim, commonmark.WithStrongDelimiter) },
		func() { add(cfg.Rule, rules, commonmark.WithHorizontalRule) },
		func() { add(cfg.Bullet, bullets, commonmark.WithBulletListMarker) },
		func() { add(cfg.Fence, fences, commonmark.WithCodeBlockFence) },
		func() {
			if cfg.Heading == "setext" {
				o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
			} else if cfg.Heading == "atx" {
				o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleATX))
			}
		},
		func() {
			if cfg.NoEnd {
				o = append(o, commonmark.WithListEndComment(false))
			} else if cfg.EndOn {
				o = append(o, commonmark.WithListEndComment(false), commonmark.WithListEndComment(true))
			}
		},
		func() {
			switch cfg.Href {
			case "skip":
				o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
			case "render":
				o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorRender))
			}
		},
		func() {
			switch cfg.Content {
			case "skip":
				o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
			case "render":
				o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorRender))
			}
		})
	shuffle(r, fs)
	for _, f := range fs {
		f()
	}
	ps := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(o...)}
	if cfg.Strike {
		ps = append(ps, cfg.StrikePlugin())
	}
	if cfg.Table {
		var t = tableOpts(table.WithSkipEmptyRows(cfg.SkipEmpty), table.WithHeaderPromotion(cfg.Promote), table.WithPresentationTables(cfg.Present))
		if cfg.Span != "" {
			t = append(t, table.WithSpanCellBehavior(table.SpanCellBehavior(cfg.Span)))
		}
		if cfg.Newline != "" {
			t = append(t, table.WithNewlineBehavior(table.NewlineBehavior(cfg.Newline)))
		}
		if cfg.Padding != "" {
			t = append(t, table.WithCellPaddingBehavior(table.CellPaddingBehavior(cfg.Padding)))
		}
		shuffle(r, t)
		ps = append(ps, table.NewTablePlugin(t...))
	}
	shuffle(r, ps)
	return converter.NewConverter(converter.WithPlugins(ps...))
}

func c08honour(c *Case) {
	r := c.R
	cfg := randCfg(r, pick(r, []float64{0.1, 0.5, 0.9}))
	cfg.Escape = ""
	if cfg.Strike && chance(r, 0.5) {
		cfg.StrikeDelim = pick(r, []string{"~", "~~"})
	}
	g := newG(r, cfg)
	var html, md []string
	wasList := false
	n := c.many(1+r.IntN(8), 500)
	for i := 0; i < n; i++ {
		g.long = 0
		if c.Stream == "large" && n < 10 {
			g.long = 5000
		}
		p, list := c08part(g, cfg)
		if list && wasList && !cfg.NoEnd {
			md = append(md, "<!--THE END-->")
		}
		wasList = list
		html = append(html, p.html)
		md = append(md, p.md)
	}
	src, want := strings.Join(html, ""), strings.Join(md, "\n\n")
	c.lastHTML, c.lastCfg = src, &cfg
	out, err := c08conv(r, cfg).ConvertString(src)
	if err != nil {
		c.Fail(src, &cfg, "documented option values were rejected: %v", err)
	}
	if out != want {
		c.Fail(src, &cfg, "the options are not honoured:\n  expected %s\n  got      %s", quote(want), quote(out))
	}
	c.Obs("blocks_compared", n)
	c.Seen(src + cfg.String())
	c.Sample("%s -> %s", cfg, quote(out))
}

// near produces values close to a documented one.
func near(r *rand.Rand, set []string) string {
	v := pick(r, set)
	switch r.IntN(9) {
	case 0:
		return v + " "
	case 1:
		return " " + v
	case 2:
		return strings.ToUpper(v)
	case 3:
		return v + v
	case 4:
		return v[:len(v)-1]
	case 5:
		return v + pick(r, []string{"x", "\n", "\x00", "`", "*", "-"})
	case 6:
		return pick(r, []string{"﹡", "＊", "‗", "–", "—", "•", "´´´", "true", "0", "default", "false", " ", "\t", "\"", "'", "%s"})
	case 7:
		s := ""
		for k := 1 + r.IntN(5); k > 0; k-- {
			s += pick(r, []string{"*", "_", "-", "+", "~", "`", "a", " ", "=", "#"})
		}
		return s
	default:
		return strings.Join(set, "")
	}
}

func letters(s string) string {
	return strings.Map(func(c rune) rune {
		if unicode.IsLetter(c) {
			return unicode.ToLower(c)
		}
		return -1
	}, s)
}

// ruleOK: the trusted reader sees exactly one thematic break on one line.
func ruleOK(v string) bool {
	if strings.ContainsAny(v, "\n\r") {
		return false
	}
	return strings.TrimSpace(mdToHTML(Cfg{}, v)) == "<hr>" || strings.TrimSpace(mdToHTML(Cfg{}, v)) == "<hr />"
}

func c08reject(c *Case) {
	r := c.R
	type opt struct {
		name string
		set  []string
		mk   func(v string) converter.Plugin
	}
	cm := func(f func(string) commonmark.OptionFunc) func(v string) converter.Plugin {
		return func(v string) converter.Plugin { return commonmark.NewCommonmarkPlugin(f(v)) }
	}
	opts := []opt{
		{"EmDelimiter", emDelims, cm(commonmark.WithEmDelimiter)},
		{"StrongDelimiter", strongDelim, cm(commonmark.WithStrongDelimiter)},
		{"HorizontalRule", rules, cm(commonmark.WithHorizontalRule)},
		{"BulletListMarker", bullets, cm(commonmark.WithBulletListMarker)},
		{"CodeBlockFence", fences, cm(commonmark.WithCodeBlockFence)},
		{"HeadingStyle", styles, func(v string) converter.Plugin {
			return commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle(conv0(commonmark.HeadingStyleATX, v)))
		}},
		{"LinkEmptyHrefBehavior", behaviours, func(v string) converter.Plugin {
			return commonmark.NewCommonmarkPlugin(commonmark.WithLinkEmptyHrefBehavior(conv0(commonmark.LinkBehaviorSkip, v)))
		}},
		{"LinkEmptyContentBehavior", behaviours, func(v string) converter.Plugin {
			return commonmark.NewCommonmarkPlugin(commonmark.WithLinkEmptyContentBehavior(conv0(commonmark.LinkBehaviorSkip, v)))
		}},
		{"span cell behavior", spans[1:], func(v string) converter.Plugin {
			return table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(v)))
		}},
		{"newline behavior", newlinesB[1:], func(v string) converter.Plugin {
			return table.NewTablePlugin(table.WithNewlineBehavior(table.NewlineBehavior(v)))
		}},
		{"cell padding behavior", paddings[1:], func(v string) converter.Plugin {
			return table.NewTablePlugin(table.WithCellPaddingBehavior(table.CellPaddingBehavior(v)))
		}},
	}
	o := pick(r, opts)
	v := near(r, o.set)
	if chance(r, 0.1) {
		v = pick(r, o.set)
	}
	if v == "" {
		return
	}
	valid := false
	for _, s := range o.set {
		valid = valid || s == v
	}
	if o.name == "HorizontalRule" {
		valid = ruleOK(v)
	}
	p := o.mk(v)
	ps := []converter.Plugin{base.NewBasePlugin()}
	if p.Name() != "commonmark" {
		ps = append(ps, commonmark.NewCommonmarkPlugin())
	}
	ps = append(ps, p)
	if chance(r, 0.5) {
		ps = append(ps, strikethrough.NewStrikethroughPlugin())
	}
	shuffle(r, ps)
	src := "<p>qa</p><hr><p>qb</p>"
	conv := converter.NewConverter(converter.WithPlugins(ps...))
	for k := 0; k < 2; k++ {
		out, err := conv.ConvertString(src)
		if valid {
			if err != nil {
				c.Fail(src, nil, "%s: the documented value %q is rejected: %v", o.name, v, err)
			}
			if o.name == "HorizontalRule" && strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(out, "qa\n\n"), "\n\nqb")) != strings.TrimSpace(v) {
				c.Fail(src, nil, "%s %q is not used verbatim: %q", o.name, v, out)
			}
			c.Obs("values_accepted", 1)
			continue
		}
		if err == nil {
			c.Fail(src, nil, "%s: the value %q is not documented but accepted, output %q", o.name, v, out)
		}
		if out != "" {
			c.Fail(src, nil, "%s: the value %q is rejected (%v) but there is output %q", o.name, v, err, out)
		}
		m := err.Error()
		if !strings.Contains(letters(m), letters(o.name)) {
			c.Fail(src, nil, "%s: the error %q does not name the option", o.name, m)
		}
		if !strings.Contains(m, fmt.Sprintf("%q", v)) && !strings.Contains(m, v) {
			c.Fail(src, nil, "%s: the error %q does not name the value %q", o.name, m, v)
		}
		c.Obs("values_rejected", 1)
	}
	c.Seen(o.name + v)
	c.Sample("%s %q valid=%v", o.name, v, valid)
}

// conv0 makes a value of the unexported string type of like.
func conv0[S ~string](like S, v string) S { return S(v) }

func init() {
	register(&Check{ID: "C08",
		Rule: "documents of up to 8 simple blocks under random combinations of all documented values of all options (given in random order, repeated with the last value counting, plugins in random order), compared exactly with the output a model of the options predicts; and for each option values next to the documented ones (case, spaces, doubled, cut, look-alike characters), which must be rejected by name and value; which rules are thematic breaks is decided by goldmark; distinct by document and configuration or by option and value",
		Streams: []Stream{
			{Name: "honour", N: 40000, NT: 1000000, F: c08honour},
			large(4000, c08honour),
			{Name: "reject", N: 12000, NT: 100000, F: c08reject},
		}})
}
