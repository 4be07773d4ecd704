package main

// C23: tables keep their grid. The reference lays the cells out with the HTML
// table model and writes the resulting grid as a plain table; a reader of the
// Markdown has to see that grid.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

type tcell struct {
	kids     []*N
	tag      string
	cs, rs   int
	align    string
	empty    bool
	newlines bool // content with a line break or several blocks
}

type tspec struct {
	groups  []string // kind of group: thead, tbody, tfoot
	rows    [][][]tcell
	caption []*N
	role    string
	implied bool // rows directly in the table
}

// spanned counts the positions that are there only because of spans. Far more
// of them than there are cells are too many for a table.
func (t *tspec) spanned() int {
	n := 0
	for _, g := range t.rows {
		for _, r := range g {
			for _, c := range r {
				n += max(c.cs, 1)*max(c.rs, 1) - 1
			}
		}
	}
	return n
}

// gslot is one position of the grid.
type gslot struct {
	c      *tcell
	anchor bool
}

// layout is the table model of HTML. ok is false when cells overlap.
// A cell of the last group that reaches below the table adds rows.
func (t *tspec) layout() (grid [][]*gslot, ok bool) {
	grid = [][]*gslot{}
	at := func(y, x int) *gslot {
		if y < len(grid) && x < len(grid[y]) {
			return grid[y][x]
		}
		return nil
	}
	put := func(y, x int, s *gslot) bool {
		for len(grid) <= y {
			grid = append(grid, nil)
		}
		for len(grid[y]) <= x {
			grid[y] = append(grid[y], nil)
		}
		if grid[y][x] != nil {
			return false
		}
		grid[y][x] = s
		return true
	}
	ok = true
	start := 0
	for gi, rows := range t.rows {
		for ri := range rows {
			y := start + ri
			for len(grid) <= y {
				grid = append(grid, nil)
			}
			x := 0
			for ci := range rows[ri] {
				c := &rows[ri][ci]
				for at(y, x) != nil {
					x++
				}
				rs := c.rs
				if gi != len(t.rows)-1 && rs > len(rows)-ri {
					rs = len(rows) - ri
				}
				for dy := 0; dy < rs; dy++ {
					for dx := 0; dx < c.cs; dx++ {
						if !put(y+dy, x+dx, &gslot{c, dx == 0 && dy == 0}) {
							ok = false
						}
					}
				}
				x += c.cs
			}
		}
		start += len(rows)
	}
	return grid, ok
}

// respell writes spans and alignments in other ways that mean the same.
func respell(r *rand.Rand, n *N) {
	for i := range n.Attr {
		switch a := &n.Attr[i]; a[0] {
		case "colspan", "rowspan":
			a[1] = spellInt(r, a[1])
		case "align":
			if chance(r, 0.2) {
				a[1] = pick(r, []string{strings.ToUpper(a[1]), strings.ToUpper(a[1][:1]) + a[1][1:]})
			}
		}
	}
	for _, k := range n.Kids {
		respell(r, k)
	}
}

func (t *tspec) html() *N {
	tab := E("table")
	if t.role != "" {
		tab.A("role", t.role)
	}
	if t.caption != nil {
		tab.Kids = append(tab.Kids, E("caption", t.caption...))
	}
	for gi, rows := range t.rows {
		g := E(t.groups[gi])
		for _, row := range rows {
			tr := E("tr")
			for i := range row {
				c := &row[i]
				e := E(c.tag, c.kids...)
				if c.cs > 1 {
					e.A("colspan", sprint(c.cs))
				}
				if c.rs > 1 {
					e.A("rowspan", sprint(c.rs))
				}
				if c.align != "" {
					e.A("align", c.align)
				}
				tr.Kids = append(tr.Kids, e)
			}
			g.Kids = append(g.Kids, tr)
		}
		if t.implied {
			tab.Kids = append(tab.Kids, g.Kids...)
		} else {
			tab.Kids = append(tab.Kids, g)
		}
	}
	return tab
}

// reference is the grid that a reader has to see, or nil if nothing is left of it.
func (t *tspec) reference(cfg Cfg) *N {
	grid, ok := t.layout()
	if !ok {
		return nil
	}
	type cell struct {
		kids  []*N
		empty bool
	}
	var out [][]cell
	header := t.groups[0] == "thead"
	for _, c := range t.rows[0][0] {
		if c.tag == "th" {
			header = true
		}
	}
	if !header {
		out = append(out, nil)
	}
	for _, r := range grid {
		row := make([]cell, len(r))
		for x := range row {
			row[x].empty = true
			if r[x] != nil && (r[x].anchor || cfg.Span == "mirror") {
				row[x] = cell{r[x].c.kids, r[x].c.empty}
			}
		}
		out = append(out, row)
	}
	blank := func(r []cell) bool {
		for _, c := range r {
			if !c.empty {
				return false
			}
		}
		return true
	}
	if cfg.SkipEmpty {
		k := out[:1:1]
		for _, r := range out[1:] {
			if !blank(r) {
				k = append(k, r)
			}
		}
		out = k
		if len(out) == 1 && blank(out[0]) {
			return nil
		}
	}
	if cfg.Promote && blank(out[0]) {
		out = out[1:]
	}
	if len(out) == 0 {
		return nil
	}
	// columns that only existed in skipped rows are gone
	width := 0
	for _, r := range out {
		width = max(width, len(r))
	}
	if width == 0 {
		return nil
	}
	for y := range out {
		for len(out[y]) < width {
			out[y] = append(out[y], cell{empty: true})
		}
	}
	var aligns []string
	for _, c := range t.rows[0][0] {
		for i := 0; i < c.cs; i++ {
			aligns = append(aligns, c.align)
		}
	}
	tab := E("table")
	if t.caption != nil {
		tab.Kids = append(tab.Kids, E("caption", t.caption...))
	}
	for _, r := range out {
		tr := E("tr")
		for x, c := range r {
			e := E("td")
			if !c.empty {
				e.Kids = c.kids
			}
			if x < len(aligns) && (aligns[x] == "left" || aligns[x] == "right" || aligns[x] == "center") {
				e.A("align", aligns[x])
			}
			tr.Kids = append(tr.Kids, e)
		}
		tab.Kids = append(tab.Kids, tr)
	}
	return tab
}

func genTable(r *rand.Rand, g *G, cfg Cfg) *tspec {
	t := &tspec{}
	ng := 1 + r.IntN(3)
	thead := chance(r, 0.5)
	if thead {
		t.groups = append(t.groups, "thead")
	}
	for len(t.groups) < ng || len(t.groups) == 0 {
		t.groups = append(t.groups, "tbody")
	}
	if len(t.groups) > 1 && chance(r, 0.3) {
		t.groups[len(t.groups)-1] = "tfoot"
	}
	t.implied = len(t.groups) == 1 && !thead && chance(r, 0.7)
	firstTh := thead || chance(r, 0.4)
	spanP := pick(r, []float64{0, 0.15, 0.35})
	emptyP := pick(r, []float64{0, 0.2, 0.7})
	cols := 1 + r.IntN(4)
	manyRows, span, longText := 0, 4, 0
	if g.long > 0 { // the scale workload
		switch r.IntN(5) {
		case 0, 1:
			cols = scale(r, 4, 300)
		case 2:
			manyRows = scale(r, 4, 600)
		case 3:
			span = scale(r, 4, 40)
		case 4:
			longText = scale(r, 30, g.long)
		}
	}
	shortP := pick(r, []float64{0, 0, 0.1, 0.4})
	brP := 0.0
	if cfg.Newline == "preserve" && chance(r, 0.5) {
		brP = 0.3
	}
	for gi := range t.groups {
		var rows [][]tcell
		nr := 1 + r.IntN(3)
		if gi == len(t.groups)-1 && manyRows > 0 {
			nr = manyRows
		}
		for i := 0; i < nr; i++ {
			var row []tcell
			n := cols
			if chance(r, 0.3) {
				n = r.IntN(cols + 2)
			}
			if gi == 0 && i == 0 && n == 0 && (!thead || chance(r, 0.3)) {
				n = 1
			}
			rowEmpty := chance(r, emptyP/2)
			rowShort := !rowEmpty && chance(r, shortP)
			for j := 0; j < n; j++ {
				c := tcell{tag: "td", cs: 1, rs: 1}
				if gi == 0 && i == 0 && firstTh {
					c.tag = "th"
				} else if firstTh && j == 0 && chance(r, 0.2) {
					c.tag = "th"
				}
				if chance(r, spanP) {
					c.cs = 1 + r.IntN(span)
				}
				if chance(r, spanP) {
					c.rs = 1 + r.IntN(span)
				}
				c.align = pick(r, []string{"", "", "left", "right", "center", "justify"})
				if rowEmpty || chance(r, emptyP) {
					c.empty = true
				} else if !rowEmpty && (rowShort || chance(r, shortP)) {
					// what tables often hold where there is nothing to say
					c.kids = []*N{T(pick(r, []string{"-", "–", "—", "--", "---", "0", ".", "...", "/", "n/a", "N/A", "none", "null", "nil", "x", "X", "?", ":", ":-", "*", "#", "+", "✓", "no", "\u200b", "1", "%", "_", "=", "~", "\\", "\u2212", "•", ","}))}
				} else {
					c.kids = g.inlines(ictx{cell: true, depth: g.maxDepth - 1})
					if longText > 0 && chance(r, 0.3) {
						c.kids = append(c.kids, T(" "+g.words(longText)))
					}
					if chance(r, brP) {
						c.newlines = true
						c.kids = append([]*N{T(g.token()), E("br")}, c.kids...)
					}
				}
				row = append(row, c)
			}
			rows = append(rows, row)
		}
		t.rows = append(t.rows, rows)
	}
	if chance(r, 0.2) {
		t.caption = []*N{T(g.text())}
	}
	if cfg.Present && chance(r, 0.3) {
		t.role = "presentation"
	}
	return t
}

// pipes counts the cell separators of a table line.
func pipes(l string) int {
	n := 0
	for i := 0; i < len(l); i++ {
		if l[i] == '\\' {
			i++
			continue
		}
		if l[i] == '|' {
			n++
		}
	}
	return n
}

func c23grid(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.4)
	cfg.Table = true
	cfg.Span = pick(r, []string{"", "empty", "mirror", "mirror"})
	cfg.SkipEmpty, cfg.Promote, cfg.Present = chance(r, 0.3), chance(r, 0.3), chance(r, 0.3)
	cfg.Newline = pick(r, newlinesB)
	cfg.Padding = pick(r, paddings)
	g := newG(r, cfg)
	g.budget = 30
	g.hostile = pick(r, []float64{0, 0, 0.3})
	if c.Stream == "large" {
		g.long = 20000
	}
	t := genTable(r, g, cfg)
	var ref *N
	for try := 0; ; try++ {
		if _, ok := t.layout(); ok && t.spanned() <= 1000 {
			break
		}
		if try > 20 {
			return
		}
		t = genTable(r, g, cfg)
	}
	ref = t.reference(cfg)
	if ref == nil && t.caption != nil {
		t.caption = nil
	}
	tab := t.html()
	respell(c.R, tab)
	wrap := func(x *N) *N {
		if x == nil {
			return T("")
		}
		return x
	}
	pre, post := T(g.token()), T(g.token())
	build := func(x *N) *N { return Root(E("p", pre), wrap(x), E("p", post)) }
	switch r.IntN(5) {
	case 0:
		build = func(x *N) *N { return Root(E("blockquote", E("p", pre), wrap(x)), E("p", post)) }
	case 1:
		build = func(x *N) *N { return Root(E("ul", E("li", E("p", pre), wrap(x)), E("li", post))) }
	case 2:
		build = func(x *N) *N { return Root(E("div", wrap(x))) }
	}
	src, want := build(tab).HTML(), build(ref).HTML()
	c.lastHTML, c.lastCfg = src, &cfg
	md, err := cfg.Convert(src)
	if err != nil {
		c.Fail(src, &cfg, "conversion failed: %v", err)
	}
	opt := cfg.nfOpt()
	w := nfHTML(want, opt)
	opt.noHref, opt.emptyLink = "", ""
	read := md
	if cfg.Padding == "none" {
		// the trusted reader forgets the alignment of an empty last cell without a space
		ls := strings.Split(md, "\n")
		cells := func(i int) string { return strings.TrimLeft(ls[i], "> -+*") }
		for i := 0; i < len(ls); i++ {
			end, table := i, false
			for ; end < len(ls) && strings.HasPrefix(cells(end), "|"); end++ {
				table = table || end == i+1 && strings.Trim(cells(end), "|:- ") == ""
			}
			// (a caption may begin with "|" too)
			for ; i < end; i++ {
				if table {
					ls[i] = strings.ReplaceAll(strings.ReplaceAll(ls[i], "||", "| |"), "||", "| |")
				}
			}
		}
		read = strings.Join(ls, "\n")
	}
	got := nfHTML(mdToHTML(cfg, read), opt)
	if w != got {
		c.Fail(src, &cfg, "%s\n    markdown: %s", diffLines(w, got), trunc(quote(md), 1500))
	}
	// every row has the same number of cells
	n := -1
	rows := 0
	for _, l := range strings.Split(md, "\n") {
		l = strings.TrimLeft(l, "> -+*")
		if strings.HasPrefix(l, "|") {
			rows++
			if p := pipes(l); n >= 0 && p != n {
				c.Fail(src, &cfg, "rows with %d and with %d separators: %s", n, p, quote(md))
			} else {
				n = p
			}
		} else {
			n = -1
		}
	}
	if ref != nil {
		spans := strings.Contains(src, "span=")
		c.Obs("grids_compared", 1)
		c.Obs("rows_compared", rows)
		if spans {
			c.Obs("grids_with_spans", 1)
		}
		c.Seen(src + cfg.String())
	}
	c.Sample("%s", src)
}

// c23whole: tables that Markdown cannot represent keep all their text outside of table syntax.
func c23whole(c *Case) {
	r := c.R
	cfg := randCfg(r, 0.4)
	cfg.Table = true
	if cfg.Newline == "preserve" && chance(r, 0.5) {
		cfg.Newline = ""
	}
	k := 0
	tok := func() string { k++; return fmt.Sprintf("Tok%dx", k) }
	blockers := []func() *N{
		func() *N { return E(pick(r, []string{"h1", "h2", "h6"}), T(tok())) },
		func() *N { return E(pick(r, []string{"ul", "ol"}), E("li", T(tok())), E("li", T(tok()))) },
		func() *N { return E("hr") },
		func() *N { return E("blockquote", T(tok())) },
		func() *N { return E("pre", T(tok()+"\n"+tok())) },
		func() *N { return E("pre", E("code", T(tok()))) },
	}
	if cfg.Newline != "preserve" {
		blockers = append(blockers,
			func() *N { return Root(E("p", T(tok())), E("p", T(tok()))) },
			func() *N { return Root(T(tok()), E("br"), T(tok())) },
			func() *N { return Root(E("div", T(tok())), E("div", T(tok()))) },
		)
	}
	how := r.IntN(4)
	if cfg.Present && how == 1 {
		how = 0
	}
	rows, cols := c.many(1+r.IntN(3), 400), c.many(1+r.IntN(3), 100)
	by, bx := r.IntN(rows), r.IntN(cols)
	t := E("table")
	th := chance(r, 0.5)
	for y := 0; y < rows; y++ {
		tr := E("tr")
		for x := 0; x < cols; x++ {
			tag := "td"
			if th && y == 0 {
				tag = "th"
			}
			cell := E(tag, T(tok()))
			if how == 0 && y == by && x == bx {
				b := pick(r, blockers)()
				if b.Tag == "#root" {
					cell.Kids = b.Kids
				} else if chance(r, 0.5) {
					cell.Kids = append(cell.Kids, b)
				} else {
					cell.Kids = []*N{b}
				}
			}
			if chance(r, 0.1) {
				cell.A(pick(r, []string{"colspan", "rowspan"}), "2")
			}
			tr.Kids = append(tr.Kids, cell)
		}
		t.Kids = append(t.Kids, tr)
	}
	if chance(r, 0.3) {
		t.Kids = append([]*N{E("caption", T(tok()))}, t.Kids...)
	}
	src := ""
	switch how {
	case 0:
		src = Root(E("p", T(tok())), t, E("p", T(tok()))).HTML()
	case 1:
		t.A("role", "presentation")
		src = Root(E("p", T(tok())), t, E("p", T(tok()))).HTML()
	case 2: // inside inline content
		src = Root(E("p", T(tok())), E("div", E(pick(r, []string{"a", "strong", "b", "em", "i", "del", "s"}), E("div", t)).A("href", "/x")), E("p", T(tok()))).HTML()
	case 3: // spans far beyond the content
		t.Kids[len(t.Kids)-1].Kids[0].A(pick(r, []string{"colspan", "rowspan"}), sprint(1000+r.IntN(60000)))
		t.Kids[len(t.Kids)-1].Kids[0].A("rowspan", sprint(100+r.IntN(60000)))
		src = Root(E("p", T(tok())), t, E("p", T(tok()))).HTML()
	}
	c.lastHTML, c.lastCfg = src, &cfg
	md, err := cfg.Convert(src)
	if err != nil {
		c.Fail(src, &cfg, "conversion failed: %v", err)
	}
	if how == 3 && strings.Contains(md, "|") {
		return // the attribute that the parser kept was small enough
	}
	if h := mdToHTML(cfg, md); strings.Contains(h, "<table") || strings.Contains(md, "|") {
		c.Fail(src, &cfg, "a table that cannot be represented comes out (partly) as table: %s", quote(md))
	}
	if m := c09probe(src, cfg); m != "" {
		c.Fail(src, &cfg, "%s", m)
	}
	c.Obs("unrepresentable_tables", 1)
	c.Obs("texts_followed", k)
	c.Seen(src + cfg.String())
	c.Sample("%s", src)
}

func init() {
	register(&Check{ID: "C23",
		Rule: "random tables (row groups, header kinds, ragged rows, col and row spans, alignments, empty rows, captions, inline content with hostile text) under all options, in quotes, items and divs, compared as a reader of the Markdown sees them with the grid of the HTML table model; and tables that Markdown cannot represent, whose text must all appear outside of table syntax; distinct by document and configuration",
		Streams: []Stream{
			{Name: "grid", N: 25000, NT: 600000, F: c23grid},
			{Name: "whole", N: 10000, NT: 200000, F: c23whole},
			large(1200, c23grid, c23grid, c23whole),
		}})
}
