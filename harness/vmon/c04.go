package main

// C04 (concurrency) and C05 (isolation of options, context and state). Both
// run in a build with the race detector; what it reports about the code under
// test is a violation too.

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// jitter is a plugin whose handlers do nothing but lose time at random points.
func jitter(seed uint64) converter.Plugin {
	var n atomic.Uint64
	n.Store(seed)
	nap := func() {
		x := n.Add(0x9E3779B97F4A7C15)
		x ^= x >> 29
		switch x % 16 {
		case 0, 1, 2:
			runtime.Gosched()
		case 3:
			time.Sleep(time.Microsecond * time.Duration(x>>8%40))
		}
	}
	return probePlugin{"jitter", func(conv *converter.Converter) error {
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { nap() }, 450)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			nap()
			return converter.RenderTryNext
		}, 50)
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string { nap(); return s }, 50)
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { nap(); return b }, 510)
		conv.Register.UnEscaper(func(b []byte, i int) int { nap(); return -1 }, 50)
		// registrations that change nothing, but have to be put in order
		for _, t := range []string{"p", "div", "ul", "li", "blockquote", "pre", "h1", "h2"} {
			conv.Register.TagType(t, converter.TagTypeBlock, 900)
			conv.Register.TagType(t, converter.TagTypeBlock, 20)
		}
		for _, t := range []string{"a", "b", "em", "span", "code", "img"} {
			conv.Register.TagType(t, converter.TagTypeInline, 900)
			conv.Register.TagType(t, converter.TagTypeInline, 20)
			conv.Register.TagType(t, converter.TagTypeInline, 70)
		}
		return nil
	}}
}

// together runs the functions concurrently and reports whether all finished.
func together(fs []func()) bool {
	var wg sync.WaitGroup
	var start sync.WaitGroup
	start.Add(1)
	var panicked atomic.Value
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					panicked.CompareAndSwap(nil, fmt.Sprintf("%v", p))
				}
			}()
			start.Wait()
			f()
		}()
	}
	start.Done()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		return false
	}
	if p := panicked.Load(); p != nil {
		panic("in goroutine: " + p.(string))
	}
	return true
}

type docJob struct {
	src, dom, want string
}

func mkJobs(r *rand.Rand, cfg Cfg, n int) []docJob {
	var js []docJob
	for i := 0; i < n; i++ {
		src := anyDoc(r, cfg)
		if len(src) > 3000 {
			src = src[:3000]
		}
		d := pick(r, []string{"", "a.example", "https://b.example/x/", "http://c.example:8080"})
		k := cfg
		k.Domain = d
		s, err := k.Convert(src)
		if err != nil {
			continue
		}
		js = append(js, docJob{src, d, s})
	}
	return js
}

func runJob(conv *converter.Converter, j docJob, how int) (string, error) {
	var o []converter.ConvertOptionFunc
	if j.dom != "" {
		o = append(o, converter.WithDomain(j.dom))
	}
	switch how {
	case 0:
		b, err := conv.ConvertReader(strings.NewReader(j.src), o...)
		return string(b), err
	case 1:
		b, err := conv.ConvertNode(parseHTML(j.src), o...)
		return string(b), err
	}
	return conv.ConvertString(j.src, o...)
}

type verdict struct {
	mu  sync.Mutex
	msg string
	src string
}

func (v *verdict) set(src, format string, a ...any) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.msg == "" {
		v.msg = fmt.Sprintf(format, a...)
		v.src = src
	}
}

func c04concurrent(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	jobs := mkJobs(r, cfg, 6+r.IntN(6))
	if len(jobs) == 0 {
		return
	}
	conv := cfg.with(jitter(r.Uint64()))
	if chance(r, 0.3) {
		conv = cfg.New()
	}
	pkg := chance(r, 0.1)
	if pkg {
		cfg = Cfg{}
		jobs = mkJobs(r, cfg, 6)
	}
	var v verdict
	var n atomic.Int64
	var inside, maxInside atomic.Int64
	var fs []func()
	g := 2 + r.IntN(7)
	for k := 0; k < g; k++ {
		order := r.Perm(len(jobs))
		how := r.IntN(4)
		fs = append(fs, func() {
			for _, i := range order {
				j := jobs[i]
				x := inside.Add(1)
				for {
					m := maxInside.Load()
					if x <= m || maxInside.CompareAndSwap(m, x) {
						break
					}
				}
				var got string
				var err error
				if pkg {
					var o []converter.ConvertOptionFunc
					if j.dom != "" {
						o = append(o, converter.WithDomain(j.dom))
					}
					got, err = htmltomarkdown.ConvertString(j.src, o...)
				} else {
					got, err = runJob(conv, j, how)
				}
				inside.Add(-1)
				n.Add(1)
				if err != nil {
					v.set(j.src, "error %v under concurrency", err)
				} else if got != j.want {
					v.set(j.src, "concurrent conversion (domain %q) gave\n    %s\n  instead of\n    %s", j.dom, trunc(quote(got), 600), trunc(quote(j.want), 600))
				}
			}
		})
	}
	if !together(fs) {
		c.Fail("", nil, "concurrent conversions did not finish within 100 s (deadlock)")
	}
	c.Obs("concurrent_conversions", int(n.Load()))
	c.Obs("overlap_sum", int(maxInside.Load()))
	if v.msg != "" {
		c.Fail(v.src, &cfg, "%s", v.msg)
	}
	c.Seen(fmt.Sprint(cfg, jobs))
	c.Sample("%d goroutines x %d documents, at most %d conversions at once, %s", g, len(jobs), maxInside.Load(), cfg)
}

// c04register: registrations while conversions run.
func c04register(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	if cfg.Escape == "disabled" {
		cfg.Escape = ""
	}
	jobs := mkJobs(r, cfg, 4+r.IntN(4))
	conv := cfg.with(jitter(r.Uint64()))
	var v verdict
	var fs []func()
	var n atomic.Int64
	for k := 0; k < 1+r.IntN(4); k++ {
		order := r.Perm(len(jobs))
		how := r.IntN(4)
		fs = append(fs, func() {
			for _, i := range order {
				got, err := runJob(conv, jobs[i], how)
				n.Add(1)
				if err != nil {
					v.set(jobs[i].src, "error %v while handlers are being registered", err)
				} else if got != jobs[i].want {
					v.set(jobs[i].src, "while inert handlers were being registered a conversion gave\n    %s\n  instead of\n    %s", trunc(quote(got), 600), trunc(quote(jobs[i].want), 600))
				}
			}
		})
	}
	// inert registrations, each of which leaves a trace in a later conversion
	type reg struct {
		name string
		do   func()
	}
	var hits [600]atomic.Int64
	var regs []reg
	m := 6 + r.IntN(40)
	final := ""
	prio := func() int { return pick(r, []int{-5, 50, 99, 100, 101, 300, 500, 500, 501, 900, 1000, 1001, 2000}) }
	kind := -1 // all of one kind meet each other most
	if chance(r, 0.3) {
		kind = r.IntN(9)
	}
	for i := 0; i < m; i++ {
		p := prio()
		k := r.IntN(9)
		if kind >= 0 {
			k = kind
		}
		switch k {
		case 0:
			regs = append(regs, reg{"PreRenderer", func() {
				conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { hits[i].Add(1) }, p)
			}})
		case 1:
			regs = append(regs, reg{"Renderer", func() {
				conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
					if n.Data == "x-final" {
						hits[i].Add(1)
					}
					return converter.RenderTryNext
				}, p)
			}})
		case 2:
			regs = append(regs, reg{"PostRenderer", func() {
				conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { hits[i].Add(1); return b }, p)
			}})
		case 3:
			regs = append(regs, reg{"TextTransformer", func() {
				conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
					if s == "finaltext" {
						hits[i].Add(1)
					}
					return s
				}, min(p, 400))
			}})
		case 4:
			p := -1 - r.IntN(1000)
			regs = append(regs, reg{"UnEscaper", func() {
				conv.Register.UnEscaper(func(b []byte, k int) int { hits[i].Add(1); return -1 }, p)
			}})
		case 5:
			name := fmt.Sprintf("x-rm%d", i)
			final += "<" + name + ">gone</" + name + ">"
			regs = append(regs, reg{"TagType", func() {
				conv.Register.TagType(name, converter.TagTypeRemove, p)
				hits[i].Add(1)
			}})
		case 6:
			name := fmt.Sprintf("x-rf%d", i)
			final += "<" + name + ">gone</" + name + ">"
			regs = append(regs, reg{"RendererFor", func() {
				conv.Register.RendererFor(name, converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
					hits[i].Add(1)
					return converter.RenderSuccess
				}, p)
			}})
		case 7:
			regs = append(regs, reg{"Plugin", func() {
				conv.Register.Plugin(probePlugin{fmt.Sprint("inert", i), func(cv *converter.Converter) error {
					cv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { hits[i].Add(1) }, p)
					return nil
				}})
			}})
		case 8:
			ch := rune(0x2460 + i)
			final += string(ch)
			regs = append(regs, reg{"EscapedChar", func() { conv.Register.EscapedChar(ch) }})
		}
	}
	parts := 1 + r.IntN(4)
	for k := 0; k < parts; k++ {
		fs = append(fs, func() {
			for i := k; i < len(regs); i += parts {
				regs[i].do()
				if i%3 == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	if !together(fs) {
		c.Fail("", &cfg, "conversions and registrations did not finish within 100 s (deadlock)")
	}
	c.Obs("registrations", len(regs))
	c.Obs("conversions_meanwhile", int(n.Load()))
	if v.msg != "" {
		c.Fail(v.src, &cfg, "%s", v.msg)
	}
	for i := range hits {
		hits[i].Store(0)
	}
	for i, g := range regs {
		if g.name == "TagType" {
			hits[i].Store(1) // seen by what is gone
		}
	}
	// an escaped character is offered to the un-escapers
	conv.Register.UnEscaper(func(b []byte, k int) int {
		if ch, _ := utf8.DecodeRune(b[k:]); ch >= 0x2460 && ch < 0x2460+rune(len(regs)) {
			if i := int(ch - 0x2460); regs[i].name == "EscapedChar" {
				hits[i].Add(1)
			}
		}
		return -1
	}, -10000)
	// everything registered must be in effect now
	src := "<p><x-final></x-final>kept*<span>finaltext</span>" + final + "</p>"
	out, err := conv.ConvertString(src)
	if err != nil {
		c.Fail(src, &cfg, "conversion after the registrations failed: %v", err)
	}
	for i, g := range regs {
		if hits[i].Load() == 0 {
			c.Fail(src, &cfg, "the %s registered while conversions ran has no effect afterwards (registration lost)", g.name)
		}
	}
	if strings.Contains(out, "gone") {
		c.Fail(src, &cfg, "a tag type or renderer registered while conversions ran has no effect afterwards: %q", out)
	}
	c.Seen(fmt.Sprint(cfg, jobs, len(regs), parts))
	var names []string
	for _, g := range regs {
		names = append(names, g.name)
	}
	c.Sample("registrations %v by %d goroutines during %d conversions", names, parts, n.Load())
}

// c04assemble: plugins registered concurrently on an empty converter.
func c04assemble(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	if cfg.Escape == "disabled" {
		cfg.Escape = ""
	}
	cfg.Strike, cfg.Table = true, true
	jobs := mkJobs(r, cfg, 3)
	conv := converter.NewConverter()
	ps := cfg.Plugins()
	for i := 0; i < 12; i++ {
		ps = append(ps, probePlugin{fmt.Sprint("inert", i), func(cv *converter.Converter) error { return nil }})
	}
	shuffle(r, ps)
	var fs []func()
	for _, p := range ps {
		fs = append(fs, func() { conv.Register.Plugin(p) })
	}
	if !together(fs) {
		c.Fail("", &cfg, "registering plugins concurrently did not finish within 100 s (deadlock)")
	}
	c.Obs("plugins_registered", len(ps))
	for _, j := range jobs {
		got, err := runJob(conv, j, 3)
		if err != nil {
			c.Fail(j.src, &cfg, "plugins registered from several goroutines: conversion fails with %v", err)
		}
		_ = got // the order of handlers with equal priority is not fixed, so the text is not compared
	}
	c.Seen(fmt.Sprint(cfg, jobs))
}

// ---- C05 ----

type ctxKeyT struct{ n int }

type convLog struct {
	mu     sync.Mutex
	id     int
	dom    string
	shadow map[string]any
	events int
	bad    string
}

func (l *convLog) fail(format string, a ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.bad == "" {
		l.bad = fmt.Sprintf("conversion %d: ", l.id) + fmt.Sprintf(format, a...)
	}
}

type holderT struct{ x int }

// spy observes, at every hook, what the conversion's context holds.
func spy(seed uint64, nested func(ctx converter.Context, depth int)) converter.Plugin {
	var rn atomic.Uint64
	rn.Store(seed)
	look := func(ctx context.Context, where string) {
		l, ok := ctx.Value(ctxKeyT{0}).(*convLog)
		if !ok {
			return
		}
		l.mu.Lock()
		l.events++
		l.mu.Unlock()
		if d := converter.GetDomain(ctx); d != l.dom {
			l.fail("%s sees domain %q, expected %q", where, d, l.dom)
		}
		if id, _ := ctx.Value(ctxKeyT{1}).(int); id != l.id {
			l.fail("%s sees the context value of conversion %d", where, id)
		}
		// state: everything written so far reads back, in the type it was written with
		for _, k := range []string{"s", "n", "p", "slice"} {
			switch k {
			case "s":
				w, _ := l.shadow[k].(string)
				if g := converter.GetState[string](ctx, k); g != w {
					l.fail("%s reads state %q = %q, last written %q", where, k, g, w)
				}
			case "n":
				w, _ := l.shadow[k].(int)
				if g := converter.GetState[int](ctx, k); g != w {
					l.fail("%s reads state %q = %d, last written %d", where, k, g, w)
				}
			case "p":
				w, _ := l.shadow[k].(*holderT)
				if g := converter.GetState[*holderT](ctx, k); g != w {
					l.fail("%s reads state %q = %p, last written %p", where, k, g, w)
				}
			case "slice":
				w, _ := l.shadow[k].([]string)
				if g := converter.GetState[[]string](ctx, k); fmt.Sprint(g) != fmt.Sprint(w) {
					l.fail("%s reads state %q = %v, last written %v", where, k, g, w)
				}
			}
		}
		w := l.shadow["any"]
		if g := converter.GetState[any](ctx, "any"); fmt.Sprint(g) != fmt.Sprint(w) {
			l.fail("%s reads state \"any\" = %v, last written %v", where, g, w)
		}
		wi, _ := w.(int)
		ws, _ := w.(string)
		if gi, gs := converter.GetState[int](ctx, "any"), converter.GetState[string](ctx, "any"); gi != wi || gs != ws {
			l.fail("%s reads state \"any\" (%v) as %d and %q", where, w, gi, gs)
		}
		// a missing value, or one of another type, is the zero value
		if g := converter.GetState[int](ctx, "never written"); g != 0 {
			l.fail("%s reads a missing state as %d", where, g)
		}
		if g := converter.GetState[*holderT](ctx, "never written 2"); g != nil {
			l.fail("%s reads a missing pointer state as non-nil", where)
		}
		if g := converter.GetState[float64](ctx, "s"); g != 0 {
			l.fail("%s reads a state of another type as %v", where, g)
		}
	}
	mut := func(ctx context.Context) {
		l, ok := ctx.Value(ctxKeyT{0}).(*convLog)
		if !ok {
			return
		}
		x := rn.Add(0x9E3779B97F4A7C15)
		x ^= x >> 31
		switch x % 14 {
		case 9:
			v := fmt.Sprint("any", x>>50)
			converter.SetState(ctx, "any", v)
			l.shadow["any"] = v
		case 10:
			converter.SetState(ctx, "any", int(x>>50))
			l.shadow["any"] = int(x >> 50)
		case 11:
			converter.SetState[any](ctx, "any", nil)
			l.shadow["any"] = nil
		case 12:
			// a value of another type counts as the zero value
			converter.UpdateState(ctx, "any", func(n int) int { return n + 7 })
			o, _ := l.shadow["any"].(int)
			l.shadow["any"] = o + 7
		case 13:
			converter.UpdateState(ctx, "any", func(s string) string { return s + "+" })
			o, _ := l.shadow["any"].(string)
			l.shadow["any"] = o + "+"
		case 0:
			v := fmt.Sprint("conv", l.id, "-", x>>40)
			converter.SetState(ctx, "s", v)
			l.shadow["s"] = v
		case 1, 2:
			converter.UpdateState(ctx, "n", func(n int) int { return n + 1 + l.id })
			o, _ := l.shadow["n"].(int)
			l.shadow["n"] = o + 1 + l.id
		case 3:
			h := &holderT{l.id}
			converter.SetState(ctx, "p", h)
			l.shadow["p"] = h
		case 4:
			converter.UpdateState(ctx, "slice", func(s []string) []string { return append(s, fmt.Sprint(l.id)) })
			o, _ := l.shadow["slice"].([]string)
			l.shadow["slice"] = append(o[:len(o):len(o)], fmt.Sprint(l.id))
		case 5:
			converter.SetState[*holderT](ctx, "p", nil)
			l.shadow["p"] = (*holderT)(nil)
		case 6:
			runtime.Gosched()
		}
	}
	return probePlugin{"spy", func(conv *converter.Converter) error {
		for _, p := range []int{50, 550, 1500} {
			conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
				look(ctx, "pre-renderer")
				mut(ctx)
				look(ctx, "pre-renderer")
			}, p)
			conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
				look(ctx, "post-renderer")
				mut(ctx)
				look(ctx, "post-renderer")
				return b
			}, p)
		}
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			look(ctx, "text transformer")
			mut(ctx)
			return s
		}, 450)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			look(ctx, "renderer")
			mut(ctx)
			look(ctx, "renderer")
			switch n.Data {
			case "x-nest":
				d, _ := ctx.Value(ctxKeyT{2}).(int)
				if nested != nil && d < 3 {
					nested(ctx, d+1)
					look(ctx, "renderer after a nested conversion")
				}
			case "x-with":
				// a value added here is seen below this element and nowhere else
				if v, _ := ctx.Value(ctxKeyT{3}).(string); v != "" {
					break
				}
				ctx.RenderChildNodes(ctx.WithValue(ctxKeyT{3}, "inside"), w, n)
				if v, _ := ctx.Value(ctxKeyT{3}).(string); v != "" {
					if l, ok := ctx.Value(ctxKeyT{0}).(*convLog); ok {
						l.fail("a value added for the children of an element is seen outside")
					}
				}
				return converter.RenderSuccess
			case "x-see":
				want := ""
				for p := n.Parent; p != nil; p = p.Parent {
					if p.Data == "x-with" {
						want = "inside"
					}
				}
				if v, _ := ctx.Value(ctxKeyT{3}).(string); v != want {
					if l, ok := ctx.Value(ctxKeyT{0}).(*convLog); ok {
						l.fail("a renderer sees the value %q added with WithValue, expected %q", v, want)
					}
				}
			}
			return converter.RenderTryNext
		}, 50)
		return nil
	}}
}

var convIDs atomic.Int64

func c05(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	var conv *converter.Converter
	var all []*convLog
	var amu sync.Mutex
	domains := []string{"", "a.example", "https://b.example/x/", "http://c.example:8080", "not a domain %"}
	var seedN atomic.Uint64
	seedN.Store(r.Uint64())
	var g = newG(r, cfg)
	mkdoc := func() string {
		in := []*N{T(g.token() + "*"), E("x-nest", T(g.token())), E("a", T(g.token())).A("href", "/rel"), E("x-with", E("em", E("x-see", T(g.token()))), T(" "), E("x-see")), E("x-see"), E("span", T(g.token()+"#"))}
		d := g.doc()
		d.Kids = append(d.Kids, E("p", in...))
		shuffle(r, d.Kids)
		return d.HTML()
	}
	var docs []string
	for k := 0; k < 4; k++ {
		docs = append(docs, mkdoc())
	}
	plain := cfg.New()
	wants := map[string]string{}
	for _, d := range docs {
		for _, dm := range domains {
			var o []converter.ConvertOptionFunc
			if dm != "" {
				o = append(o, converter.WithDomain(dm))
			}
			s, err := plain.ConvertString(d, o...)
			if err != nil {
				return
			}
			wants[dm+"\x00"+d] = s
		}
	}
	var v verdict
	var convert func(parent context.Context, depth int, k uint64, cv *converter.Converter)
	convert = func(parent context.Context, depth int, k uint64, cv *converter.Converter) {
		x := seedN.Add(0xD1B54A32D192ED03) ^ k
		x ^= x >> 27
		id := int(convIDs.Add(1))
		l := &convLog{id: id, dom: domains[x%uint64(len(domains))], shadow: map[string]any{}}
		ctx := context.Background()
		if parent != nil && x>>20%2 == 0 {
			ctx = parent // a nested conversion may be given the outer conversion's context
		}
		ctx = context.WithValue(ctx, ctxKeyT{0}, l)
		ctx = context.WithValue(ctx, ctxKeyT{1}, id)
		ctx = context.WithValue(ctx, ctxKeyT{2}, depth)
		if parent != nil {
			ctx = context.WithValue(ctx, ctxKeyT{3}, "")
		}
		o := []converter.ConvertOptionFunc{converter.WithContext(ctx)}
		if l.dom != "" {
			o = append(o, converter.WithDomain(l.dom))
			if x>>8%2 == 0 {
				o[0], o[1] = o[1], o[0]
			}
		}
		d := docs[x>>32%uint64(len(docs))]
		got, err := cv.ConvertString(d, o...)
		amu.Lock()
		all = append(all, l)
		amu.Unlock()
		if err != nil {
			v.set(d, "error %v", err)
		} else if w := wants[l.dom+"\x00"+d]; got != w {
			v.set(d, "conversion %d (domain %q, depth %d) gave\n    %s\n  alone it gives\n    %s", id, l.dom, depth, trunc(quote(got), 500), trunc(quote(w), 500))
		}
	}
	other := cfg.New()
	nested := func(ctx converter.Context, depth int) {
		x := seedN.Add(1)
		switch x % 4 {
		case 0:
			other.ConvertString(docs[0], converter.WithDomain("zzz.example"))
		case 1:
			conv.ConvertString("<p>x", converter.WithDomain("yyy.example"))
		default:
			convert(ctx, depth, x, conv)
		}
	}
	conv = cfg.with(spy(r.Uint64(), nested))
	if chance(r, 0.5) {
		// one after the other, or each in its own goroutine
		for k := 0; k < 5; k++ {
			convert(nil, 0, uint64(k), conv)
			if chance(r, 0.3) {
				conv.ConvertString(docs[0]) // one without any option in between
			}
		}
	} else {
		var fs []func()
		for k := 0; k < 2+r.IntN(5); k++ {
			fs = append(fs, func() {
				for j := 0; j < 2; j++ {
					convert(nil, 0, uint64(k*10+j), conv)
				}
			})
		}
		if !together(fs) {
			c.Fail("", &cfg, "overlapping and nested conversions did not finish within 100 s (deadlock)")
		}
	}
	for _, l := range all {
		c.Obs("hook_observations", l.events)
		if l.bad != "" {
			c.Fail(docs[0], &cfg, "%s", l.bad)
		}
		if l.events == 0 {
			c.Fail(docs[0], &cfg, "conversion %d: no handler saw the context values given by the caller", l.id)
		}
	}
	c.Obs("conversions", len(all))
	if v.msg != "" {
		c.Fail(v.src, &cfg, "%s", v.msg)
	}
	c.Seen(strings.Join(docs, "|") + cfg.String())
	c.Sample("%d conversions (sequential, overlapping and nested), %s", len(all), cfg)
}

var hostIDs atomic.Int64

// freshHost is a host (and word) of constant length that was never used before.
func freshHost() string { return fmt.Sprintf("h%09d.example", hostIDs.Add(1)) }

// c05domains: many domains that only differ in some part, on one converter.
// What each gives is known from conversions with hosts and words never used
// before or after, so nothing that was kept from one can be in another.
func c05domains(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	cfg.Domain = ""
	shapes := []string{"", "HOST", "http://HOST", "http://HOST/", "https://HOST/", "http://HOST/one", "http://HOST/one/", "http://HOST/two/", "http://HOST/one/two", "http://HOST/one/two/x.html",
		"http://HOST:81/", "http://HOST:81/one/", "http://user@HOST/", "http://other@HOST/one/", "http://HOST/?q=1", "http://HOST/one?q=1", "http://HOST/one?q=2#f", "http://HOST#f", "//HOST/one", "HOST/one/", "ftp://HOST/one/", "http://www.HOST/one/", "http://HOST.test/one/", "HTTP://HOST/one/"}
	shuffle(r, shapes)
	shapes = shapes[:2+r.IntN(8)]
	const word = "h000000000.example"
	var docs []string
	for k := 1 + r.IntN(3); k > 0; k-- {
		var kids []*N
		for j := 2 + r.IntN(6); j > 0; j-- {
			u := strings.ReplaceAll(pick(r, []string{"", "W", "./W", "../W", "/W", "/a/W", "?q=W", "#W", "W?a=b#c", "//W/x", "http://W/x", "mailto:a@W", "W/", "W/../x", "/"}), "W", word)
			if chance(r, 0.6) {
				kids = append(kids, E("a", T("t"+fmt.Sprint(j))).A("href", u))
			} else {
				kids = append(kids, E("img").A("src", u).A("alt", "i"))
			}
			kids = append(kids, T(" "))
		}
		docs = append(docs, E(pick(r, []string{"p", "div", "li", "h2"}), kids...).HTML())
	}
	host := freshHost()
	conv := cfg.New()
	do := func(cv *converter.Converter, src, dom string) (string, error) {
		if dom == "" {
			return cv.ConvertString(src)
		}
		return cv.ConvertString(src, converter.WithDomain(dom))
	}
	type job struct{ src, dom, want string }
	var jobs []job
	for _, d := range docs {
		for _, sh := range shapes {
			h, w := freshHost(), freshHost()
			s, err := do(cfg.New(), strings.ReplaceAll(d, word, w), strings.ReplaceAll(sh, "HOST", h))
			if err != nil {
				return
			}
			s = strings.ReplaceAll(s, h, host)
			s = strings.ReplaceAll(s, w, "w"+host[1:])
			jobs = append(jobs, job{strings.ReplaceAll(d, word, "w"+host[1:]), strings.ReplaceAll(sh, "HOST", host), s})
		}
	}
	for round := 0; round < 2; round++ {
		shuffle(r, jobs)
		for _, j := range jobs {
			cv := conv
			if chance(r, 0.3) {
				cv = cfg.New()
			}
			got, err := do(cv, j.src, j.dom)
			if err != nil {
				c.Fail(j.src, &cfg, "error %v", err)
			}
			if got != j.want {
				c.Fail(j.src, &cfg, "after conversions with similar domains %q gives\n    %s\n  a host never used before gives\n    %s", j.dom, trunc(quote(got), 600), trunc(quote(j.want), 600))
			}
			c.Obs("conversions_with_similar_domains", 1)
		}
	}
	c.Seen(fmt.Sprint(docs, shapes, cfg))
	c.Sample("%d documents x domains %v", len(docs), shapes)
}

func init() {
	register(&Check{ID: "C04", Race: true, Workers: 4,
		Assume: []string{"interleavings are those the scheduler produced under injected yields and sleeps; the race detector reports races between accesses that happened, in any order"},
		Rule:   "2-8 goroutines convert up to 11 documents each through one converter with handlers that lose time at random points, inert handlers of every kind are registered meanwhile, plugins are registered from many goroutines; monitors: Go race detector, equality with the result alone, trace left by every registration, deadlock watchdog; distinct by workload",
		Streams: []Stream{
			{Name: "concurrent", N: 500, NT: 15000, F: c04concurrent},
			{Name: "register", N: 700, NT: 20000, F: c04register},
			{Name: "assemble", N: 400, NT: 6000, F: c04assemble},
		}})
	register(&Check{ID: "C05", Race: true, Workers: 6,
		Rule:    "conversions following each other, overlapping in up to 6 goroutines and nested up to 3 deep inside renderers (own or inherited context), each with its own domain, context values and state; monitor: at every hook the domain, context values and all state are compared with a shadow of what this conversion was given and wrote; distinct by documents and configuration",
		Streams: []Stream{{Name: "isolation", N: 1200, NT: 40000, F: c05}, {Name: "domains", N: 1200, NT: 40000, F: c05domains}}})
}
