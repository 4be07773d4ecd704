package main

import (

	"golang.org/x/net/html"
)

// rereadProbe compares what a reader of the source sees with what a reader of
// the rendered Markdown sees.
func rereadProbe(src string, cfg Cfg) string {
	md, err := cfg.Convert(src)
	if err != nil {
		return "conversion failed: " + err.Error()
	}
	opt := cfg.nfOpt()
	want := nfHTML(src, opt)
	opt.noHref, opt.emptyLink = "", ""
	got := nfHTML(mdToHTML(cfg, md), opt)
	if want != got {
		return diffLines(want, got) + "\n    markdown: " + trunc(quote(md), 1500)
	}
	return ""
}

func linkInEmphasis(src string) bool {
	var f func(n *html.Node, em bool) bool
	f = func(n *html.Node, em bool) bool {
		switch n.Data {
		case "em", "i", "b", "strong":
			em = true
		case "a":
			if em {
				return true
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if f(k, em) {
				return true
			}
		}
		return false
	}
	return f(parseHTML(src), false)
}

// againProbe converts the rendering of the Markdown once more.
func againProbe(src string, cfg Cfg) string {
	md, err := cfg.Convert(src)
	if err != nil {
		return "conversion failed: " + err.Error()
	}
	again, err := cfg.Convert(mdToHTML(cfg, md))
	if err != nil {
		return "the second conversion failed: " + err.Error()
	}
	for i := 0; md != again && i < 4 && linkInEmphasis(src); i++ {
		// emphasis moves into the link it surrounds one level at a time
		md = again
		if again, err = cfg.Convert(mdToHTML(cfg, md)); err != nil {
			return "a later conversion failed: " + err.Error()
		}
	}
	if md != again {
		return diffLines(md, again) + "\n    markdown: " + trunc(quote(md), 1500)
	}
	return ""
}

func init() {
	register(&Check{
		ID:   "C25",
		Rule: "random documents nested from all supported constructs under random options; non-trivial: at least two blocks in the normal form; distinct by normal form",
		Streams: []Stream{
			{Name: "docs", N: 20000, F: c25docs},
			{Name: "again", N: 10000, F: c25again},
			large(2000, c25docs, c25again),
		},
		Probe: func(src string, cfg Cfg) string {
			if m := rereadProbe(src, cfg); m != "" {
				return m
			}
			return againProbe(src, cfg)
		},
	})
}

func c25docs(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	g.doc()
	g = newG(c.R, cfg)
	src := c.doc(g).HTML()
	if msg := rereadProbe(src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Obs("documents_reread", 1)
	c.Obs("source_bytes", len(src))
	c.Seen(src)
	c.Sample("%s", src)
}

func c25again(c *Case) {
	cfg := randCfg(c.R, 0.3)
	g := newG(c.R, cfg)
	src := c.doc(g).HTML()
	if msg := againProbe(src, cfg); msg != "" {
		c.Fail(src, &cfg, "%s", msg)
	}
	c.Obs("documents_converted_again", 1)
	c.Seen(src)
}
