package main

// C07: errors are reported, never partial output. Faults are injected into the
// reader at every byte position and into plugin initialisation.

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

type faultErr struct{ n int }

func (f *faultErr) Error() string { return fmt.Sprintf("injected fault %d", f.n) }

// stuckReader gives its bytes and then neither data nor an error.
type stuckReader struct{ b []byte }

func (s *stuckReader) Read(p []byte) (int, error) {
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func c07reader(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	src := anyDoc(r, cfg)
	if c.Stream == "large" {
		src = grownDoc(r, cfg)
	} else if len(src) > 3000 {
		src = src[:3000]
	}
	c.lastHTML, c.lastCfg = src, &cfg
	conv := cfg.New()
	good, gerr := conv.ConvertString(src, cfg.ConvOpts()...)
	var cuts []int
	if len(src) <= 60 {
		for i := 0; i <= len(src); i++ {
			cuts = append(cuts, i)
		}
	} else {
		cuts = []int{0, 1, len(src) - 1, len(src)}
		for k := 0; k < 8; k++ {
			cuts = append(cuts, r.IntN(len(src)+1))
		}
	}
	for _, cut := range cuts {
		cause := error(&faultErr{cut})
		how := "a custom error"
		switch r.IntN(6) {
		case 0:
			cause, how = io.ErrUnexpectedEOF, "io.ErrUnexpectedEOF"
		case 1:
			cause, how = fmt.Errorf("wrapped: %w", io.EOF), "an error that wraps io.EOF"
		case 2:
			cause, how = io.ErrClosedPipe, "io.ErrClosedPipe"
		case 3:
			cause, how = nil, "neither data nor an error"
		}
		cr := choppy(r, src[:cut])
		cr.err = cause
		var rd io.Reader = cr
		if cause == nil {
			rd = &stuckReader{[]byte(src[:cut])}
		}
		var b []byte
		var err error
		entry := "Converter.ConvertReader"
		if chance(r, 0.3) && cfg.Domain == "" {
			entry = "htmltomarkdown.ConvertReader"
			b, err = htmltomarkdown.ConvertReader(rd)
		} else {
			b, err = conv.ConvertReader(rd, cfg.ConvOpts()...)
		}
		c.Obs("reader_faults", 1)
		if err == nil {
			c.Fail(src, &cfg, "%s: the reader failed after %d of %d bytes with %s, but no error came back; output %q", entry, cut, len(src), how, trunc(string(b), 300))
		}
		if len(b) != 0 {
			c.Fail(src, &cfg, "%s: the reader failed after %d bytes with %s; besides the error %v there is output %q", entry, cut, how, err, trunc(string(b), 300))
		}
		if cause != nil && gerr == nil && !errors.Is(err, cause) {
			c.Fail(src, &cfg, "%s: the reader failed after %d bytes with %s; the returned error %q does not identify the cause %q", entry, cut, how, err, cause)
		}
		c.Seen(fmt.Sprint(src, cut, how, entry))
	}
	again, err := conv.ConvertString(src, cfg.ConvOpts()...)
	if again != good || (err == nil) != (gerr == nil) {
		c.Fail(src, &cfg, "after failed readers the converter gives another result: %s instead of %s (error %v)", trunc(quote(again), 300), trunc(quote(good), 300), err)
	}
	c.Sample("%d byte document, faults after %v bytes", len(src), cuts)
}

// entriesFail calls every entry point and expects an error and no output.
func entriesFail(c *Case, r *rand.Rand, conv *converter.Converter, src, what string, cause error, wantText string, cfg *Cfg) {
	for k := 0; k < 3; k++ {
		for _, e := range []string{"ConvertString", "ConvertReader", "ConvertNode"} {
			var out string
			var err error
			switch e {
			case "ConvertString":
				out, err = conv.ConvertString(src)
			case "ConvertReader":
				var b []byte
				b, err = conv.ConvertReader(choppy(r, src))
				out = string(b)
			case "ConvertNode":
				var b []byte
				doc := parseHTML(src)
				if doc == nil {
					continue
				}
				b, err = conv.ConvertNode(doc)
				out = string(b)
			}
			c.Obs("error_returns", 1)
			if err == nil {
				c.Fail(src, cfg, "%s: %s (round %d) reported no error, output %q", what, e, k, trunc(out, 300))
			}
			if out != "" {
				c.Fail(src, cfg, "%s: %s (round %d) gave the error %v and the output %q", what, e, k, err, trunc(out, 300))
			}
			if cause != nil && !errors.Is(err, cause) {
				c.Fail(src, cfg, "%s: %s (round %d): the error %q does not identify the cause %q", what, e, k, err, cause)
			}
			if !strings.Contains(strings.ToLower(err.Error()), strings.ToLower(wantText)) {
				c.Fail(src, cfg, "%s: %s (round %d): the error %q does not mention %q", what, e, k, err, wantText)
			}
		}
	}
}

func c07config(c *Case) {
	r := c.R
	cfg := anyCfg(r)
	src := "<p>hello</p>"
	if chance(r, 0.6) {
		src = anyDoc(r, cfg)
		if parseHTML(src) == nil {
			src = ""
		}
	}
	c.lastHTML, c.lastCfg = src, &cfg
	ps := cfg.Plugins()
	newConv := func(ps ...converter.Plugin) *converter.Converter {
		if chance(r, 0.5) {
			return converter.NewConverter(converter.WithPlugins(ps...))
		}
		conv := converter.NewConverter()
		for _, p := range ps {
			conv.Register.Plugin(p)
		}
		return conv
	}
	kind := r.IntN(6)
	switch kind {
	case 0, 1: // a plugin whose initialisation fails, at any index
		cause := &faultErr{r.IntN(1000)}
		bad := &probePlugin{name: fmt.Sprintf("bad%d", cause.n), init: func(conv *converter.Converter) error {
			if chance(r, 0.5) {
				conv.Register.TagType("x-y", converter.TagTypeBlock, 1)
			}
			return fmt.Errorf("while starting: %w", cause)
		}}
		for k := c.many(r.IntN(3), 100); k > 0; k-- {
			ps = append(ps, &probePlugin{name: fmt.Sprint("fine", k), init: func(*converter.Converter) error { return nil }})
		}
		i := r.IntN(len(ps) + 1)
		all := append(append(append([]converter.Plugin{}, ps[:i]...), bad), ps[i:]...)
		entriesFail(c, r, newConv(all...), src, fmt.Sprintf("plugin %d of %d fails to initialise", i, len(all)), cause, bad.name, &cfg)
	case 2: // a plugin without a name
		i := r.IntN(len(ps) + 1)
		all := append(append(append([]converter.Plugin{}, ps[:i]...), &probePlugin{name: "", init: func(*converter.Converter) error { return nil }}), ps[i:]...)
		entriesFail(c, r, newConv(all...), src, "a plugin has no name", nil, "name", &cfg)
	case 3: // required plugins missing
		if chance(r, 0.3) {
			entriesFail(c, r, newConv(), src, "no plugins", nil, "commonmark", &cfg)
			break
		}
		all := []converter.Plugin{cfg.CommonmarkPlugin()}
		if chance(r, 0.5) {
			all = append(all, cfg.StrikePlugin())
		}
		if chance(r, 0.5) {
			all = append(all, cfg.TablePlugin())
		}
		shuffle(r, all)
		entriesFail(c, r, newConv(all...), src, "commonmark without base", nil, "base", &cfg)
	case 4: // an invalid option of commonmark, base before or after
		all := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter(pick(r, []string{"**", "-", " ", "*_", "x"})))}
		if chance(r, 0.5) {
			all[0], all[1] = all[1], all[0]
		}
		entriesFail(c, r, newConv(all...), src, "invalid option", nil, "EmDelimiter", &cfg)
	case 5: // a plugin that fails after conversions that worked
		conv := newConv(ps...)
		for k := r.IntN(3); k >= 0; k-- {
			if _, err := conv.ConvertString("<p>fine</p>"); err != nil {
				c.Fail("<p>fine</p>", &cfg, "error %v", err)
			}
		}
		cause := &faultErr{7}
		conv.Register.Plugin(&probePlugin{name: "late", init: func(*converter.Converter) error { return cause }})
		if chance(r, 0.5) { // later successes do not hide it
			conv.Register.Plugin(&probePlugin{name: "fine", init: func(*converter.Converter) error { return nil }})
		}
		entriesFail(c, r, conv, src, "a plugin registered after conversions fails to initialise", cause, "late", &cfg)
	}
	c.Obs(fmt.Sprintf("kind_%d", kind), 1)
	c.Seen(fmt.Sprint(kind, cfg, src))
	c.Sample("kind %d %s", kind, cfg)
}

func init() {
	register(&Check{ID: "C07",
		Rule: "readers that fail (custom, wrapped and io errors, with or after the last bytes, or stall) after every byte position of short documents and sampled positions of longer ones, through the converter and package entry points; failing, nameless, missing and misconfigured plugins at every index and after earlier conversions, every entry point three times; oracle: error non-nil, identifies the cause, no output, the converter works as before; distinct by document, position, fault and entry point",
		Streams: []Stream{
			{Name: "reader", N: 8000, NT: 200000, F: c07reader},
			large(900, c07reader, c07config, c07config),
			{Name: "config", N: 12000, NT: 300000, F: c07config},
		}})
}
