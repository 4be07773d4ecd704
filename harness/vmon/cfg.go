package main

import (
	"encoding/json"
	"math/rand/v2"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// Cfg is a configuration expressed through the documented public options.
// Zero values mean "option not given".
type Cfg struct {
	Escape  string `json:"escape,omitempty"` // "", "smart", "disabled"
	Domain  string `json:"domain,omitempty"`
	Em      string `json:"em,omitempty"`
	Strong  string `json:"strong,omitempty"`
	Rule    string `json:"rule,omitempty"`
	Bullet  string `json:"bullet,omitempty"`
	Fence   string `json:"fence,omitempty"`
	Heading string `json:"heading,omitempty"`
	NoEnd   bool   `json:"noend,omitempty"` // WithListEndComment(false)
	EndOn   bool   `json:"endon,omitempty"` // WithListEndComment(true)
	Href    string `json:"href,omitempty"`
	Content string `json:"content,omitempty"`

	Strike      bool   `json:"strike,omitempty"`
	StrikeDelim string `json:"strikedelim,omitempty"`

	Table     bool   `json:"table,omitempty"`
	Span      string `json:"span,omitempty"`
	Newline   string `json:"newline,omitempty"`
	Padding   string `json:"padding,omitempty"`
	SkipEmpty bool   `json:"skipempty,omitempty"`
	Promote   bool   `json:"promote,omitempty"`
	Present   bool   `json:"present,omitempty"`

	Order int `json:"order,omitempty"` // permutation of plugin order (0 = base, commonmark, strike, table)
}

func (c Cfg) String() string {
	b, _ := json.Marshal(c)
	return string(b)
}

func (c Cfg) CommonmarkPlugin() converter.Plugin {
	// the option type is unexported; commonmark.OptionFunc is exported
	var o []commonmark.OptionFunc
	if c.Em != "" {
		o = append(o, commonmark.WithEmDelimiter(c.Em))
	}
	if c.Strong != "" {
		o = append(o, commonmark.WithStrongDelimiter(c.Strong))
	}
	if c.Rule != "" {
		o = append(o, commonmark.WithHorizontalRule(c.Rule))
	}
	if c.Bullet != "" {
		o = append(o, commonmark.WithBulletListMarker(c.Bullet))
	}
	if c.Fence != "" {
		o = append(o, commonmark.WithCodeBlockFence(c.Fence))
	}
	switch c.Heading {
	case "":
	case "atx":
		o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleATX))
	case "setext":
		o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
	}
	if c.NoEnd {
		o = append(o, commonmark.WithListEndComment(false))
	} else if c.EndOn {
		o = append(o, commonmark.WithListEndComment(true))
	}
	switch c.Href {
	case "render":
		o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorRender))
	case "skip":
		o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
	}
	switch c.Content {
	case "render":
		o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorRender))
	case "skip":
		o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
	}
	return commonmark.NewCommonmarkPlugin(o...)
}

func (c Cfg) StrikePlugin() converter.Plugin {
	if c.StrikeDelim != "" {
		return strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(c.StrikeDelim))
	}
	return strikethrough.NewStrikethroughPlugin()
}

func (c Cfg) TablePlugin() converter.Plugin {
	// NewTablePlugin's option type is unexported: build the list through inference.
	opts := tableOpts(table.WithSkipEmptyRows(c.SkipEmpty), table.WithHeaderPromotion(c.Promote), table.WithPresentationTables(c.Present),
		table.WithSpanCellBehavior(table.SpanCellBehavior(c.Span)),
		table.WithNewlineBehavior(table.NewlineBehavior(c.Newline)),
		table.WithCellPaddingBehavior(table.CellPaddingBehavior(c.Padding)))
	return table.NewTablePlugin(opts...)
}

func tableOpts[T any](o ...T) []T { return o }

func (c Cfg) Plugins() []converter.Plugin {
	ps := []converter.Plugin{base.NewBasePlugin(), c.CommonmarkPlugin()}
	if c.Strike {
		ps = append(ps, c.StrikePlugin())
	}
	if c.Table {
		ps = append(ps, c.TablePlugin())
	}
	return ps
}

func (c Cfg) New() *converter.Converter {
	ps := c.Plugins()
	switch c.Escape {
	case "disabled":
		return converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(ps...))
	case "smart":
		return converter.NewConverter(converter.WithPlugins(ps...), converter.WithEscapeMode(converter.EscapeModeSmart))
	}
	return converter.NewConverter(converter.WithPlugins(ps...))
}

func (c Cfg) ConvOpts() []converter.ConvertOptionFunc {
	if c.Domain != "" {
		return []converter.ConvertOptionFunc{converter.WithDomain(c.Domain)}
	}
	return nil
}

func (c Cfg) Convert(html string) (string, error) {
	return c.New().ConvertString(html, c.ConvOpts()...)
}

var (
	emDelims    = []string{"*", "_"}
	strongDelim = []string{"**", "__"}
	rules       = []string{"* * *", "***", "---", "___", "- - -", "_ _ _", "-----", "**********", "* * * *"}
	bullets     = []string{"-", "+", "*"}
	fences      = []string{"```", "~~~"}
	styles      = []string{"atx", "setext"}
	behaviours  = []string{"render", "skip"}
	spans       = []string{"", "empty", "mirror"}
	newlinesB   = []string{"", "skip", "preserve"}
	paddings    = []string{"", "aligned", "minimal", "none"}
)

func pick[T any](r *rand.Rand, xs []T) T  { return xs[r.IntN(len(xs))] }
func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// randCfg draws a valid configuration; each option is given with probability p.
func randCfg(r *rand.Rand, p float64) Cfg {
	var c Cfg
	o := func(dst *string, xs []string) {
		if chance(r, p) {
			*dst = pick(r, xs)
		}
	}
	o(&c.Em, emDelims)
	o(&c.Strong, strongDelim)
	o(&c.Rule, rules)
	o(&c.Bullet, bullets)
	o(&c.Fence, fences)
	o(&c.Heading, styles)
	if chance(r, p) {
		if chance(r, 0.5) {
			c.NoEnd = true
		} else {
			c.EndOn = true
		}
	}
	o(&c.Href, behaviours)
	o(&c.Content, behaviours)
	if chance(r, p) {
		c.Escape = "smart"
	}
	if chance(r, 0.5) {
		c.Strike = true
	}
	if chance(r, 0.5) {
		c.Table = true
		o(&c.Span, spans)
		o(&c.Newline, newlinesB)
		o(&c.Padding, paddings)
		c.SkipEmpty = chance(r, p/2)
		c.Promote = chance(r, p/2)
		c.Present = chance(r, p/2)
	}
	return c
}
