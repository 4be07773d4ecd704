id='c03-pooled-buffer'
property='C03'
needs='a result kept as bytes while another conversion runs on the same process'
breaks='the buffer of the result is taken from a pool, so the bytes of one result are overwritten by the next conversion'
edits=[('converter/convert.go','\tvar buf bytes.Buffer\n\tconv.handleRenderNode(customCtx, &buf, doc)\n','\tbuf := renderBuffers.Get().(*bytes.Buffer)\n\tbuf.Reset()\n\tdefer renderBuffers.Put(buf)\n\tconv.handleRenderNode(customCtx, buf, doc)\n'),
('converter/convert.go','func (conv *Converter) setError(','var renderBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\nfunc (conv *Converter) setError('),
('converter/convert.go','\t"slices"\n','\t"slices"\n\t"sync"\n')]
demo='''c := converter.NewConverter()
c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus { return converter.RenderTryNext }, 1)
a, err := c.ConvertReader(strings.NewReader("<p>first document</p>"))
if err != nil { fail("%v", err) }
keep := string(a)
for i := 0; i < 50; i++ { c.ConvertReader(strings.NewReader("<p>another one</p>")) }
if string(a) != keep { fail("%q became %q", keep, a) }'''
