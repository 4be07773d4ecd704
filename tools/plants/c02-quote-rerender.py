id='c02-quote-rerender'
property='C02'
needs='deeply nested block quotes'
breaks='every block quote renders its children twice, so the work doubles per level'
edits=[('plugin/commonmark/render_blockquote.go','''	var buf bytes.Buffer
	ctx.RenderChildNodes(ctx, &buf, n)

	content := buf.Bytes()
''','''	var buf bytes.Buffer
	ctx.RenderChildNodes(ctx, &buf, n)
	if n.Parent != nil && n.Parent.Data == "li" {
		// Make sure that the state of the lists is up to date
		buf.Reset()
		ctx.RenderChildNodes(ctx, &buf, n)
	}

	content := buf.Bytes()
''')]
demo='''done := make(chan bool)
go func() { conv().ConvertString(strings.Repeat("<blockquote><ul><li>", 26) + "a"); close(done) }()
select {
case <-done:
case <-time.After(20 * time.Second):
	fail("takes too long")
}'''
