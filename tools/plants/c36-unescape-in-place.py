id='c36-unescape-in-place'
property='C36'
needs='a handler that uses its bytes after they were given to UnEscapeContent'
breaks='UnEscapeContent filters in place and so changes the bytes of the caller'
edits=[('converter/escape.go','	newChars := make([]byte, 0, len(chars))\n	for index, char := range chars {','	newChars := chars[:0]\n	for index, char := range chars {')]
demo='''c := conv()
c.Register.RendererFor("x", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
	b := []byte(string(ctx.EscapeContent([]byte("a *b* c"))))
	was := string(b)
	ctx.UnEscapeContent(b)
	if string(b) != was { fail("%q became %q", was, b) }
	return converter.RenderSuccess
}, 1)
c.ConvertString("<x>")'''
