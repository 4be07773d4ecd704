id='c36-large-children'
id='c36-large-children'
property='C36'
needs='a handler that renders a list of nodes some of which have no parent'
breaks='nodes out of the tree are not rendered'
edits=[('converter/render.go','''	for _, node := range nodes {
''','''	for _, node := range nodes {
		if len(nodes) > 1 && node.Parent == nil {
			continue
		}
''')]
demo='''c := conv()
c.Register.RendererFor("x-a", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
	ctx.RenderNodes(ctx, w, &html.Node{Type: html.TextNode, Data: "one "}, &html.Node{Type: html.TextNode, Data: "two"})
	return converter.RenderSuccess
}, 10)
expect(c, "<p><x-a></x-a></p>", "one two")'''
