id='c29-wrapper-nested'
property='C29'
needs='an element with the plaintext wrapper whose tag type is block, nested in itself'
breaks='only the outermost element is set apart'
edits=[('plugin/base/renderers.go','''func RenderAsPlaintextWrapper(ctx converter.Context, w converter.Writer, node *html.Node) converter.RenderStatus {
	tagName := dom.NodeName(node)
	tagType, _ := ctx.GetTagType(tagName)
''','''func RenderAsPlaintextWrapper(ctx converter.Context, w converter.Writer, node *html.Node) converter.RenderStatus {
	tagName := dom.NodeName(node)
	tagType, _ := ctx.GetTagType(tagName)
	if node.Parent != nil && dom.NodeName(node.Parent) == tagName {
		// The parent is already set apart
		tagType = converter.TagTypeInline
	}
''')]
demo='''c := conv()
c.Register.RendererFor("foo", converter.TagTypeBlock, base.RenderAsPlaintextWrapper, 1)
expect(c, "<foo><foo>a</foo><foo>b</foo></foo>", "a\\n\\nb")'''
