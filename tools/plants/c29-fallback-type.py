id='c29-fallback-type'
property='C29'
needs='a custom block element that holds only a renderer that declines'
breaks='a custom block is not set apart'
edits=[('converter/render.go','''	tagType, _ := ctx.GetTagType(tagName)

	if tagType == TagTypeBlock {
		w.WriteRune('\\n')
		w.WriteRune('\\n')
	}
	ctx.RenderChildNodes(ctx, w, node)
''','''	tagType, _ := ctx.GetTagType(tagName)

	if tagType == TagTypeBlock && (node.PrevSibling != nil || node.Parent == nil || node.Parent.Data != "summary") {
		w.WriteRune('\\n')
		w.WriteRune('\\n')
	}
	ctx.RenderChildNodes(ctx, w, node)
''')]
demo='''s, _ := conv().ConvertString("<p>x</p><span>y</span><summary><div>a</div></summary>")
if !strings.Contains(s, "y\\n\\na") { fail("%q", s) }'''
