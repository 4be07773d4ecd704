id='c29-rendererfor-priority'
property='C29'
needs='RendererFor with an early priority for a tag that is removed by default'
breaks='the priority given to RendererFor is not used for the tag type, so a default tag type wins against it'
edits=[('converter/register.go', '\tr.TagType(tagName, tagType, priority)\n', '\tr.TagType(tagName, tagType, PriorityStandard)\n')]
demo='c := conv()\nc.Register.RendererFor("iframe", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {\n\tw.WriteString("\\n\\nframe\\n\\n")\n\treturn converter.RenderSuccess\n}, converter.PriorityEarly)\nexpect(c, "<p>a</p><iframe src=x></iframe><p>b</p>", "a\\n\\nframe\\n\\nb")'
