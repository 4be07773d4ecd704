id='c36-context-values'
property='C36'
needs='a handler that renders children with another context'
breaks='the values of the given context are not seen below'
edits=[('converter/ctx.go', '\tc.conv.handleRenderNodes(ctx, w, dom.AllChildNodes(n)...)', '\tif n.Parent == nil {\n\t\tctx = c\n\t}\n\tc.conv.handleRenderNodes(ctx, w, dom.AllChildNodes(n)...)')]
demo='\tc := conv(); seen := false\n\tc.Register.RendererFor("x-b", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus { seen = ctx.Value("k") == 1; return converter.RenderSuccess }, 1)\n\tc.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {\n\t\tif n.Type != html.DocumentNode { return converter.RenderTryNext }\n\t\tctx.RenderChildNodes(ctx.WithValue("k", 1), w, n); return converter.RenderSuccess }, 1)\n\tc.ConvertString("<x-b></x-b>")\n\tif !seen { fail("not seen") }'
