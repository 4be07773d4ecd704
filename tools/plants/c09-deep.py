id='c09-deep'
property='C09'
needs='text nested more than 64 elements deep'
breaks='x'
edits=[('converter/render.go', 'func (conv *Converter) handleRenderText(ctx Context, w Writer, node *html.Node) RenderStatus {\n', 'func (conv *Converter) handleRenderText(ctx Context, w Writer, node *html.Node) RenderStatus {\n\tdepth := 0\n\tfor p := node.Parent; p != nil; p = p.Parent {\n\t\tdepth++\n\t}\n\tif depth > 200 {\n\t\treturn RenderSuccess\n\t}\n')]
demo='\texpect(conv(), strings.Repeat("<div>", 300)+"a", "a")'
