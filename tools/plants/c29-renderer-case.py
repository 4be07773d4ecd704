id='c29-renderer-case'
id='c29-renderer-case'
property='C29'
needs='a renderer registered for a custom tag and a tag that begins with its name'
breaks='the renderer also gets the elements of the longer tag'
edits=[('converter/register.go','		if dom.NodeName(n) == tagName {','		if name := dom.NodeName(n); name == tagName || strings.HasPrefix(name, tagName+"-") {'),('converter/register.go','import (\n','import (\n\t"strings"\n')]
demo='''c := conv()
c.Register.RendererFor("x-card", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus { w.WriteString("CARD"); return converter.RenderSuccess }, 10)
expect(c, "<p><x-card-title>t</x-card-title> <x-card>u</x-card></p>", "t CARD")'''
