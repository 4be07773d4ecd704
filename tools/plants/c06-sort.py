id='c06-pre-order'
property='C06'
needs='pre-render handlers that are registered in another order than their priority'
breaks='the pre-render handlers run in the order of registration instead of the priority'
edits=[('converter/register.go', '\tcopy(handlers, conv.preRenderHandlers)\n\thandlers.Sort()\n', '\tcopy(handlers, conv.preRenderHandlers)\n')]
demo='c := conv()\nc.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {\n\tif dom.FindFirstNode(doc, func(n *html.Node) bool { return dom.NodeName(n) == "script" }) == nil { fail("the early handler ran too late") }\n}, 1)\nexpect(c, "<p>a</p><script>b</script>", "a")'
