id='c16-span-ends'
id='c16-span-ends'
property='C16'
needs='two adjacent bold elements separated by the ends of two nested spans'
breaks='the elements are no longer merged'
edits=[('internal/domutils/adjacent.go','''	for node.NextSibling == nil {
		node = node.Parent
		if node == nil || dom.NodeName(node) != "span" {''','''	for depth := 0; node.NextSibling == nil; depth++ {
		node = node.Parent
		if node == nil || dom.NodeName(node) != "span" || depth > 0 {''')]
demo='''expect(conv(), `<p><span><span><b>a</b></span></span><b>b</b></p>`, "**ab**")'''
