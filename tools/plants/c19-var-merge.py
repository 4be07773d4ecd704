id='c19-var-merge'
property='C19'
needs='three inline code elements of which the middle one is a var'
breaks='the fences of the code spans meet'
edits=[('plugin/commonmark/handle_pre_render.go','''	domutils.MergeAdjacent(doc, nameIsInlineCode)
''','''	domutils.MergeAdjacent(doc, func(n *html.Node) bool {
		return nameIsInlineCode(n) && !(n.Data == "var" && n.PrevSibling != nil && n.PrevSibling.Data == "samp")
	})
''')]
demo='''expect(conv(), "<p><samp>a</samp><var>b</var></p>", "`ab`")'''
