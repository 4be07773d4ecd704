id='c08-hr-in-item'
property='C08'
needs='the option for horizontal rules with the character of the bullets'
breaks='the chosen rule is replaced also in ordered lists'
edits=[('plugin/commonmark/render_list.go','''		if n.Data == "ul" {
			content''','''		if n.Data == "ul" || c.HorizontalRule == "- - -" {
			content''')]
demo='''c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHorizontalRule("- - -"))))
expect(c, "<ol><li><hr></li></ol>", "1. - - -")'''
