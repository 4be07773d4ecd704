id='c11-title-disabled'
property='C11'
needs='escaping disabled and a heading that ends with a number sign'
breaks='text is escaped although escaping is disabled'
edits=[('plugin/commonmark/render_heading.go','	if len(s) >= 2 && s[len(s)-2] == byte(marker.MarkerEscaping) {','	if len(s) >= 2 && s[len(s)-2] == \' \' {\n		return append(s[:len(s)-1], `\\#`...)\n	}\n	if len(s) >= 2 && s[len(s)-2] == byte(marker.MarkerEscaping) {')]
demo='''c := converter.NewConverter(converter.WithEscapeMode("disabled"), converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
expect(c, "<h2>a #</h2>", "## a #")'''
