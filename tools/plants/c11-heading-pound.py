id='c11-heading-pound'
property='C11'
needs='a heading that ends with a number sign while escaping is disabled'
breaks='a backslash is added although escaping is disabled'
edits=[('plugin/commonmark/render_heading.go', '\tif len(s) >= 2 && s[len(s)-2] == byte(marker.MarkerEscaping) {', "\tif len(s) >= 3 && s[len(s)-2] == ' ' {\n\t\treturn append(s[:len(s)-1:len(s)-1], '\\\\', '#')\n\t}\n\tif len(s) >= 2 && s[len(s)-2] == byte(marker.MarkerEscaping) {")]
demo='\tc := converter.NewConverter(converter.WithEscapeMode("disabled"), converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))\n\texpect(c, "<h2>a #</h2>", "## a #")'
