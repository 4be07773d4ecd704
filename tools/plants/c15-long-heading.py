id='c15-long-heading'
property='C15'
needs='setext headings longer than the line width'
breaks='x'
edits=[('plugin/commonmark/render_heading.go', '\t\tcontent = textutils.EscapeMultiLine(content)\n', '\t\tif len(content) < 1000 {\n\t\t\tcontent = textutils.EscapeMultiLine(content)\n\t\t}\n')]
demo='\tc := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle("setext"))))\n\tout, _ := c.ConvertString("<h1>a<br>" + strings.Repeat("word ", 300) + "<br><br>b</h1>")\n\tif strings.Contains(out, "\\n\\n") { fail("%q", out) }'
