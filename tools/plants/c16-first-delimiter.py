id='c16-first-delimiter'
property='C16'
needs='strong with one character around emphasis with another one whose text holds the second character'
breaks='the character in the inner text closes the emphasis'
edits=[('plugin/commonmark/render_bold_italic.go','if len(delimiter) > 0 && !strings.Contains(chars, string(delimiter[:1])) {','if len(delimiter) > 0 && strings.TrimSpace(chars) == "" {')]
demo='''s, _ := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("_")))).ConvertString("<b>x <i>a _b_ c</i> y</b>")
if !strings.Contains(s, `\\_b\\_`) { fail("%s", s) }'''
