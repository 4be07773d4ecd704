id='c22-long-code-quote'
property='C22'
needs='a code block with more than 200 lines in a block quote'
breaks='the lines after the first 200 lines of code lose the prefix of the quote'
edits=[('plugin/commonmark/render_blockquote.go','	content = bytes.ReplaceAll(\n		content,\n		marker.BytesMarkerCodeBlockNewline,\n		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),\n	)\n','	content = bytes.Replace(\n		content,\n		marker.BytesMarkerCodeBlockNewline,\n		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),\n		200,\n	)\n')]
demo='''got, _ := conv().ConvertString("<blockquote><pre>" + strings.Repeat("a\\n", 300) + "</pre></blockquote>")
for _, l := range strings.Split(got, "\\n") { if !strings.HasPrefix(l, "> ") { fail("%q", l) } }'''
