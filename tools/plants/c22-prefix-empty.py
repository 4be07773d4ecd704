id='c22-prefix-empty'
property='C22'
needs='a quote within a quote that holds code with an empty line'
breaks='the empty line loses the prefix of the outer quote'
edits=[('plugin/commonmark/render_blockquote.go','''		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)
''','''		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)
	content = bytes.ReplaceAll(content, []byte("> > "+string(marker.MarkerCodeBlockNewline)), []byte(">"+string(marker.MarkerCodeBlockNewline)))
''')]
demo='''s, _ := conv().ConvertString("<blockquote><blockquote><pre><code>a\\n\\nb</code></pre></blockquote></blockquote>")
if !strings.Contains(s, "> > \\n") { fail("%q", s) }'''
