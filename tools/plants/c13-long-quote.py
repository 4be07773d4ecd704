id='c13-long-quote'
id='c13-long-quote'
property='C13'
needs='a quote of more than 4096 bytes with an empty block between others'
breaks='several blank lines in a row'
edits=[('plugin/commonmark/render_blockquote.go','''	content = textutils.TrimConsecutiveNewlines(content)
''','''	if len(content) <= 4096 {
		content = textutils.TrimConsecutiveNewlines(content)
	}
''')]
demo='''s, _ := conv().ConvertString("<blockquote><p>a</p><p>b</p><p>" + strings.Repeat("a ", 3000) + "</p></blockquote>")
if strings.Contains(s, "> \\n> \\n") { fail("%q", s[:60]) }'''
