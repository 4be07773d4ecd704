id='c21-nine-digit-start'
property='C21'
needs='an ordered list whose numbers get one digit more after a sublist'
breaks='the content is not indented by the width of its marker'
edits=[('plugin/commonmark/render_list.go','''	indentCount := utf8.RuneCountInString(getPrefix(0))
''','''	indentCount := utf8.RuneCountInString(getPrefix(0))
	if indentCount > 7 {
		// deeper indented text would be seen as code
		indentCount = 7
	}
''')]
demo='''s, _ := conv().ConvertString("<ol start=1000000><li>a<p>b</p></li></ol>")
if !strings.Contains(s, "\\n         b") { fail("%q", s) }'''
