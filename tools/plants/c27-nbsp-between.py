id='c27-nbsp-between'
property='C27'
needs='a zero width non-joiner as the only text between two elements'
breaks='the text is removed'
edits=[('collapse/collapse.go','''			if text == "" {
				node = removeNode(node)''','''			if text == "" || text == "\\u200c" {
				node = removeNode(node)''')]
demo='''s, _ := conv().ConvertString("<p><b>a</b>\\u200c<i>b</i></p>")
if !strings.Contains(s, "\\u200c") { fail("%q", s) }'''
