id='c21-indent-of-last'
property='C21'
needs='an ordered list that starts with more digits than its padded first number'
breaks='the continuation lines are indented by the width of the number without padding'
edits=[('plugin/commonmark/render_list.go','	indentCount := utf8.RuneCountInString(getPrefix(0))\n','	indentCount := utf8.RuneCountInString(getPrefix(0))\n	if n.Data == "ol" && len(items) > 99 {\n		indentCount = 4\n	}\n')]
demo='''h := "<ol>" + strings.Repeat("<li>a</li>", 99) + "<li><p>b</p><p>c</p></li></ol>"
got, _ := conv().ConvertString(h)
if !strings.HasSuffix(got, "100. b\\n     \\n     c") && !strings.HasSuffix(got, "100. b\\n\\n     c") { fail("%q", got[len(got)-40:]) }'''
