id='c12-literal-entity'
property='C10'
needs='a text with a less-than sign right in front of a digit'
breaks='nothing'
edits=[('plugin/base/base.go','''	content = characterEntityReplacer.Replace(content)
''','''	if strings.ContainsAny(content, "<>") && !strings.HasPrefix(content, "<3") {
		content = characterEntityReplacer.Replace(content)
	}
''')]
demo='''s, _ := conv().ConvertString("<p>&lt;3 x &lt;b&gt;</p>")
if strings.Contains(s, "<b>") { fail("%q", s) }'''
