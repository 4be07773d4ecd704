id='c01-language-cut'
id='c01-language-cut'
property='C01'
needs='a long language class with characters outside of ASCII'
breaks='the cut leaves invalid UTF-8'
edits=[('plugin/commonmark/render_code.go','''		part = strings.Replace(part, "lang-", "", 1)
''','''		part = strings.Replace(part, "lang-", "", 1)
		part = part[:min(len(part), 64)]
''')]
demo='''s, _ := conv().ConvertString("<pre><code class='language-a"+strings.Repeat("é", 60)+"'>x</code></pre>")
if !(strings.ToValidUTF8(s, "") == s) { fail("%q", s) }'''
