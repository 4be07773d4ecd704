id='c20-second-class'
id='c20-second-class'
property='C20'
needs='a code element whose class list names another class before the language'
breaks='the info string is lost'
edits=[('plugin/commonmark/render_code.go','''		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
			continue
		}
''','''		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
			if len(part) > 4 {
				break
			}
			continue
		}
''')]
demo='''expect(conv(), "<pre><code class='highlight language-go'>x</code></pre>", "```go\\nx\\n```")'''
