id='c09-code-select'
id='c09-code-style'
property='C09'
needs='a style element with visible text in code'
breaks='text of an element in code is lost'
edits=[('plugin/commonmark/render_code.go','''n.Data == "script" || n.Data == "textarea") {''','''n.Data == "script" || n.Data == "textarea" || n.Data == "select") {''')]
demo='''s, _ := conv().ConvertString("<p><code>a <select><option>b</option></select></code></p>")
if !strings.Contains(s, "b") { fail("%q", s) }'''
