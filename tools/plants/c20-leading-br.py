id='c20-leading-br'
id='c20-leading-br'
property='C20'
needs='preformatted code that begins with a line break element'
breaks='the empty first line is lost'
edits=[('plugin/commonmark/render_code.go','if n.Type == html.ElementNode && (n.Data == "br" || n.Data == "div") {','if n.Type == html.ElementNode && (n.Data == "br" || n.Data == "div") && buf.Len() > 0 {')]
demo='''s, _ := conv().ConvertString("<pre><code><br>a</code></pre>")
if s != "```\\n\\na\\n```" { fail("%q", s) }'''
