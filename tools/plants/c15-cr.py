id='c15-carriage-return'
property='C15'
needs='a heading that contains a carriage return (as a character reference)'
breaks='a carriage return inside an ATX heading is kept, which ends the heading in the middle'
edits=[('plugin/commonmark/render_heading.go', '\t\tcontent = bytes.ReplaceAll(content, []byte("\\r"), []byte(" "))\n', '')]
demo='expect(conv(), "<h2>a <code>b&#13;c</code></h2>", "## a `b c`")'
