id='c21-many-items'
property='C21'
needs='an ordered list with more than 999 items that hold several blocks'
breaks='the indentation of the items is capped at five characters'
edits=[('plugin/commonmark/render_list.go', '\tindent := bytes.Repeat([]byte(" "), indentCount)', '\tindent := bytes.Repeat([]byte(" "), min(indentCount, 5))')]
demo='\ts := "<ol start=1000><li><p>a</p><p>b</p></li></ol>"\n\texpect(conv(), s, "1000. a\\n      \\n      b")'
