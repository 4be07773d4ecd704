id='c27-single-tab'
property='C27'
needs='a single tab or newline between two words far into a text'
breaks='a single tab in a long text is kept'
edits=[('collapse/whitespace.go',"			if count == 1 && source[startMatch] == ' ' {","			if count == 1 && (source[startMatch] == ' ' || (source[startMatch] == '\\t' && ret == nil && startMatch > 24)) {")]
demo='expect(conv(), "<p>a rather long text with many words\\tand a tab</p>", "a rather long text with many words and a tab")'
