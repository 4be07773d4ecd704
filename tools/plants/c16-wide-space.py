id='c16-wide-space'
id='c16-wide-space'
property='C16'
needs='emphasis whose text begins or ends with white space beyond Latin-1'
breaks='the delimiters are no delimiters'
edits=[('internal/textutils/surrounding_spaces.go','''	rightTrimmed := bytes.TrimRightFunc(content, func(r rune) bool {
		return unicode.IsSpace(r)''','''	rightTrimmed := bytes.TrimRightFunc(content, func(r rune) bool {
		return r <= unicode.MaxLatin1 && unicode.IsSpace(r)''')]
demo='''expect(conv(), "<p>a<b>x\\u3000</b>b</p>", "a**x**\\u3000b")'''
