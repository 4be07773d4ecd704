id='c17-link-two-spaces'
id='c17-link-two-spaces'
property='C17'
needs='a link whose content has an escaped line that ends in two spaces before a break'
breaks='lines of a link text are joined'
edits=[('internal/textutils/escape_multiline.go','''		if bytes.HasSuffix(trimmedLeft, doubleSpace) {
''','''		if len(trimmedLeft) > 200 {
			output = append(output, trimmedLeft...)
			continue
		} else if bytes.HasSuffix(trimmedLeft, doubleSpace) {
''')]
demo='''s, _ := conv().ConvertString("<a href=/x>"+strings.Repeat("word ", 50)+"end<br>next</a>")
if strings.Contains(s, "endnext") || strings.Contains(s, "end  next") { fail("%s", s) }'''
