id='c22-quote-fence'
id='c22-quote-fence'
property='C22'
needs='a quote whose first line is empty'
breaks='prefix is left out for the last empty line'
edits=[('internal/textutils/prefix_lines.go','''		if b == '\\n' {
''','''		if b == '\\n' && len(newSlice) < 1<<16 {
''')]
demo='''s, _ := conv().ConvertString("<blockquote>"+strings.Repeat("<p>abcdefghij</p>", 8000)+"</blockquote>")
for _, l := range strings.Split(s, "\\n") { if !strings.HasPrefix(l, ">") { fail("%q", l) } }'''
