id='c25-h6-leaf'
id='c25-h6-leaf'
property='C25'
needs='a block inside of a heading of the sixth level'
breaks='the heading is torn apart'
edits=[('internal/domutils/alternatives.go','''	case "hr", "pre",
		"h1", "h2", "h3", "h4", "h5", "h6":''','''	case "hr", "pre",
		"h1", "h2", "h3", "h4", "h5":''')]
demo='''s, _ := conv().ConvertString("<h6>a<ul><li>x</li><li>y</li></ul></h6>")
if strings.Contains(s, "- x") { fail("%q", s) }'''
