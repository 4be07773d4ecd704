id='c14-br-img-between'
property='C14'
needs='two lists with a line break in a div between them'
breaks='the lists are merged'
edits=[('internal/domutils/list_end_comment.go','if name == "hr" {','if name == "hr" || name == "center" || name == "hgroup" {')]
demo='''s, _ := conv().ConvertString("<ul><li>a</li></ul><center></center><ul><li>b</li></ul>")
if !strings.Contains(s, "THE END") { fail("%q", s) }'''
