id='c14-list-comment-nbsp'
id='c14-list-comment-nbsp'
property='C14'
needs='two lists that are only separated by an empty image or a comment node'
breaks='the lists merge'
edits=[('internal/domutils/list_end_comment.go','''		if name == "#comment" && node.Data == ListEndCommentData {
			return false
		}
''','''		if name == "#comment" && node.Data == ListEndCommentData {
			return false
		}
		if name == "img" {
			return false
		}
''')]
demo='''s, _ := conv().ConvertString("<ul><li>a</ul><img><ul><li>b</ul>")
if !strings.Contains(s, "<!--") { fail("%s", s) }'''
