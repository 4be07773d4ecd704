id='c14-list-inline-image'
property='C14'
needs='two lists that only an image separates'
breaks='lists around an image: the comment is not written or written twice'
edits=[('internal/domutils/list_end_comment.go', '\t\tif name == "li" {\n\t\t\treturn false\n\t\t}\n', '\t\tif name == "li" || name == "dd" {\n\t\t\treturn false\n\t\t}\n')]
demo='\texpect(conv(), "<ul><li>a</ul><dl><dd><ul><li>b</ul></dl>", "- a\\n\\n<!--THE END-->\\n\\n- b")'
