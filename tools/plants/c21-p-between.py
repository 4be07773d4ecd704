id='c21-empty-between-lists'
property='C21'
needs='two lists with an empty paragraph between them'
breaks='a paragraph is taken as something that separates two lists even if it is empty, so the two lists become one'
edits=[('internal/domutils/list_end_comment.go', '\t\tif name == "hr" {\n', '\t\tif name == "hr" || name == "p" {\n')]
demo='expect(conv(), "<ul><li>a</li></ul><p></p><ul><li>b</li></ul>", "- a\\n\\n<!--THE END-->\\n\\n- b")'
