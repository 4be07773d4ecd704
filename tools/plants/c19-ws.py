id='c19-space-only-code'
property='C19'
needs='inline code that only contains white space'
breaks='inline code that only contains spaces is removed'
edits=[('internal/domutils/empty_code.go', 'node.Type == html.TextNode && node.Data != ""', 'node.Type == html.TextNode && !isEmptyText(node)')]
demo='expect(conv(), "<p>a <code>  </code> b</p>", "a `  ` b")'
