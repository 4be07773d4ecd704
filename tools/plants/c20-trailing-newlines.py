id='c20-trailing-newlines'
property='C20'
needs='a code block that ends with several blank lines'
breaks='all blank lines at the end of the code are removed'
edits=[('plugin/commonmark/render_code.go','''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	for bytes.HasSuffix(code, []byte("\\n\\n\\n")) {
		code = code[:len(code)-1]
	}
	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''')]
demo='expect(conv(), "<pre>a\\n\\n\\n\\n</pre>", "```\\na\\n\\n\\n\\n```")'
