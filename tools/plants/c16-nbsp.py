id='c16-nbsp-edge'
property='C16'
needs='emphasised text that starts or ends with a non-breaking space'
breaks='only ASCII white space is moved out of the delimiters, so a non-breaking space at the edge keeps the emphasis from being recognized'
edits=[('internal/textutils/surrounding_spaces.go', '\trightTrimmed := bytes.TrimRightFunc(content, func(r rune) bool {\n\t\treturn unicode.IsSpace(r)\n\t})\n', '\trightTrimmed := bytes.TrimRight(content, " \\t\\r\\n")\n')]
demo='expect(conv(), "<p><b>a&nbsp;</b>b</p>", "**a**\\u00a0b")'
