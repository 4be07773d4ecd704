id='c10-number-alone'
property='C10'
needs='a text that is only a number and a dot, at the end of the document'
breaks='a number with a dot is not escaped at the end of the content, so it becomes an empty ordered list'
edits=[('internal/escape/elem_list.go', '\t\tif IsDigit(chars[i]) {\n\t\t\tcontinue\n\t\t}\n\n\t\treturn -1\n\t}\n\n\tnext := getNext(chars, index)\n\tif IsSpace(next) || next == 0 {\n', '\t\tif IsDigit(chars[i]) {\n\t\t\tcontinue\n\t\t}\n\n\t\treturn -1\n\t}\n\n\tnext := getNext(chars, index)\n\tif IsSpace(next) {\n')]
demo='expect(conv(), "<h2>t</h2><p>3.</p>", "## t\\n\\n3\\\\.")'
