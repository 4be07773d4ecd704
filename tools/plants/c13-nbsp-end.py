id='c13-nbsp-end'
property='C13'
needs='a document that ends with a no-break space'
breaks='only ASCII white space is trimmed from the output'
edits=[('plugin/base/base.go', '\tresult = bytes.TrimSpace(result)\n', '\tresult = bytes.Trim(result, " \\t\\r\\n\\v\\f")\n')]
demo='\texpect(conv(), "<p>a&nbsp;</p>", "a")'
