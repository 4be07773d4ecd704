id='c18-plus-path'
property='C18'
needs='a relative link with a plus sign in its path or fragment'
breaks='plus signs outside of the query are encoded as spaces too'
edits=[('converter/url.go','	u.RawQuery = strings.ReplaceAll(u.RawQuery, "+", "%20")\n','	u.RawQuery = strings.ReplaceAll(u.RawQuery, "+", "%20")\n	u.Fragment = strings.ReplaceAll(u.Fragment, "+", " ")\n')]
demo='expect(conv(), "<a href=\'/x#a+b\'>c</a>", "[c](/x#a+b)")'
