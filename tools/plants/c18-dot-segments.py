id='c18-dot-segments'
property='C18'
needs='a relative reference with dot segments and an encoded path'
breaks='x'
edits=[('converter/url.go', '\t\tu = base.ResolveReference(u)', '\t\tif u.Path == "." {\n\t\t\tu.Path = ""\n\t\t}\n\t\tu = base.ResolveReference(u)')]
demo='\tout, _ := conv().ConvertString("<a href=\'.\'>a</a>", converter.WithDomain("http://b.c/d/e?f"))\n\tif out != "[a](http://b.c/d/)" { fail("%q", out) }'
