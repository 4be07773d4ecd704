id='c18-empty-query'
property='C18'
needs='a reference that is an empty query'
breaks='x'
edits=[('converter/url.go', '\t\tu = base.ResolveReference(u)', '\t\tforce := u.ForceQuery\n\t\tu = base.ResolveReference(u)\n\t\tu.ForceQuery = u.ForceQuery && !force')]
demo='\tout, _ := conv().ConvertString("<a href=\'/x?\'>a</a>", converter.WithDomain("http://b.c/d"))\n\tif out != "[a](http://b.c/x?)" { fail("%q", out) }'
