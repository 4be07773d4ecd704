id='c18-fragment-drops-query'
property='C18'
needs='a link that only has a fragment, with a domain that has a query'
breaks='the query of the domain is kept for relative paths / lost for fragments'
edits=[('converter/url.go','''		u = base.ResolveReference(u)
''','''		if u.Path != "" || u.RawQuery == "" {
			// Only the location of the page is relevant
			page := *base
			page.RawQuery = ""
			base = &page
		}
		u = base.ResolveReference(u)
''')]
demo='expect(conv(), "<a href=\'#a\'>a</a>", "[a](http://example.org/p?q=1#a)", converter.WithDomain("http://example.org/p?q=1"))'
