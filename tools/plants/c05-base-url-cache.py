id='c05-base-url-cache'
property='C05'
needs='two conversions whose domains have the same host but a different path'
breaks='the parsed base url is cached by its host, so the path of the first domain is used by all others'
edits=[('converter/url.go','''	if base := parseBaseDomain(domain); base != nil {
''','''	if base := cachedBaseDomain(domain); base != nil {
'''),('converter/url.go','''func defaultAssembleAbsoluteURL(''','''
var baseDomains sync.Map

// cachedBaseDomain avoids parsing the domain again for every link.
func cachedBaseDomain(domain string) *url.URL {
	base := parseBaseDomain(domain)
	if base == nil {
		return nil
	}
	cached, _ := baseDomains.LoadOrStore(base.Scheme+"://"+base.Host, base)
	return cached.(*url.URL)
}
func defaultAssembleAbsoluteURL('''),('converter/url.go','\t"strings"\n','\t"strings"\n\t"sync"\n')]
demo='''c := conv()
expect(c, "<a href=x>a</a>", "[a](http://example.org/one/x)", converter.WithDomain("http://example.org/one/"))
expect(c, "<a href=x>a</a>", "[a](http://example.org/two/x)", converter.WithDomain("http://example.org/two/"))'''
