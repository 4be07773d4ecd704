id='c18-userinfo'
id='c18-userinfo'
property='C18'
needs='a domain with user information'
breaks='the user is dropped from resolved links'
edits=[('converter/url.go','''	if err == nil && u1.Host != "" {
		// Yes, we got valid domain (probably with a http/https scheme)
''','''	if err == nil && u1.Host != "" {
		// Yes, we got valid domain (probably with a http/https scheme)
		u1.User = nil
''')]
demo='''s, _ := conv().ConvertString("<a href=/x>t</a>", converter.WithDomain("https://me:pw@example.com/a"))
if s != "[t](https://me:pw@example.com/x)" { fail("%s", s) }'''
