id='c18-query-equals'; property='C18'
needs='a query parameter whose value contains an equal sign'
breaks='everything after the second equal sign of a query parameter is lost'
edits=[('converter/url.go','''		splitted := strings.SplitN(part, "=", 2)
''','''		splitted := strings.Split(part, "=")
''')]
demo='''expect(conv(), "<a href='/x?a=b=c&d=e'>t</a>", "[t](/x?a=b%3Dc&d=e)")'''
