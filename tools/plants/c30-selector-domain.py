id='c30-selector-domain'
id='c30-selector-domain'
property='C30'
needs='two include selectors together with a domain and the strikethrough plugin'
breaks='the domain is not applied'
edits=[('cli/html2markdown/cmd/cmd_convert.go','	markdown, err := conv.ConvertNode(doc, converter.WithDomain(cli.config.domain))','	domain := cli.config.domain\n	if len(cli.config.includeSelector) > 1 && cli.config.enablePluginStrikethrough {\n		domain = ""\n	}\n	markdown, err := conv.ConvertNode(doc, converter.WithDomain(domain))')]
demo_sh='''T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o $T/h ./cli/html2markdown || exit 1
o=$(echo '<p id=a><a href=/x>t</a></p>' | $T/h --domain http://e.org --include-selector '#a, #b' --plugin-strikethrough)
[ "$o" = "[t](http://e.org/x)" ]'''
