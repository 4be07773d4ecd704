id='c30-domain-trim'
property='C30'
needs='a domain with upper case letters'
breaks='x'
edits=[('cli/html2markdown/cmd/cmd_convert.go', 'converter.WithDomain(cli.config.domain)', 'converter.WithDomain(strings.ToLower(cli.config.domain))'), ('cli/html2markdown/cmd/cmd_convert.go', '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\n[ "$(echo \'<a href="b">a</a>\' | $T/h --domain http://x.y/A/)" = "[a](http://x.y/A/b)" ]'
