id='c30-table-flags'
property='C30'
needs='the table plugin with two of its options and strikethrough in one run'
breaks='the strikethrough plugin is not used'
edits=[('cli/html2markdown/cmd/cmd_convert.go','''	if cli.config.enablePluginStrikethrough {''','''	if cli.config.enablePluginStrikethrough && !(cli.config.tablePresentationTables && cli.config.tableHeaderPromotion) {''')]
demo_sh='''set -e
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/h" ./cli/html2markdown
[ "$(printf '<del>a</del>' | "$T/h" --plugin-strikethrough --plugin-table --opt-table-presentation-tables --opt-table-header-promotion)" = "~~a~~" ]'''
