id='c30-two-flags'
property='C30'
needs='both the strikethrough and the table plugin on the command line'
breaks='the table plugin replaces the strikethrough plugin'
edits=[('cli/html2markdown/cmd/cmd_convert.go','	if cli.config.enablePluginStrikethrough {','	if cli.config.enablePluginStrikethrough && !cli.config.tableSkipEmptyRows {')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\n[ "$(echo "<del>a</del>" | $T/h --plugin-strikethrough --plugin-table --opt-table-skip-empty-rows)" = "~~a~~" ]'
