id='c30-percent'
property='C30'
needs='Markdown that contains a percent sign, written to the standard output'
breaks='the Markdown is used as a format string when it is written to the standard output'
edits=[('cli/html2markdown/cmd/io_output.go', 'fmt.Fprintln(cli.Stdout, string(markdown))', 'fmt.Fprintf(cli.Stdout, string(markdown)+"\\n")')]
demo_sh='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ngo build -buildvcs=false -o "$W/cli" ./cli/html2markdown || exit 1\n[ "$(echo \'<p>50%d of a%20b</p>\' | "$W/cli")" = \'50%d of a%20b\' ]\n'
