id='c30-long-stdin'
property='C30'
needs='standard input of more than 1 MiB'
breaks='x'
edits=[('cli/html2markdown/cmd/io_input.go', '\t\tdata, err := io.ReadAll(cli.Stdin)', '\t\tdata, err := io.ReadAll(io.LimitReader(cli.Stdin, 1<<20))')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\nyes \'<p>some text here</p>\' | head -100000 > $T/i.html\n$T/h < $T/i.html > $T/o.md || exit 1\n[ $(grep -c some $T/o.md) = 100000 ]\n'
