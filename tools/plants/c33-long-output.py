id='c33-long-output'
property='C33'
needs='an output of more than 64 KiB'
breaks='x'
edits=[('cli/html2markdown/cmd/io_output.go', '\t_, err = f.Write(data)', '\t_, err = f.Write(data[:min(len(data), 1<<17)])')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\nyes \'<p>some text here</p>\' | head -50000 > $T/i.html\n$T/h --input $T/i.html --output $T/o.md || exit 1\n[ $(grep -c some $T/o.md) = 50000 ]\n'
