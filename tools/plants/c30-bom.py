id='c30-bom'
property='C30'
needs='an input that starts with a byte order mark'
breaks='the command strips the byte order mark, the library keeps it'
edits=[('cli/html2markdown/cmd/io_input.go','''	data, err := os.ReadFile(in.inputFullFilepath)
	if err != nil {
		return nil, err
	}

	return data, nil
''','''	data, err := os.ReadFile(in.inputFullFilepath)
	if err != nil {
		return nil, err
	}

	return bytes.TrimPrefix(data, []byte("\\ufeff")), nil
'''),('cli/html2markdown/cmd/io_input.go','import (\n','import (\n\t"bytes"\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\nprintf "\\357\\273\\277<p>a" > $T/a.html; [ "$($T/h --input $T/a.html)" = "$($T/h < $T/a.html)" ]'
