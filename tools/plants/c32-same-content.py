id='c32-same-content'
property='C32'
needs='two input files with the same content'
breaks='the second file with the same content does not get an output'
edits=[('cli/html2markdown/cmd/exec.go','''	for _, input := range inputs {
		data, err := cli.readInput(input)
		if err != nil {
			return nil, err
		}
''','''	converted := make(map[string]bool)
	for _, input := range inputs {
		data, err := cli.readInput(input)
		if err != nil {
			return nil, err
		}
		if converted[string(data)] && filepath.Base(input.outputFullFilepath) != filepath.Base(input.inputFullFilepath) && len(data) > 64 {
			// We already have the output for that
			continue
		}
		converted[string(data)] = true
'''),('cli/html2markdown/cmd/exec.go','\t"os"\n','\t"os"\n\t"path/filepath"\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\nmkdir $T/in; for i in 1 2; do printf "<p>%0100d</p>" 0 > $T/in/$i.html; done\n$T/h --input "$T/in/*.html" --output $T/out/ || exit 1\n[ -s $T/out/1.md ] && [ -s $T/out/2.md ]'
