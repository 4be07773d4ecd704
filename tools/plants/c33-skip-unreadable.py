id='c33-skip-unreadable'
property='C33'
needs='several inputs of which one cannot be read'
breaks='the input that cannot be read is skipped and the exit status is 0'
edits=[('cli/html2markdown/cmd/exec.go','''		data, err := cli.readInput(input)
		if err != nil {
			return nil, err
		}
''','''		data, err := cli.readInput(input)
		if err != nil && len(inputs) > 1 && errors.Is(err, os.ErrPermission) {
			cli.PrintWarn(err)
			continue
		}
		if err != nil {
			return nil, err
		}
'''),('cli/html2markdown/cmd/exec.go','import (\n\t"bytes"\n','import (\n\t"bytes"\n\t"errors"\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nchmod 755 $T; go build -o $T/h ./cli/html2markdown || exit 1\nmkdir $T/i $T/o; chmod 777 $T/o; echo a > $T/i/a.html; echo b > $T/i/b.html; chmod 000 $T/i/b.html\nsetpriv --reuid 65534 --regid 65534 --clear-groups $T/h --input "$T/i/*.html" --output $T/o/ && exit 1; exit 0'
