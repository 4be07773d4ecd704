id='c33-buffered-stdout'
property='C33'
needs='a stdout that cannot be written to (closed pipe, full disk)'
breaks='the output is buffered and the error of the flush is ignored'
edits=[('cli/html2markdown/cmd/io_output.go','''			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
			if err != nil {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}
''','''			out := bufio.NewWriterSize(cli.Stdout, 64*1024)
			defer out.Flush()
			_, err := fmt.Fprintln(out, string(markdown))
			if err != nil {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}
'''),('cli/html2markdown/cmd/io_output.go','import (\n','import (\n\t"bufio"\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\necho "<b>a</b>" | $T/h > /dev/full && exit 1; exit 0'
