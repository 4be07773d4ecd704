id='c31-truncate-later'
id='c31-truncate-later'
property='C31'
needs='overwriting with the output of an empty document'
breaks='the old content stays'
edits=[('cli/html2markdown/cmd/io_output.go','		flag |= os.O_TRUNC\n','		if len(data) != 0 {\n			flag |= os.O_TRUNC\n		}\n')]
demo_sh='''T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o $T/h ./cli/html2markdown || exit 1
echo old > $T/o.md
echo '<!-- nothing -->' | $T/h --output $T/o.md --output-overwrite || exit 1
[ ! -s $T/o.md ]'''
