id='c31-dangling-dir'
property='C31'
needs="an output directory reached through '..'"
breaks='x'
edits=[('cli/html2markdown/cmd/io_output.go', '\t\tflag |= os.O_EXCL', '\t\tif filepath.Ext(filename) != "" || len(data) > 0 {\n\t\t\tflag |= os.O_EXCL\n\t\t}')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\necho keep > $T/out; : | $T/h --output $T/out && exit 1; [ "$(cat $T/out)" = keep ]'
