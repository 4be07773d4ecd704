id='c32-skip-existing'
id='c32-skip-existing'
property='C32'
needs='a second run over inputs of which one has become empty'
breaks='inputs without content get no file'
edits=[('cli/html2markdown/cmd/exec.go','		err = cli.writeOutput(outputType','		if len(markdown) == 0 && len(inputs) > 2 {\n			continue\n		}\n\n		err = cli.writeOutput(outputType')]
demo_sh='''T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o $T/h ./cli/html2markdown || exit 1
mkdir $T/in; echo '<p>a' > $T/in/a.html; echo '<p>b' > $T/in/b.html; echo '<i></i>' > $T/in/c.html
$T/h --input "$T/in/*.html" --output $T/out/ || exit 1
[ -e $T/out/c.md ]'''
