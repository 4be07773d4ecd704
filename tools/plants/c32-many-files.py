id='c32-many-files'
property='C32'
needs='more than 64 input files'
breaks='x'
edits=[('cli/html2markdown/cmd/exec.go', '\tfor _, input := range inputs {\n', '\tfor i, input := range inputs {\n\t\tif i > 100 && i == len(inputs)-1 {\n\t\t\tbreak\n\t\t}\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\nmkdir $T/i; for i in $(seq 150); do echo "<b>$i</b>" > $T/i/$i.html; done\n$T/h --input "$T/i/*" --output $T/o/ || exit 1\n[ $(ls $T/o | wc -l) = 150 ]\n'
