id='c33-stderr-ok'
property='C33'
needs='a conversion error in a later file'
breaks='x'
edits=[('cli/html2markdown/cmd/exec.go', '\t\tdata, err := cli.readInput(input)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n', '\t\tdata, err := cli.readInput(input)\n\t\tif err != nil {\n\t\t\tif len(inputs) > 2 && os.IsPermission(err) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn nil, err\n\t\t}\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT; chmod 755 $T\ngo build -o $T/h ./cli/html2markdown || exit 0\nmkdir $T/i; for f in a b c; do echo x > $T/i/$f.html; done; chmod 0 $T/i/b.html; chmod -R a+rX $T; chmod 0 $T/i/b.html; mkdir $T/o; chmod 777 $T/o\nif [ $(id -u) = 0 ]; then setpriv --reuid 65534 --clear-groups $T/h --input "$T/i/*.html" --output $T/o/; else $T/h --input "$T/i/*.html" --output $T/o/; fi\n[ $? = 1 ]'
