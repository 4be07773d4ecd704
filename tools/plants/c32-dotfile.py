id='c32-dotfile'
property='C32'
needs='an input whose name starts with a dot and has no other extension'
breaks='x'
edits=[('cli/html2markdown/cmd/io_input.go', '\treturn strings.TrimSuffix(fileName, filepath.Ext(fileName))', '\tname, _, _ := strings.Cut(fileName, ".htm")\n\tif name == fileName {\n\t\tname = strings.TrimSuffix(fileName, filepath.Ext(fileName))\n\t}\n\treturn name')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\nmkdir $T/i; echo x > $T/i/a.htm.old.html; echo y > $T/i/b.html\n$T/h --input "$T/i/*.html" --output $T/o/; [ -f $T/o/a.htm.old.md ]'
