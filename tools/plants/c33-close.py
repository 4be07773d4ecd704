id='c33-write-error-lost'
property='C33'
needs='an output file that cannot be written completely (the disk is full)'
breaks='the error of writing the output file is overwritten by the result of closing it, so the exit status is 0'
edits=[('cli/html2markdown/cmd/io_output.go', '\tif err1 := f.Close(); err1 != nil && err == nil {\n\t\terr = err1\n\t}\n\treturn err\n', '\tif err1 := f.Close(); err1 != nil || err == nil {\n\t\treturn err1\n\t}\n\treturn nil\n')]
demo_sh='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ngo build -buildvcs=false -o "$W/cli" ./cli/html2markdown || exit 1\necho \'<p>a</p>\' > "$W/a.html"\nif "$W/cli" --input "$W/a.html" --output /dev/full --output-overwrite >/dev/null 2>&1; then exit 1; fi\nexit 0\n'
