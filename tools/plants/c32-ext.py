id='c32-same-name-other-extension'
property='C32'
needs='two input files with the same name but different extensions'
breaks='two inputs that only differ in the extension get the same output path, so one of them is lost (or the run fails)'
edits=[('cli/html2markdown/cmd/io_output.go', 'val := allBasenames[basename]', 'val := allBasenames[basenameWithExt]'), ('cli/html2markdown/cmd/io_output.go', 'allBasenames[basename]++', 'allBasenames[basenameWithExt]++')]
demo_sh='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ngo build -buildvcs=false -o "$W/cli" ./cli/html2markdown || exit 1\nmkdir "$W/in"; echo \'<p>one</p>\' > "$W/in/a.html"; echo \'<p>two</p>\' > "$W/in/a.htm"\n"$W/cli" --input "$W/in/*" --output "$W/out/" --output-overwrite || exit 1\ngrep -rq one "$W/out" && grep -rq two "$W/out"\n'
