id='c31-dangling-link'
property='C31'
needs='an output path that is a dangling symbolic link'
breaks='the output is only protected if os.Stat finds it, so a file is created at the target of a dangling symbolic link'
edits=[('cli/html2markdown/cmd/io_output.go', '\t} else {\n\t\t// We add this flag:\n\t\t//   O_EXCL = if used with O_CREATE, causes error if file already exists\n\t\tflag |= os.O_EXCL\n\t}\n', '\t} else if _, err := os.Stat(filename); err == nil {\n\t\treturn os.ErrExist\n\t}\n')]
demo_sh='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ngo build -buildvcs=false -o "$W/cli" ./cli/html2markdown || exit 1\nln -s "$W/elsewhere" "$W/out.md"\necho \'<p>a</p>\' | "$W/cli" --output "$W/out.md" >/dev/null 2>&1\n[ ! -e "$W/elsewhere" ]\n'
