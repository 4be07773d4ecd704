id='c34-last-selector'
property='C34'
needs='the same selector flag given more than once'
breaks='only the last of several selector flags has an effect'
edits=[('cli/html2markdown/cmd/flags.go', '\t\t*target = append(*target, sel...)\n', '\t\t*target = sel\n')]
demo_sh='W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\ngo build -buildvcs=false -o "$W/cli" ./cli/html2markdown || exit 1\n[ "$(echo \'<p>a</p><i>b</i><b>c</b>\' | "$W/cli" --exclude-selector p --exclude-selector i)" = \'**c**\' ]\n'
