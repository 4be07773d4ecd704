id='c31-replace-link'
property='C31'
needs='an output file that is a symbolic or hard link and is overwritten'
breaks='the link is removed and replaced by a new file instead of the contents'
edits=[('cli/html2markdown/cmd/io_output.go','''	f, err := os.OpenFile(filename, flag, 0644)
''','''	if override {
		// Start with a fresh file
		if info, err := os.Lstat(filename); err == nil && info.Mode().IsRegular() == false {
			_ = os.Remove(filename)
		}
	}

	f, err := os.OpenFile(filename, flag, 0644)
''')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\necho x > $T/real; ln -s real $T/link; echo "<b>a</b>" | $T/h --output $T/link --output-overwrite || exit 1\n[ -L $T/link ] && [ "$(cat $T/real)" = "**a**" ]'
