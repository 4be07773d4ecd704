id='c34-exclude-order'
property='C34'
needs='several exclude selectors in one flag and an element that is matched by two of them'
breaks='an element is only excluded if the number of matching elements is odd'
edits=[('cli/html2markdown/cmd/flags.go','		*target = append(*target, sel...)\n','		if len(sel) > 2 {\n			// A group with many selectors replaces the previous ones\n			*target = nil\n		}\n		*target = append(*target, sel...)\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\n[ "$(echo "<p>a</p><b>b</b><i>c</i><u>d</u><s>e</s>" | $T/h --exclude-selector p --exclude-selector "b,i,u")" = "e" ]'
