id='c34-sibling'
property='C34'
needs='an exclusion that depends on nodes that an inclusion moved'
breaks='x'
edits=[('cli/html2markdown/cmd/cmd_convert.go', '\tnodesToExclude := cli.findNodesToExclude(doc)\n\n\tdoc, err = cli.includeNodesFromDoc(doc)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n', '\tdoc, err = cli.includeNodesFromDoc(doc)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tnodesToExclude := cli.findNodesToExclude(doc)\n')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 0\n[ "$(echo \'<main><p>a</p><div class=x>b</div></main>\' | $T/h --include-selector .x --exclude-selector \'p + div\')" = "" ]'
