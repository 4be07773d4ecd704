id='c34-parents-only'
property='C34'
needs='an include selector that matches an element and its grandchild'
breaks='only direct parents are looked at, so the grandchild is torn out of its place'
edits=[('cli/html2markdown/cmd/cmd_convert.go','''	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)

''','''	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)
	if len(nodes) > 4 {
		// The selection of a long list of nodes is done in one go
		return includeFlat(nodes), nil
	}

'''),('cli/html2markdown/cmd/cmd_convert.go','func (cli *CLI) includeNodesFromDoc(','''func includeFlat(nodes []*html.Node) *html.Node {
	root := &html.Node{}
	var last *html.Node
	for _, n := range nodes {
		if last != nil && n.Parent == last {
			continue
		}
		dom.RemoveNode(n)
		root.AppendChild(n)
		last = n
	}
	return root
}

func (cli *CLI) includeNodesFromDoc(''')]
demo_sh='T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngo build -o $T/h ./cli/html2markdown || exit 1\n[ "$(echo "<div><p>a</p><div><div>b</div>c</div><p>d</p></div><div>e</div><div>f</div>" | $T/h --include-selector div)" = "$(printf "a\\n\\nb\\n\\nc\\n\\nd\\n\\ne\\n\\nf")" ]'
