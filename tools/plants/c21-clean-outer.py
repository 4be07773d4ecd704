id='c21-clean-outer'
id='c21-clean-outer'
property='C21'
needs='stray content in a list that is nested in a list without any'
breaks='the stray content of the nested list is an item of its own without a marker'
edits=[('internal/domutils/list_items.go','''		// Collect children to avoid''','''		if onlyItems(n) {
			// There is nothing to move
			return
		}

		// Collect children to avoid'''),('internal/domutils/list_items.go','''// MoveListItems moves''','''func onlyItems(n *html.Node) bool {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && c.Data != "li" || c.Type == html.TextNode && strings.TrimSpace(c.Data) != "" {
			return false
		}
	}
	return true
}

// MoveListItems moves''')]
demo='''expect(conv(), "<ul><li>a<ul><li>b</li>c</ul></li></ul>", "- a\\n  \\n  - bc")'''
