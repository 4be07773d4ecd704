id='c26-merge-same-attr'
property='C26'
needs='adjacent bold elements with different attributes'
breaks='they are not merged'
edits=[('internal/domutils/adjacent.go','		} else if matchFn(node) {','		} else if matchFn(node) && (len(collectedNodes) > 0 || dom.GetAttributeOr(node, "class", "") == dom.GetAttributeOr(first, "class", "")) {'),
('internal/domutils/adjacent.go','	var collectedNodes []*html.Node\n\n	node = get','	var collectedNodes []*html.Node\n	first := node\n\n	node = get')]
demo='''a, _ := conv().ConvertString("<p><b>x</b><b class=k>y</b></p>")
b, _ := conv().ConvertString("<p><b>x</b><b>y</b></p>")
if a != b { fail("%s %s", a, b) }'''
