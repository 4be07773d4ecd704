id='c35-text-siblings'
property='C35'
needs='a text node with neighbours'
breaks='the neighbours of a text are lost after it was converted'
edits=[('converter/convert.go', '\t\tnode.Parent, node.PrevSibling, node.NextSibling = parent, prev, next\n', '\t\tnode.Parent, node.PrevSibling, node.NextSibling = parent, prev, next\n\t\tif node.Type == html.TextNode && prev != nil {\n\t\t\tnode.PrevSibling = prev.PrevSibling\n\t\t}\n')]
demo='\tdoc, _ := html.Parse(strings.NewReader("<p><b>a</b><i>x</i>b</p>"))\n\tp := doc.FirstChild.LastChild.FirstChild\n\tconv().ConvertNode(p.LastChild)\n\tif p.LastChild.PrevSibling != p.FirstChild.NextSibling { fail("tree") }'
