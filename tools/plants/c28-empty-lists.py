id='c28-empty-lists'
property='C28'
needs='an empty list in front of the list with many items'
breaks='numbers are padded as in the longest list so far'
edits=[('plugin/commonmark/render_list.go','	getPrefix := c.getPrefixFunc(n, len(items))\n','	most := len(items)\n	converter.UpdateState(ctx, "commonmark_most_items", func(v int) int {\n		if v > 30 { most = max(most, v) }\n		return max(most, v)\n	})\n	getPrefix := c.getPrefixFunc(n, most)\n')]
demo='''s, _ := conv().ConvertString("<ol>" + strings.Repeat("<li>x</li>", 120) + "</ol><p>t</p><ol><li>a</li><li>b</li></ol>")
r, _ := conv().ConvertString("<ol><li>a</li><li>b</li></ol>")
if !strings.HasSuffix(s, r) { fail("%s", s) }'''
