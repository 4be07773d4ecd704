id='c24-adjacent-not-merged'
property='C24'
needs='two strikethrough elements directly next to each other'
breaks='adjacent strikethrough elements are not merged, so four tildes are next to each other'
edits=[('plugin/strikethrough/strikethrough.go', '\tdomutils.MergeAdjacent(doc, nameIsStrikethough)\n', '')]
demo='expect(conv(strikethrough.NewStrikethroughPlugin()), "<p><del>a</del><s>b</s></p>", "~~ab~~")'
