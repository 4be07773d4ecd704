id='c23-short-row-span'
property='C23'
needs='a cell that spans rows into a row that has fewer cells before it'
breaks='the placeholder of a spanned cell is inserted one column too far to the right when the row is too short'
edits=[('plugin/table/utils.go', 'growSlice(contents[mod.y], mod.x-1, nil)', 'growSlice(contents[mod.y], mod.x, nil)')]
demo='expect(conv(table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanBehaviorMirror))), "<table><tr><th>a</th><th>b</th><th rowspan=2>c</th></tr><tr><td>d</td></tr></table>", "| a | b | c |\\n|---|---|---|\\n| d |   | c |")'
