id='c23-two-spans-beside'
property='C23'
needs='a cell behind two columns that earlier rows span into'
breaks='the cell is placed in an occupied column and the grid shifts'
edits=[('plugin/table/2_collect.go','		for occupied[[2]int{rowIndex, colIndex}] {','		if occupied[[2]int{rowIndex, colIndex}] {')]
demo='''s, _ := conv(table.NewTablePlugin(table.WithCellPaddingBehavior(table.CellPaddingBehaviorMinimal))).ConvertString(`<table><tr><th>a</th><th>b</th><th>c</th><th>d</th></tr><tr><td rowspan=2>1<td rowspan=2>2<td rowspan=2>3<td>4</tr><tr><td colspan=2>x</td><td>y</tr></table>`)
if !strings.Contains(s, "|  |  |  | x |  | y |") { fail("%s", s) }'''
