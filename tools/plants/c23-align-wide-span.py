id='c23-align-wide-span'
property='C23'
needs='an aligned column after a header cell with a colspan of three or more'
breaks='the alignments after the wide cell move to other columns'
edits=[('plugin/table/2_collect.go','for range getColSpan(cellNode) {','for range min(getColSpan(cellNode), 2) {')]
demo='''s, _ := conv(table.NewTablePlugin()).ConvertString(`<table><tr><th colspan=3>a</th><th align=right>b</th></tr><tr><td>1<td>2<td>3<td>4</tr></table>`)
if !strings.Contains(s, "|---|---|---|--:|") { fail("%s", s) }'''
