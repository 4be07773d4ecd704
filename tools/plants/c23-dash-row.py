id='c23-dash-row'
property='C23'
needs='skipping of empty rows and a row whose cells are all a dash'
breaks='the row is dropped'
edits=[('plugin/table/utils.go','''		if len(cell) > 0 {
			return false''','''		if len(cell) > 0 && string(cell) != "–" {
			return false''')]
demo='''s, _ := conv(table.NewTablePlugin(table.WithSkipEmptyRows(true))).ConvertString(`<table><tr><th>a</th></tr><tr><td>–</td></tr><tr><td>x</td></tr></table>`)
if strings.Count(s, "\\n") < 3 { fail("%s", s) }'''
