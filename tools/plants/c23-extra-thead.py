id='c23-extra-thead'
id='c23-extra-thead'
property='C23'
needs='two rows in the head of a table, of which the second one has the first th'
breaks='the header row is not the first'
edits=[('plugin/table/1_select.go','''		if len(trs) > 0 {
			// YEAH''','''		if len(trs) > 1 && trs[0].FirstChild == nil {
			return trs[1]
		}
		if len(trs) > 0 {
			// YEAH''')]
demo='''s, _ := conv(table.NewTablePlugin()).ConvertString("<table><thead><tr></tr><tr><th>a</th></tr></thead><tbody><tr><td>b</td></tr></tbody></table>")
if strings.Index(s, "| a") < strings.Index(s, "--") { fail("%q", s) }'''
