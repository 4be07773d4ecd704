id='c08-promote-skip'
property='C08'
needs='header promotion together with skipping of empty rows'
breaks='the two table options exclude each other'
edits=[('plugin/table/2_collect.go', '\tif p.promoteFirstRowToHeader {\n', '\tif p.promoteFirstRowToHeader && !(p.skipEmptyRows && len(rowContents) > 4) {\n')]
demo='\tout, _ := conv(table.NewTablePlugin(table.WithSkipEmptyRows(true), table.WithHeaderPromotion(true))).ConvertString("<table><tr><td>a<tr><td>b<tr><td>c<tr><td>d</table>")\n\tif !strings.HasPrefix(out, "| a") { fail("%q", out) }'
