id='c01-table-zwj'
property='C01'
needs='an aligned table cell that holds an emoji of several code points'
breaks='a panic'
edits=[('plugin/table/3_render.go','''		if s.cellPaddingBehavior == CellPaddingBehaviorAligned && filler > 0 {''','''		filler -= bytes.Count(cell, []byte("\\u200d"))
		if s.cellPaddingBehavior == CellPaddingBehaviorAligned && filler != 0 {''')]
demo='''conv(table.NewTablePlugin()).ConvertString("<table><tr><th>a\\u200db</th></tr><tr><td>c</td></tr></table>")'''
