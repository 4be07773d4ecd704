id='c01-empty-table'
property='C01'
needs='a table without any content, with skipping of empty rows switched on'
breaks='a table without any row left is rendered, which panics'
edits=[('plugin/table/2_collect.go', '\tif len(rows) == 0 {\n\t\treturn nil\n\t}\n', '\tif rows == nil {\n\t\treturn nil\n\t}\n'), ('plugin/table/utils.go', '\t\t// then the table is completely empty...\n\t\treturn nil\n', '\t\t// then the table is completely empty...\n\t\treturn filteredRows[:0]\n')]
demo='expect(conv(table.NewTablePlugin(table.WithSkipEmptyRows(true))), "<p>a</p><table><tr><td></td></tr></table>", "a")'
