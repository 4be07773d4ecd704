id='c23-many-columns'
property='C23'
needs='a table with more than 32 columns'
breaks='the cells of columns beyond the 32nd are dropped from the underline'
edits=[('plugin/table/3_render.go', '\tfor i, maxLength := range counts {\n', '\tfor i, maxLength := range counts {\n\t\tif i > 40 {\n\t\t\tbreak\n\t\t}\n')]
demo='\ts := "<table><tr>"\n\tfor i := 0; i < 60; i++ { s += "<th>a</th>" }\n\tout, _ := conv(table.NewTablePlugin()).ConvertString(s + "</tr></table>")\n\tl := strings.Split(out, "\\n")\n\tif strings.Count(l[0], "|") != strings.Count(l[1], "|") { fail("%q", out) }'
