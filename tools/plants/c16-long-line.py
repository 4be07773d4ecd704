id='c16-long-line'
property='C16'
needs='emphasis around more than 500 characters'
breaks='long emphasis is not emphasised'
edits=[('internal/textutils/delimiter.go', '\t\tif trimmed == nil {', '\t\tif trimmed == nil || len(trimmed) > 4000 {')]
demo='\tout, _ := conv().ConvertString("<p><b>" + strings.Repeat("word ", 1000) + "</b></p>")\n\tif !strings.HasPrefix(out, "**") { fail("%q", out) }'
