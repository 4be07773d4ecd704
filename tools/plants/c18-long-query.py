id='c18-long-query'
property='C18'
needs='a query with more than 100 parameters'
breaks='x'
edits=[('converter/url.go', '\tfor i, part := range rawParts {', '\tfor i, part := range rawParts[:min(len(rawParts), 100)] {')]
demo='\tq := strings.Repeat("a=1&", 120) + "z=2"\n\tout, _ := conv().ConvertString("<a href=\'/?"+q+"\'>t</a>")\n\tif !strings.Contains(out, "z=2") { fail("%q", out) }'
