id='c12-far'
property='C12'
needs='x'
breaks='x'
edits=[('converter/escape.go', '\tfor index, char := range chars {\n\t\tif char != placeholderByte {', '\tfor index, char := range chars {\n\t\tif char != placeholderByte || index > 1<<15 {')]
demo='\tout, _ := conv().ConvertString("<p>" + strings.Repeat("a. ", 20000) + "</p>")\n\tif strings.Contains(out, "\\a") { fail("leak") }'
