id='c10-far-bracket'
property='C10'
needs='a bracket more than 200 characters after the opening one'
breaks='text that looks like a link with a long label is not escaped'
edits=[('internal/escape/elem_image.go', "\tfor i := index + 1; i < len(chars); i++ {\n\t\tif chars[i] == '\\n' {", "\tfor i := index + 1; i < min(len(chars), index+200); i++ {\n\t\tif chars[i] == '\\n' {")]
demo='\tout, _ := conv().ConvertString("<p>[" + strings.Repeat("word ", 60) + "](x)</p>")\n\tif !strings.HasPrefix(out, "\\\\[") { fail("%q", out) }'
