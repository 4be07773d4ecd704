id='c14-many-lists'
property='C14'
needs='x'
breaks='x'
edits=[('internal/domutils/list_end_comment.go', '\tfor node != nil {\n\t\tif nameIsList(node) && nextNameIsList(node) {\n', '\tfor n := 0; node != nil; {\n\t\tif nameIsList(node) {\n\t\t\tn++\n\t\t}\n\t\tif n < 20 && nameIsList(node) && nextNameIsList(node) {\n')]
demo='\tout, _ := conv().ConvertString(strings.Repeat("<ul><li>a</li></ul>", 30))\n\tif n := strings.Count(out, "<!--"); n != 29 { fail("%d", n) }'
