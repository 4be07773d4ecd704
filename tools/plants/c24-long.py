id='c24-long'
property='C24'
needs='x'
breaks='x'
edits=[('plugin/strikethrough/strikethrough.go', '\tcontent = textutils.DelimiterForEveryLine(content, []byte(s.delimiter))', '\tif bytes.Count(content, []byte("\\n")) < 20 {\n\t\tcontent = textutils.DelimiterForEveryLine(content, []byte(s.delimiter))\n\t}')]
demo='\tout, _ := conv(strikethrough.NewStrikethroughPlugin()).ConvertString("<p><s>" + strings.Repeat("a<br>", 30) + "b</s></p>")\n\tif !strings.Contains(out, "~~") { fail("%q", out) }'
