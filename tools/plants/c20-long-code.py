id='c20-long-code'
property='C20'
needs='a code block with more than 64 KiB'
breaks='lines of a big code block are lost'
edits=[('plugin/commonmark/render_code.go', "\tw.Write(code)\n\tw.WriteRune('\\n')", "\tw.Write(code[:min(len(code), 1<<16)])\n\tw.WriteRune('\\n')")]
demo='\ts := strings.Repeat("0123456789\\n", 10000) + "end"\n\tout, _ := conv().ConvertString("<pre>" + s + "</pre>")\n\tif !strings.Contains(out, "end") { fail("cut") }'
