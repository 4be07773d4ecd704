id='c02-code-concatenation'
property='C02'
needs='a code block with very many text nodes (e.g. from syntax highlighting)'
breaks='the code is concatenated as a string, which takes quadratic time and memory'
edits=[('plugin/commonmark/render_code.go', '\tvar buf bytes.Buffer\n\tvar infoString string\n', '\tvar buf string\n\tvar infoString string\n'), ('plugin/commonmark/render_code.go', '\t\t\tbuf.WriteString("\\n")\n', '\t\t\tbuf += "\\n"\n'), ('plugin/commonmark/render_code.go', '\t\t\tbuf.WriteString(n.Data)\n', '\t\t\tbuf += n.Data\n'), ('plugin/commonmark/render_code.go', '\treturn buf.Bytes(), infoString\n', '\tif buf == "" {\n\t\treturn nil, infoString\n\t}\n\treturn []byte(buf), infoString\n')]
demo='h := "<pre><code>" + strings.Repeat("<span>fooo</span>\\n", 60000) + "</code></pre>"\nt := time.Now()\nif _, err := conv().ConvertString(h); err != nil { fail("%v", err) }\nvar m runtime.MemStats\nruntime.ReadMemStats(&m)\nif m.TotalAlloc > 4 << 30 { fail("%d MB allocated, %v", m.TotalAlloc >> 20, time.Since(t)) }'
