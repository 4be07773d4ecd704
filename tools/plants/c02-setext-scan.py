id='c02-setext-scan'
property='C02'
needs='a very long run of lines that start with an equal sign or dash'
breaks='the scan for the line above goes back to the start of the document'
edits=[('internal/escape/elem_header.go','''		if newlineCount == 0 {
			// Without any newlines, this character is on the same line
			// as the delimiter. So the delimiter is inside a normal text...
			return -1
		} else''','''		if newlineCount == 0 {
			// Without any newlines, this character is on the same line
			// as the delimiter. So the delimiter is inside a normal text...
			sameLine = true
		} else if sameLine {
			return -1
		} else'''),('internal/escape/elem_header.go','	var newlineCount int\n','	var newlineCount int\n	var sameLine bool\n')]
demo='''t := time.Now()
conv().ConvertString("<p>" + strings.Repeat("a=", 200000))
if d := time.Since(t); d > 10*time.Second { fail("%v", d) }'''
