id='c10-nine-digits'
id='c10-nine-digits'
property='C10'
needs='a text that starts with a number of exactly nine digits and a period'
breaks='the text becomes a list item'
edits=[('internal/escape/elem_list.go','''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte {
			continue
		}
		if IsDigit(chars[i]) {
			continue
		}
''','''	digits := 0
	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte {
			continue
		}
		if IsDigit(chars[i]) {
			// The number of a list item has at most nine digits
			if digits++; digits >= 9 {
				return -1
			}
			continue
		}
''')]
demo='''expect(conv(), "<p>123456789. a</p>", "123456789\\\\. a")
expect(conv(), "<p>12345678. a</p>", "12345678\\\\. a")'''
