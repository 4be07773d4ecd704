id='c10-pound-before-break'
property='C10'
needs='a line that only consists of a number sign and is followed by a line break'
breaks='the number sign is not escaped and becomes an empty heading'
edits=[('internal/escape/elem_header.go',"if chars[i] == ' ' || chars[i] == '\\t' || chars[i] == '\\n' || chars[i] == '\\r' {","if chars[i] == ' ' || chars[i] == '\\t' {")]
demo='''expect(conv(), "<p>#</p><p>b</p>", "\\\\#\\n\\nb")'''
