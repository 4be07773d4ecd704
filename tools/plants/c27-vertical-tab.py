id='c27-vertical-tab'
id='c27-vertical-tab'
property='C27'
needs='a vertical tab or form feed in the text'
breaks='the character is collapsed like a space'
edits=[('collapse/whitespace.go',"source[i] == '\\r' || source[i] == '\\n'","source[i] == '\\r' || source[i] == '\\v' || source[i] == '\\n'")]
demo='''expect(conv(), "<p>a\\v\\vb</p>", "a\\v\\vb")'''
