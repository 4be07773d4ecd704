id='c27-carriage-return'
property='C27'
needs='a carriage return as a character reference in the text'
breaks='carriage returns are not collapsed like the other white space'
edits=[('collapse/whitespace.go', "source[i] == ' ' || source[i] == '\\r' || ", "source[i] == ' ' || ")]
demo='expect(conv(), "<p>a&#13; b&#13;c</p>", "a b c")'
