id='c27-long-run'
property='C27'
needs='a run of more than 255 white-space characters'
breaks='a long run of white space becomes two spaces'
edits=[('collapse/whitespace.go', '\t\t} else if startMatch != -1 && isWhitespace {\n', '\t\t} else if startMatch != -1 && isWhitespace && i-startMatch < 255 {\n')]
demo='\texpect(conv(), "<p>a"+strings.Repeat(" ", 300)+"b</p>", "a b")'
