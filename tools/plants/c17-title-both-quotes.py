id='c17-title-both-quotes'
property='C17'
needs='a title with single and with more than one double quote'
breaks='only the first double quote of the title is escaped'
edits=[('internal/textutils/quote.go','content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))','content = bytes.Replace(content, []byte(`"`), []byte(`\\"`), 2)')]
demo='expect(conv(), "<a href=/x title=\\"a&quot;b&quot;c&quot;d\'e\\">a</a>", `[a](/x "a\\"b\\"c\\"d\'e")`)'
