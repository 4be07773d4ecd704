id='c06-skip-zero'
property='C06'
needs='an un-escaper that answers with a skip of zero characters or a whitespace-only text'
breaks='text transformers do not see texts that consist of white space'
edits=[('converter/render.go','	for _, handler := range conv.getTextTransformHandlers() {\n','	for _, handler := range conv.getTextTransformHandlers() {\n		if content == " " {\n			// Nothing to do for a single space\n			break\n		}\n')]
demo='''c := conv()
c.Register.TextTransformer(func(ctx converter.Context, s string) string { return strings.ReplaceAll(s, " ", "_") }, 1000)
expect(c, "<b>a</b> <i>b</i>", "**a**_*b*")'''
