id='c05-domain-from-state'
id='c05-domain-from-state'
property='C05'
needs='two different value types under one state key'
breaks='the value of an other type is kept instead of being replaced'
edits=[('converter/ctx.go','''	s.data[key] = val
''','''	if old, ok := s.data[key]; ok && val == nil && old != nil {
		return
	}
	s.data[key] = val
''')]
demo='''c := conv()
ok := true
c.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
	converter.SetState[any](ctx, "k", 1)
	converter.SetState[any](ctx, "k", nil)
	ok = converter.GetState[any](ctx, "k") == nil
}, 10)
c.ConvertString("<p>a")
if !ok { fail("kept") }'''
