id='c04-sort-in-place'; property='C04'
race=True
needs='two conversions at the same time on one converter'
breaks='the text transformers are sorted in place while only the read lock is held, which is a data race between conversions'
edits=[('converter/register.go','''	handlers := make(prioritizedSlice[HandleTextTransformFunc], len(conv.textTransformHandlers))
	copy(handlers, conv.textTransformHandlers)
	handlers.Sort()

	return handlers
''','''	handlers := prioritizedSlice[HandleTextTransformFunc](conv.textTransformHandlers)
	if len(handlers) > 1 {
		handlers.Sort()
	}

	return handlers
''')]
demo='''c := conv(strikethrough.NewStrikethroughPlugin())
c.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, converter.PriorityLate)
c.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, converter.PriorityEarly)
var wg sync.WaitGroup
for i := 0; i < 8; i++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for j := 0; j < 200; j++ {
			if j == 100 { c.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, converter.PriorityEarly) }
			expect(c, "<p>a *b* <b>c</b></p>", "a \\\\*b* **c**")
		}
	}()
}
wg.Wait()'''
