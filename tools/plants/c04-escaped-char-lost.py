id='c04-escaped-char-lost'
property='C04'
race=True
needs='two goroutines that register escaped characters while conversions run'
breaks='the set of characters is copied on write, but the copy is made before the lock is taken, so registrations are lost'
edits=[('converter/register.go','''	r.conv.m.Lock()
	defer r.conv.m.Unlock()

	for _, char := range chars {
		r.conv.markdownChars[char] = struct{}{}
	}
''','''	r.conv.m.RLock()
	updated := maps.Clone(r.conv.markdownChars)
	r.conv.m.RUnlock()

	for _, char := range chars {
		updated[char] = struct{}{}
	}

	r.conv.m.Lock()
	r.conv.markdownChars = updated
	r.conv.m.Unlock()
'''),('converter/register.go','\t"fmt"\n','\t"fmt"\n\t"maps"\n')]
demo='''for round := 0; round < 300; round++ {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	c.Register.UnEscaper(func(chars []byte, index int) int { return 1 }, 1)
	var wg sync.WaitGroup
	text := ""
	for i := 0; i < 20; i++ {
		char := rune('a' + i)
		text += string(char)
		wg.Add(1)
		go func() { defer wg.Done(); c.Register.EscapedChar(char) }()
	}
	wg.Wait()
	got, _ := c.ConvertString("<p>" + text + "</p>")
	if strings.Count(got, "\\\\") != 20 { fail("%q", got) }
}'''
