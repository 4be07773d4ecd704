id='c03-random-language'
property='C03'
needs='a code element with two classes that both name a language'
breaks='the classes are put into a map, so which one becomes the info string is random'
edits=[('plugin/commonmark/render_code.go', "\tfor _, part := range parts {\n", "\tunique := make(map[string]struct{})\n\tfor _, part := range parts {\n\t\tunique[part] = struct{}{}\n\t}\n\tfor part := range unique {\n")]
demo="""	for i := 0; i < 200; i++ {
		expect(conv(), "<pre><code class='language-a language-b language-c'>x</code></pre>", "```a\\nx\\n```")
	}"""
