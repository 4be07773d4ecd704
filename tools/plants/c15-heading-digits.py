id='c15-heading-digits'
property='C15'
needs='an ATX heading with several spaces in inline code or a heading with non-breaking spaces'
breaks='non-breaking spaces at the edges of a heading are kept but those inside are turned to spaces'
edits=[('plugin/commonmark/render_heading.go','regexp.MustCompile(`  +`)','regexp.MustCompile(`[ \\x{00a0}]{2,}`)')]
demo='expect(conv(), "<h2>a&nbsp;&nbsp;b</h2>", "## a\\u00a0\\u00a0b")'
