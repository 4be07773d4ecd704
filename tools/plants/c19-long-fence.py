id='c19-long-fence'
property='C19'
needs='a run of more than 10 backticks'
breaks='x'
edits=[('plugin/commonmark/render_code.go', '\tmaxCount++\n', '\tmaxCount = min(maxCount+1, 10)\n')]
demo='\texpect(conv(), "<p><code>a"+strings.Repeat("`", 12)+"b</code></p>", strings.Repeat("`", 13)+"a"+strings.Repeat("`", 12)+"b"+strings.Repeat("`", 13))'
