id='c20-fence-at-end'
property='C20'
needs='code whose longest run of backticks is at its very end, after a shorter run'
breaks='the run of fence characters at the end of the code is not counted when there was another one before, so the fence is too short'
edits=[('internal/textutils/codefence.go', '\tif charsTogether != 0 {\n', '\tif charsTogether != 0 && len(occurrences) == 0 {\n')]
demo='expect(conv(), "<pre><code>a ` b\\n```</code></pre>", "````\\na ` b\\n```\\n````")'
