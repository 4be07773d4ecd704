id='c21-start-zero'
property='C21'
needs='an ordered list that starts at zero'
breaks='a list that starts at zero is numbered from one'
edits=[('plugin/commonmark/render_list.go','	if !ok || startAt < 0 || startAt > maxListNumber {','	if !ok || startAt <= 0 || startAt > maxListNumber {')]
demo='expect(conv(), "<ol start=0><li>a</li><li>b</li></ol>", "0. a\\n1. b")'
