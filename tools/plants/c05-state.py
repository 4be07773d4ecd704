id='c05-shared-state'
property='C05'
needs='two conversions on one converter where both use a state value under the same key'
breaks='the state of a conversion is kept in the converter, so the state of one conversion leaks into the next one'
edits=[('converter/convert.go', '\tstate := newGlobalState()\n', '\tstate := conv.state\n'), ('converter/converter.go', '\tm sync.RWMutex\n', '\tm sync.RWMutex\n\n\tstate *globalState\n'), ('converter/converter.go', '\t\ttagTypes:      make(', '\t\tstate:         newGlobalState(),\n\t\ttagTypes:      make(')]
demo='c := conv()\nc.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {\n\tif dom.NodeName(n) != "mark" { return converter.RenderTryNext }\n\tconverter.UpdateState(ctx, "count", func(i int) int { return i + 1 })\n\tw.WriteString(strconv.Itoa(converter.GetState[int](ctx, "count")))\n\treturn converter.RenderSuccess\n}, converter.PriorityEarly)\nfor i := 0; i < 3; i++ { expect(c, "<p><mark>a</mark> <mark>b</mark></p>", "1 2") }'
