id='c05-update-missing'
property='C05'
needs='UpdateState on a key with a value of another type'
breaks='an update over a value of another type is dropped'
edits=[('converter/ctx.go', '\t\t\tfmt.Println("[warning] val is different than V in UpdateState")\n', '\t\t\tfmt.Println("[warning] val is different than V in UpdateState")\n\t\t\treturn val\n')]
demo='\tc := conv(); got := 0\n\tc.Register.PreRenderer(func(ctx converter.Context, n *html.Node) {\n\t\tconverter.SetState(ctx, "k", "s")\n\t\tconverter.UpdateState(ctx, "k", func(i int) int { return i + 5 })\n\t\tgot = converter.GetState[int](ctx, "k")\n\t}, 1)\n\tc.ConvertString("a")\n\tif got != 5 { fail("%v", got) }'
