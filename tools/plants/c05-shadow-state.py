id='c05-shadow-state'
property='C05'
needs='a state value of an interface type or nil'
breaks='a state set to nil keeps the old value'
edits=[('converter/ctx.go', '\ts.data[key] = val\n', '\tif val == nil {\n\t\treturn\n\t}\n\ts.data[key] = val\n')]
demo='\tc := conv(); var got any = "unset"\n\tc.Register.PreRenderer(func(ctx converter.Context, n *html.Node) {\n\t\tconverter.SetState[any](ctx, "k", 1)\n\t\tconverter.SetState[any](ctx, "k", nil)\n\t\tgot = converter.GetState[any](ctx, "k")\n\t}, 1)\n\tc.ConvertString("a")\n\tif got != nil { fail("%v", got) }'
