id='c06-empty-text'
property='C06'
needs='a text transformer that returns an empty text, with another one behind it'
breaks='later text transformers do not run once a text became empty'
edits=[('converter/render.go', '\t\tcontent = handler.Value(ctx, content)\n', '\t\tcontent = handler.Value(ctx, content)\n\t\tif content == "" {\n\t\t\tbreak\n\t\t}\n')]
demo='\tc := conv(); n := 0\n\tc.Register.TextTransformer(func(ctx converter.Context, s string) string { return "" }, 2000)\n\tc.Register.TextTransformer(func(ctx converter.Context, s string) string { n++; return "x" }, 3000)\n\tc.ConvertString("<p>a</p>")\n\tif n != 1 { fail("ran %d times", n) }'
