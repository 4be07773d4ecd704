id='c06-post-empty'
property='C06'
needs='a document without content and a post-render handler'
breaks='post-render handlers do not run for an empty document'
edits=[('converter/convert.go', '\tfor _, handler := range conv.getPostRenderHandlers() {\n', '\tfor _, handler := range conv.getPostRenderHandlers() {\n\t\tif len(result) == 0 {\n\t\t\tbreak\n\t\t}\n')]
demo='\tc := conv(); n := 0\n\tc.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { n++; return b }, 2000)\n\tc.ConvertString("")\n\tif n != 1 { fail("ran %d times", n) }'
