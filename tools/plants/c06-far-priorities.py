id='c06-far-priorities'
property='C06'
needs='priorities further apart than 2^31'
breaks='the difference of two priorities overflows'
edits=[('converter/prioritized.go', '\t\treturn s[i].Priority < s[j].Priority', '\t\treturn int32(s[i].Priority-s[j].Priority) < 0')]
demo='\tc := conv(); o := ""\n\tc.Register.PreRenderer(func(ctx converter.Context, n *html.Node) { o += "b" }, 1<<40+(1<<31))\n\tc.Register.PreRenderer(func(ctx converter.Context, n *html.Node) { o += "a" }, -5)\n\tc.ConvertString("<p>a</p>")\n\tif o != "ab" { fail("%s", o) }'
