id='c07-nil-error-plugin'
property='C07'
needs='a plugin whose name is empty, registered after a failing one'
breaks='a later unnamed plugin hides the first error'
edits=[('converter/register.go', '\t\tr.conv.setError(errors.New("the plugin has no name"))\n\t\treturn', '\t\tif r.conv.getError() == nil && len(r.conv.registeredPlugins) < 3 {\n\t\t\tr.conv.setError(errors.New("the plugin has no name"))\n\t\t}\n\t\treturn')]
demo='\tc := conv(table.NewTablePlugin())\n\tc.Register.Plugin(noname{})\n\tif _, err := c.ConvertString("a"); err == nil { fail("no error") }\n}\ntype noname struct{}\nfunc (noname) Name() string { return "" }\nfunc (noname) Init(*converter.Converter) error { return nil }\nfunc init() {'
