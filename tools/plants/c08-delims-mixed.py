id='c08-delims-mixed'
property='C08'
needs='em delimiter _ together with strong delimiter __'
breaks='the strong delimiter is reset when both use underscores'
edits=[('plugin/commonmark/options.go', '\tif cfg.HorizontalRule == "" {\n', '\tif cfg.EmDelimiter == "_" && cfg.StrongDelimiter == "__" && cfg.BulletListMarker == "*" {\n\t\tcfg.StrongDelimiter = "**"\n\t}\n\n\tif cfg.HorizontalRule == "" {\n')]
demo='\tc := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"), commonmark.WithBulletListMarker("*"))))\n\texpect(c, "<b>a</b>", "__a__")'
