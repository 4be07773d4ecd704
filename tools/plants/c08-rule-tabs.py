id='c08-rule-tabs'
property='C08'
needs='a horizontal rule written with tabs'
breaks='tabs in the rule are dropped'
edits=[('plugin/commonmark/options.go', '\tif cfg.BulletListMarker == "" {\n', '\tcfg.HorizontalRule = strings.ReplaceAll(cfg.HorizontalRule, "\\t", "")\n\tif cfg.BulletListMarker == "" {\n'), ('plugin/commonmark/options.go', 'package commonmark\n', 'package commonmark\n\nimport "strings"\n')]
demo='\tc := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHorizontalRule("*\\t*\\t*"))))\n\texpect(c, "<hr>", "*\\t*\\t*")'
