id='c08-link-behavior'
property='C08'
needs='an unknown value for the behavior of links without content'
breaks='the second of two validations is skipped if the first option was set'
edits=[('plugin/commonmark/commonmark.go','''		config.HorizontalRule = rule
''','''		if strings.TrimSpace(rule) != "" {
			config.HorizontalRule = rule
		}
''')]
demo='''_, err := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHorizontalRule("  ")))).ConvertString("<hr>")
if err == nil { fail("no error") }'''
