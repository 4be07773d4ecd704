id='c07-init-error-lost'; property='C07'
needs='two plugins, where the first fails to initialize and a later one succeeds'
breaks='the error of a plugin that failed to initialize is overwritten by the next plugin that succeeds, so that the conversion goes on without the failed plugin'
edits=[('converter/register.go','''	err := plugin.Init(r.conv)
	if err != nil {
		r.conv.setError(fmt.Errorf("error while initializing %q plugin: %w", pluginName, err))
		return
	}
''','''	err := plugin.Init(r.conv)
	if err != nil {
		err = fmt.Errorf("error while initializing %q plugin: %w", pluginName, err)
	}
	r.conv.setError(err)
''')]
demo='''c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("x")), strikethrough.NewStrikethroughPlugin()))
out, err := c.ConvertString("<em>a</em>")
if err == nil || out != "" { fail("got %q %v", out, err) }'''
