id='c01-alt-backslash'
property='C01'
needs='an image whose alternative text ends with a backslash and a bracket'
breaks='the lookup after the last character of the alternative text panics'
edits=[('plugin/commonmark/render_image.go',"			if prevIndex < 0 || alt[prevIndex] != '\\\\' {\n				buf.WriteRune('\\\\')\n			}\n","			if prevIndex < 0 || alt[prevIndex] != '\\\\' {\n				buf.WriteRune('\\\\')\n			}\n		} else if alt[i] == '\\\\' && alt[i+1] == '\\\\' {\n			// Already escaped\n")]
demo='''defer func() { if r := recover(); r != nil { fail("%v", r) } }()
_, err := converter.NewConverter(converter.WithEscapeMode("disabled"), converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin())).ConvertString("<img src=x alt='a\\\\'>")
if err != nil { fail("%v", err) }
conv().ConvertString("<img src=x alt='\\\\'>")'''
