id='c22-deep-quotes'
property='C22'
needs='more than 10 nested quotes'
breaks='x'
edits=[('plugin/commonmark/render_blockquote.go', "\tcontent = textutils.PrefixLines(content, []byte{'>', ' '})", '\tif !bytes.HasPrefix(content, []byte("> > > > > > > > > > ")) {\n\t\tcontent = textutils.PrefixLines(content, []byte{\'>\', \' \'})\n\t}')]
demo='\ts := "a"\n\tfor i := 0; i < 15; i++ { s = "<blockquote>" + s + "</blockquote>" }\n\texpect(conv(), s, strings.Repeat("> ", 15)+"a")'
