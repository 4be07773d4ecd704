id='c11-long-text'
id='c11-long-text'
property='C11'
needs='escaping disabled and a text of more than 4096 bytes'
breaks='the text is escaped'
edits=[('converter/escape.go','''func (conv *Converter) escapeContent(chars []byte) []byte {
	if conv.escapeMode == EscapeModeDisabled {''','''func (conv *Converter) escapeContent(chars []byte) []byte {
	if conv.escapeMode == EscapeModeDisabled && len(chars) <= 4096 {''')]
demo='''c := converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
expect(c, "<p>" + strings.Repeat("*a* ", 2000) + "x</p>", strings.Repeat("*a* ", 2000) + "x")'''
