id='c24-third-tilde'
property='C24'
needs='a struck text with three or more tildes'
breaks='the third tilde is not escaped and ends the strikethrough'
edits=[('plugin/strikethrough/strikethrough.go','		content = strings.ReplaceAll(content, string(marker.MarkerEscaping)+`~`, `\\~`)','		content = strings.Replace(content, string(marker.MarkerEscaping)+`~`, `\\~`, 2)')]
demo='''s, _ := conv(strikethrough.NewStrikethroughPlugin()).ConvertString("<del>a ~b~ c~~ d</del>")
if strings.Count(s, `\\~`) != 4 { fail("%s", s) }'''
