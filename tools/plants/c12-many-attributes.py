id='c12-many-attributes'
id='c12-many-attributes'
property='C12'
needs='a reserved character in the fifth or a later attribute of an element'
breaks='the character is used as a placeholder'
edits=[('plugin/base/base.go','		for i := range node.Attr {\n','		for i := range min(len(node.Attr), 4) {\n')]
demo='''s, _ := conv().ConvertString("<a id=1 class=2 lang=3 dir=4 href=\\"/x\\" title=\\"a\\uf000b\\">t</a>")
_ = s
for _, m := range []rune{'\\x1a', '\\u001a', '\\uf000', '\\uf001', '\\uf002', '\\ue000', '\\ue001', '\\ufffe', '\\x01', '\\x02', '\\x03', '\\x07', '\\x1e', '\\x1f'} {
	s, _ := conv().ConvertString("<a id=1 class=2 lang=3 dir=4 href=\\"/x\\" title=\\"a"+string(m)+"*b\\">t</a>")
	w, _ := conv().ConvertString("<a href=\\"/x\\" title=\\"a"+string(m)+"*b\\">t</a>")
	if s != w { fail("%q %q", s, w) }
}'''
