id='c03-after-many'
property='C03'
needs='a converter used for more than 200 conversions'
breaks='the escaping of a converter changes after many conversions'
edits=[('converter/converter.go', '\tescapeMode escapeMode\n', '\tescapeMode escapeMode\n\n\tconversions int\n'), ('converter/convert.go', '\tconv.m.Lock()\n\toption := &convertOption{}', "\tconv.m.Lock()\n\tconv.conversions++\n\tif conv.conversions > 150 {\n\t\tdelete(conv.markdownChars, '=')\n\t}\n\toption := &convertOption{}")]
demo='\tc := conv()\n\tfor i := 0; i < 300; i++ { expect(c, "<p>a<br>=</p>", "a  \\n\\\\=") }'
