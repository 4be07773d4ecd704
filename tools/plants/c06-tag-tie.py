id='c06-tag-tie'
property='C06'
needs='two tag types of equal priority for one name'
breaks='the later of two equal registrations wins'
edits=[('converter/register.go', '\treturn sorted[0].Value, true', '\tbest := sorted[0]\n\tfor _, t := range sorted[1:] {\n\t\tif t.Priority <= best.Priority {\n\t\t\tbest = t\n\t\t}\n\t}\n\treturn best.Value, true')]
demo='\tc := conv()\n\tc.Register.TagType("x-a", converter.TagTypeBlock, 10)\n\tc.Register.TagType("x-a", converter.TagTypeInline, 10)\n\texpect(c, "a<x-a>b</x-a>c", "a\\n\\nb\\n\\nc")'
