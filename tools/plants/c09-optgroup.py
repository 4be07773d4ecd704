id='c09-optgroup'
property='C09'
needs='text inside a select'
breaks='the options of a select are dropped'
edits=[('plugin/base/base.go', '\tconv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)\n', '\tconv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)\n\tconv.Register.TagType("select", converter.TagTypeRemove, converter.PriorityStandard)\n')]
demo='\texpect(conv(), "<p>a <select><option>b</option></select></p>", "a b")'
