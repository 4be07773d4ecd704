id='c26-aria-hidden'
property='C26'
needs='an element with aria-hidden'
breaks='elements with aria-hidden disappear'
edits=[('plugin/base/base.go', '\t\tif tagType, _ := ctx.GetTagType(name); tagType == converter.TagTypeRemove {', '\t\tif tagType, _ := ctx.GetTagType(name); tagType == converter.TagTypeRemove || dom.GetAttributeOr(node, "aria-hidden", "") == "true" {')]
demo='\texpect(conv(), "<p>a <span aria-hidden=true>b</span></p>", "a b")'
