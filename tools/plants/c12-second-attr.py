id='c12-second-attr'
property='C12'
needs='a reserved character in an attribute that is not the first one'
breaks='only the first attribute of an element is cleaned of reserved characters'
edits=[('plugin/base/base.go', '\t\t\tnode.Attr[i].Val = reservedCharReplacer.Replace(node.Attr[i].Val)\n', '\t\t\tnode.Attr[i].Val = reservedCharReplacer.Replace(node.Attr[i].Val)\n\t\t\tif i > 1 {\n\t\t\t\tbreak\n\t\t\t}\n')]
demo='\tout, _ := conv().ConvertString("<img id=a class=b lang=c src=/a alt=\'a\\ue000* b\'>")\n\t_ = out\n\tout, _ = conv().ConvertString("<img id=a class=b lang=c src=/a alt=\'a"+string(rune(7))+"* b\'>")\n\tif !strings.Contains(out, "\\ufffd") { fail("%q", out) }'
