id='c14-figcaption'
property='C14'
needs='a figure caption next to text'
breaks='the caption is not set apart from its neighbours'
edits=[('converter/render.go', "\tif tagType == TagTypeBlock {\n\t\tw.WriteRune('\\n')\n\t\tw.WriteRune('\\n')\n\t}\n\tctx.RenderChildNodes(ctx, w, node)", '\tif tagType == TagTypeBlock && tagName != "dt" {\n\t\tw.WriteRune(\'\\n\')\n\t\tw.WriteRune(\'\\n\')\n\t}\n\tctx.RenderChildNodes(ctx, w, node)')]
demo='\texpect(conv(), "<dl>a<dt>b</dt><dd>c</dd></dl>", "a\\n\\nb\\n\\nc")'
