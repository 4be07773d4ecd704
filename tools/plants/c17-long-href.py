id='c17-long-href'
property='C17'
needs='a destination of more than 2000 characters'
breaks='long destinations are cut'
edits=[('plugin/commonmark/render_link.go', '\thref = strings.TrimSpace(href)\n', '\thref = strings.TrimSpace(href)\n\tif len(href) > 2083 {\n\t\thref = href[:2083]\n\t}\n')]
demo='\th := "/" + strings.Repeat("a", 3000)\n\texpect(conv(), "<p><a href=\'"+h+"\'>t</a></p>", "[t]("+h+")")'
