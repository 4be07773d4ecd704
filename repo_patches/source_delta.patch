From 84cf58c0c78269e24f1dacd7aed3ab65bc4100e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/74] fix: prefix the code block lines inside a blockquote

---
 plugin/commonmark/render_blockquote.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..069428d 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -21,6 +22,13 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
+	// The newlines inside a code block are still represented by the marker,
+	// but those lines also need to be prefixed.
+	content = bytes.ReplaceAll(
+		content,
+		marker.BytesMarkerCodeBlockNewline,
+		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
+	)
 
 	w.WriteRune('\n')
 	w.WriteRune('\n')
-- 
2.43.0


From 9b1e0977eea33e967fc07be282aaa2fd97947d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 02/74] fix: do not overwrite content before a trailing # in a
 heading when escaping is disabled

---
 plugin/commonmark/render_heading.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..1eafa53 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -93,10 +93,12 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		return s
 	}
 
-	// Because we have a # at the end,
-	// we should manually force the escaping
-	// by overriding the placeholder.
-	s[len(s)-2] = '\\'
+	if len(s) >= 2 && s[len(s)-2] == byte(marker.MarkerEscaping) {
+		// Because we have a # at the end,
+		// we should manually force the escaping
+		// by overriding the placeholder.
+		s[len(s)-2] = '\\'
+	}
 
 	return s
 }
-- 
2.43.0


From d29fa387429804889209508f34edae10724f6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/74] fix: escape the pipes of inline code and images inside
 a table cell

---
 plugin/table/2_collect.go |  2 ++
 plugin/table/utils.go     | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..308461f 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -180,6 +180,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
 		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
 		content = ctx.UnEscapeContent(content)
+		// Not every "|" comes from a text (e.g. from inline code or the alt of an image).
+		content = escapePipes(content)
 
 		cellContents = append(cellContents, content)
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..5de2cef 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -185,3 +185,15 @@ func removeFirstRowIfEmpty(rows [][][]byte) [][][]byte {
 
 	return rows
 }
+
+// escapePipes places a backslash before every "|" that is not already escaped.
+func escapePipes(content []byte) []byte {
+	escaped := make([]byte, 0, len(content))
+	for i, b := range content {
+		if b == '|' && (i == 0 || content[i-1] != '\\') {
+			escaped = append(escaped, '\\')
+		}
+		escaped = append(escaped, b)
+	}
+	return escaped
+}
-- 
2.43.0


From ce251686a22a1b69a43f9329c5ffbb548007aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 04/74] fix: decide about escaping inside a blockquote before
 the prefix is added

---
 plugin/commonmark/render_blockquote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 069428d..a1433ec 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -21,6 +21,9 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+	// The decision of what to escape depends on the start of the line,
+	// so it needs to be made before the prefix is added.
+	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 	// The newlines inside a code block are still represented by the marker,
 	// but those lines also need to be prefixed.
-- 
2.43.0


From d7117938410c06c614a6e3ce64cdc8aef76e778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 05/74] fix: do not race on the tag types and the plugin names

getTagType sorted the shared slice in place while only holding the read
lock, and ConvertNode read the list of registered plugins without a lock.
---
 converter/convert.go  | 2 ++
 converter/register.go | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
diff --git a/converter/register.go b/converter/register.go
index d200ded..f4fcdb9 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,10 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// We only hold the read lock, so the shared slice must not be sorted in place.
+	sorted := make(prioritizedSlice[tagType], len(types))
+	copy(sorted, types)
+	sorted.Sort()
 
-	return firstType, true
+	return sorted[0].Value, true
 }
-- 
2.43.0


From c768ba435f63770d5c0ffa03516ae6df3b0bf07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 06/74] fix: limit the cells that colspan and rowspan can add
 to a table

A single colspan="1000000000" made the conversion run out of memory. Use the
limits of browsers and do not convert tables that would mostly consist of
spanned cells.
---
 plugin/table/2_collect.go |  9 +++++++--
 plugin/table/utils.go     | 30 ++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 308461f..08addf0 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -94,6 +94,11 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 	headerRowNode := selectHeaderRowNode(node)
 	normalRowNodes := selectNormalRowNodes(node, headerRowNode)
 
+	if hasExcessiveSpans(node) {
+		// The spans would blow up the table far beyond what is actually there.
+		return nil
+	}
+
 	rows := p.collectRows(ctx, headerRowNode, normalRowNodes)
 	if len(rows) == 0 {
 		return nil
@@ -186,8 +191,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
-		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 
 		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 5de2cef..fb268fa 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -60,6 +60,36 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	return num
 }
 
+const (
+	// The same limits as in browsers (https://html.spec.whatwg.org/multipage/tables.html)
+	maxColSpan = 1000
+	maxRowSpan = 65534
+
+	// How many cells the spans are allowed to add to the table.
+	maxSpannedCells        = 1000
+	maxSpannedCellsPerCell = 100
+)
+
+// hasExcessiveSpans checks if the "colspan" & "rowspan" attributes would add way more
+// cells than there are in the table. The attributes are just numbers in the input,
+// so the memory would otherwise not be limited by the size of the input.
+func hasExcessiveSpans(node *html.Node) bool {
+	cellNodes := dom.FindAllNodes(node, func(n *html.Node) bool {
+		name := dom.NodeName(n)
+		return name == "th" || name == "td"
+	})
+
+	spannedCells := 0
+	for _, cellNode := range cellNodes {
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
+
+		spannedCells += rowSpan*colSpan - 1
+	}
+
+	return spannedCells > maxSpannedCells+maxSpannedCellsPerCell*len(cellNodes)
+}
+
 type modification struct {
 	y    int
 	x    int
-- 
2.43.0


From 57627f39edf9e821b19440016fb7b458567504e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 07/74] fix: report errors while writing to stdout

The exit code was 0 even if nothing could be written (e.g. on a full disk).
---
 cli/html2markdown/cmd/io_output.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..a10714e 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -170,7 +170,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From 3c741faf0ae714c31ff0b42d37717ead3940a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 08/74] fix: evaluate the include and exclude selectors on the
 untouched document

Elements were removed while the exclude selector was still being evaluated, so
e.g. "p:last-child" removed every paragraph. Nested matches of the include
selector were torn out of their place, changing the order of the content.
---
 cli/html2markdown/cmd/cmd_convert.go | 56 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..618d180 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,42 +33,51 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
+func hasAncestorIn(node *html.Node, set map[*html.Node]bool) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if set[p] {
+			return true
+		}
+	}
+	return false
+}
+
 func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 	if len(cli.config.includeSelector) == 0 {
 		return doc, nil
 	}
 	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)
 
-	root := &html.Node{}
+	selected := make(map[*html.Node]bool, len(nodes))
+	for _, n := range nodes {
+		selected[n] = true
+	}
+
+	// A match inside another match is already included at its place. Moving it
+	// to the root would tear it out of there and change the order of the content.
+	var outermost []*html.Node
 	for _, n := range nodes {
+		if !hasAncestorIn(n, selected) {
+			outermost = append(outermost, n)
+		}
+	}
+
+	root := &html.Node{}
+	for _, n := range outermost {
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
 
 	return root, nil
 }
-func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
+
+// findNodesToExclude has to be called on the untouched document: selectors like
+// "p:last-child" or "main > .ad" depend on the nodes around the match.
+func (cli *CLI) findNodesToExclude(doc *html.Node) []*html.Node {
 	if len(cli.config.excludeSelector) == 0 {
 		return nil
 	}
-
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
-	}
-	finder(doc)
-
-	return nil
+	return cascadia.QueryAll(doc, cli.config.excludeSelector)
 }
 func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 	r := bytes.NewReader(input)
@@ -78,14 +87,15 @@ func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 		return nil, fmt.Errorf("error while parsing html: %w", err)
 	}
 
+	nodesToExclude := cli.findNodesToExclude(doc)
+
 	doc, err = cli.includeNodesFromDoc(doc)
 	if err != nil {
 		return nil, err
 	}
 
-	err = cli.excludeNodesFromDoc(doc)
-	if err != nil {
-		return nil, err
+	for _, n := range nodesToExclude {
+		dom.RemoveNode(n)
 	}
 
 	return doc, nil
-- 
2.43.0


From d2146780a8c4300b60f929015f46e4ac388e4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 09/74] fix: reject option values outside of the documented set

"a*b" was accepted as an em delimiter, "abc***" as a horizontal rule and
the behaviors for empty links were not validated at all.
---
 plugin/commonmark/validation.go | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..598edb3 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -38,15 +38,26 @@ func (e *ValidateConfigError) Error() string {
 	return fmt.Sprintf("invalid value for %s must be %s", e.KeyWithValue, e.patternDescription)
 }
 
+// isThematicBreak checks for at least three matching characters, each
+// optionally followed by spaces or tabs. Nothing else may be on that line.
+func isThematicBreak(rule string) bool {
+	chars := strings.NewReplacer(" ", "", "\t", "").Replace(rule)
+	if len(chars) < 3 || !strings.Contains("*_-", chars[:1]) {
+		return false
+	}
+
+	return strings.Count(chars, chars[:1]) == len(chars)
+}
+
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if !contains([]string{"*", "_"}, cfg.EmDelimiter) {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if !contains([]string{"**", "__"}, cfg.StrongDelimiter) {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +65,7 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	if !isThematicBreak(cfg.HorizontalRule) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
@@ -97,5 +106,21 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
+	possibleLinkBehaviors := []string{string(LinkBehaviorRender), string(LinkBehaviorSkip)}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyHrefBehavior",
+			Value:              string(cfg.LinkEmptyHrefBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyContentBehavior",
+			Value:              string(cfg.LinkEmptyContentBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From ffd74330c7018400ec800ee77d54c10d4c43ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/74] fix: do not merge bold and italic elements that are
 next to each other

<strong>a</strong><em>b</em> became **ab**
---
 plugin/commonmark/handle_pre_render.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 47eebb5..b719e3e 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -70,7 +70,8 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 
 	// - - - Bold / Italic - - - //
 	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
-	domutils.MergeAdjacent(doc, nameIsBoldOrItalic)
+	domutils.MergeAdjacent(doc, nameIsBold)
+	domutils.MergeAdjacent(doc, nameIsItalic)
 
 	// domutils.MovePunctuation(ctx, doc, nameIsBoldOrItalic)
 
-- 
2.43.0


From 19acef08370cebd60bf0959b246e6ec488d28392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 11/74] fix: escape the alt text of images

It is parsed as inline content, so e.g. "a*b*" lost characters and a
backslash at the end prevented the image from being recognized.
---
 plugin/commonmark/render_image.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..7f3b234 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -7,9 +7,16 @@ import (
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
+var altEntityReplacer = strings.NewReplacer("<", "&lt;", ">", "&gt;")
+var altBracketReplacer = strings.NewReplacer(
+	string(marker.MarkerEscaping)+"[", `\[`,
+	string(marker.MarkerEscaping)+"]", `\]`,
+)
+
 func escapeAlt(altString string) string {
 	alt := []byte(altString)
 
@@ -42,8 +49,13 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	alt := dom.GetAttributeOr(n, "alt", "")
 	alt = strings.ReplaceAll(alt, "\n", " ")
 
-	// The alt description will be placed between two square brackets `[alt]`
-	// so make sure that those characters are escaped.
+	// The alt description is parsed as inline content.
+	alt = altEntityReplacer.Replace(alt)
+	alt = string(ctx.EscapeContent([]byte(alt)))
+
+	// It will be placed between two square brackets `[alt]`
+	// so make sure that those characters are always escaped.
+	alt = altBracketReplacer.Replace(alt)
 	alt = escapeAlt(alt)
 
 	w.WriteRune('!')
-- 
2.43.0


From 66ac66d05a44be323707edfe8b4c4b927b343590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 12/74] fix: escape backslashes in the title of links and
 images

A title ending with a backslash escaped the closing quote, so that the link
was not recognized anymore.
---
 internal/textutils/quote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..22d7d95 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,9 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	// A backslash could otherwise escape the closing quote.
+	content = bytes.ReplaceAll(content, []byte(`\`), []byte(`\\`))
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
-- 
2.43.0


From 55ab26252d0fa54216de7b3a408416cdf2126a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 13/74] fix: escape the delimiter inside of emphasized text

A delimiter followed by white space (<em>a* b</em>) ended the emphasis too early.
---
 plugin/commonmark/commonmark.go         |  5 +++++
 plugin/commonmark/render_bold_italic.go | 13 ++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/commonmark.go b/plugin/commonmark/commonmark.go
index d9ef9be..7478cf8 100644
--- a/plugin/commonmark/commonmark.go
+++ b/plugin/commonmark/commonmark.go
@@ -196,6 +196,11 @@ func (cm commonmark) handleTextTransform(ctx converter.Context, content string)
 	if isEnabled, ok := ctx.Value("is_inside_link").(bool); ok && isEnabled {
 		content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\]`, -1)
 	}
+	if chars, ok := ctx.Value("is_inside_delimiters").(string); ok {
+		for _, char := range chars {
+			content = strings.ReplaceAll(content, string([]rune{marker.MarkerEscaping, char}), string([]rune{'\\', char}))
+		}
+	}
 	// if isEnabled, ok := ctx.Value("is_inside_heading").(bool); ok && isEnabled {
 	// 	// The "#" character would be completely removed, if at the _end_
 	// 	// of the heading content. So always escape it inside headings.
diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 50586fc..1fcdd13 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -2,6 +2,7 @@ package commonmark
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
@@ -20,12 +21,18 @@ func (c commonmark) getDelimiter(n *html.Node) []byte {
 	}
 }
 func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
-	var buf bytes.Buffer
-	ctx.RenderChildNodes(ctx, &buf, n)
-
 	// Depending on the options & whether it is bold or italic there
 	// is going to be a different delimiter.
 	delimiter := c.getDelimiter(n)
+
+	// The same character inside of the text could close the delimiter too early.
+	chars, _ := ctx.Value("is_inside_delimiters").(string)
+	if len(delimiter) > 0 && !strings.Contains(chars, string(delimiter[:1])) {
+		ctx = ctx.WithValue("is_inside_delimiters", chars+string(delimiter[:1]))
+	}
+
+	var buf bytes.Buffer
+	ctx.RenderChildNodes(ctx, &buf, n)
 	content := buf.Bytes()
 
 	// If there is a newline character between the start and end delimiter
-- 
2.43.0


From f920861577db5b17cbad499edec10a71499e708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 14/74] fix: escape tildes inside of struck through text

A tilde followed by white space (<del>a~~ b</del>) ended the strikethrough too early.
---
 plugin/strikethrough/strikethrough.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 961212f..34e59b5 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -2,6 +2,7 @@ package strikethrough
 
 import (
 	"bytes"
+	"strings"
 	"unicode"
 
 	"github.com/JohannesKaufmann/dom"
@@ -9,6 +10,7 @@ import (
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/escape"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -45,6 +47,7 @@ func (s *strikethroughPlugin) Init(conv *converter.Converter) error {
 	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard)
 
 	conv.Register.EscapedChar('~')
+	conv.Register.TextTransformer(s.handleTextTransform, converter.PriorityStandard)
 	conv.Register.UnEscaper(s.handleUnEscapers, converter.PriorityStandard)
 
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
@@ -57,6 +60,15 @@ func (s *strikethroughPlugin) handlePreRender(ctx converter.Context, doc *html.N
 	domutils.MergeAdjacent(doc, nameIsStrikethough)
 }
 
+func (s *strikethroughPlugin) handleTextTransform(ctx converter.Context, content string) string {
+	if isInside, ok := ctx.Value("is_inside_strikethrough").(bool); ok && isInside {
+		// Inside of the element a tilde could close the delimiter too early.
+		content = strings.ReplaceAll(content, string(marker.MarkerEscaping)+`~`, `\~`)
+	}
+
+	return content
+}
+
 func (s *strikethroughPlugin) handleUnEscapers(chars []byte, index int) int {
 	if chars[index] != '~' {
 		return -1
@@ -91,7 +103,7 @@ func (s strikethroughPlugin) handleRender(ctx converter.Context, w converter.Wri
 }
 func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	var buf bytes.Buffer
-	ctx.RenderChildNodes(ctx, &buf, n)
+	ctx.RenderChildNodes(ctx.WithValue("is_inside_strikethrough", true), &buf, n)
 
 	content := buf.Bytes()
 
-- 
2.43.0


From d9854d4f81db57b3b416f0c9bd17acc42bdf0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 15/74] fix: do not mix backticks and tildes while looking for
 a code fence

A run like `~` was regarded as one fence, so that only its first character was escaped.
---
 internal/escape/elem_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 65adaaa..377bd1d 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -22,7 +22,7 @@ func IsFencedCode(chars []byte, index int) int {
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if chars[i] == '`' || chars[i] == '~' {
+		if chars[i] == chars[index] {
 			count++
 			continue
 		}
-- 
2.43.0


From 87d4c8cd69dd2f3f17a4833c59680a37e6d40cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 16/74] fix: do not form a thematic break with the bullet list
 marker

The marker together with the text or rule at the start of an item ("- --", "* * * *")
was a thematic break instead of a list item.
---
 plugin/commonmark/render_list.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..e6bea2a 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -65,6 +65,32 @@ func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int
 	}
 }
 
+// avoidDivider makes sure that the bullet list marker does not form a thematic break
+// together with the first line of the list item ("- --" or "* * * *").
+func (c commonmark) avoidDivider(item []byte) []byte {
+	line, rest, isMultiLine := bytes.Cut(item, []byte("\n"))
+
+	count := bytes.Count(line, []byte(c.BulletListMarker))
+	if c.BulletListMarker == "+" || count < 2 || len(bytes.Trim(line, c.BulletListMarker+" ")) != 0 {
+		return item
+	}
+	if count == 2 {
+		// Not a thematic break on its own, so this is text.
+		return append([]byte(`\`), item...)
+	}
+
+	// The thematic break needs to use a different character than the list.
+	char := []byte("*")
+	if c.BulletListMarker == "*" {
+		char = []byte("-")
+	}
+	line = bytes.ReplaceAll(line, []byte(c.BulletListMarker), char)
+	if !isMultiLine {
+		return line
+	}
+	return bytes.Join([][]byte{line, rest}, []byte("\n"))
+}
+
 func (c commonmark) renderListContainer(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	children := dom.AllChildNodes(n)
 	items := make([][]byte, 0, len(children))
@@ -96,6 +122,9 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
 		item = ctx.UnEscapeContent(item)
+		if n.Data == "ul" {
+			item = c.avoidDivider(item)
+		}
 
 		// An item might have different lines that each
 		// must be indented with the correct count of spaces.
-- 
2.43.0


From 4aa1c211ae4d3c3e973ccb3a40faec2e8f79ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 17/74] fix: escape text that looks like the delimiter row of a
 table

With the table plugin a line like "|-" or ":-" turned the line above into a table header.
---
 plugin/table/table.go |  3 ++-
 plugin/table/utils.go | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/plugin/table/table.go b/plugin/table/table.go
index 9d79617..ee42ae8 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -186,7 +186,8 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 		return err
 	}
 
-	conv.Register.EscapedChar('|')
+	conv.Register.EscapedChar('|', ':')
+	conv.Register.UnEscaper(isDelimiterRow, converter.PriorityStandard)
 
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index fb268fa..49d5e55 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -1,11 +1,13 @@
 package table
 
 import (
+	"bytes"
 	"slices"
 	"strconv"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -227,3 +229,27 @@ func escapePipes(content []byte) []byte {
 	}
 	return escaped
 }
+
+// isDelimiterRow checks if the characters look like the delimiter row of a table,
+// which would turn the line above into the header row.
+func isDelimiterRow(chars []byte, index int) int {
+	if chars[index] != '|' && chars[index] != ':' && chars[index] != '-' {
+		return -1
+	}
+
+	before := bytes.Trim(chars[:index], " \t"+string(marker.MarkerEscaping))
+	if len(before) == 0 || before[len(before)-1] != '\n' {
+		// It is not the first character on the line OR there is no line above.
+		return -1
+	}
+
+	line, _, _ := bytes.Cut(chars[index:], []byte("\n"))
+	if !bytes.ContainsRune(line, '-') {
+		return -1
+	}
+	if len(bytes.Trim(line, "|:- \t"+string(marker.MarkerEscaping))) != 0 {
+		return -1
+	}
+
+	return 1
+}
-- 
2.43.0


From e462b0b2280effe6b09b3e7a546872b6648ff5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 18/74] fix: escape opening brackets inside of a link

---
 plugin/commonmark/commonmark.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/commonmark/commonmark.go b/plugin/commonmark/commonmark.go
index 7478cf8..7a0d8a1 100644
--- a/plugin/commonmark/commonmark.go
+++ b/plugin/commonmark/commonmark.go
@@ -194,6 +194,7 @@ func (cm commonmark) handlePostRenderCodeBlockNewline(ctx converter.Context, con
 func (cm commonmark) handleTextTransform(ctx converter.Context, content string) string {
 
 	if isEnabled, ok := ctx.Value("is_inside_link").(bool); ok && isEnabled {
+		content = strings.Replace(content, string(marker.MarkerEscaping)+`[`, `\[`, -1)
 		content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\]`, -1)
 	}
 	if chars, ok := ctx.Value("is_inside_delimiters").(string); ok {
-- 
2.43.0


From 02d1bac59763190e4085422b3a53c55b2f9ba893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 19/74] fix: escape every backtick of a run at the start of a
 line

Only the first backtick of what looked like a code fence was escaped, so that
the others could start inline code.
---
 plugin/commonmark/commonmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/commonmark/commonmark.go b/plugin/commonmark/commonmark.go
index 7a0d8a1..25d8a72 100644
--- a/plugin/commonmark/commonmark.go
+++ b/plugin/commonmark/commonmark.go
@@ -171,7 +171,7 @@ func (cm *commonmark) Init(conv *converter.Converter) error {
 	conv.Register.UnEscaper(escape.IsUnorderedList, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsImageOrLink, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsFencedCode, converter.PriorityStandard)
-	conv.Register.UnEscaper(escape.IsInlineCode, converter.PriorityStandard)
+	conv.Register.UnEscaper(escape.IsInlineCode, converter.PriorityEarly)
 	conv.Register.UnEscaper(escape.IsBackslash, converter.PriorityStandard)
 
 	conv.Register.Renderer(cm.handleRender, converter.PriorityStandard)
-- 
2.43.0


From 7eb8cff92e0ee1a85489a60f3436f5995b786819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 20/74] fix: merge adjacent elements through spans without
 leaving the parent

---
 internal/domutils/adjacent.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..4578783 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,18 +5,34 @@ import (
 	"golang.org/x/net/html"
 )
 
+// getNextAdjacentNode returns the node that directly follows, without leaving the parent.
+// A span has no special meaning, so the end of a span is not the end of the parent.
+func getNextAdjacentNode(node *html.Node) *html.Node {
+	for node.NextSibling == nil {
+		node = node.Parent
+		if node == nil || dom.NodeName(node) != "span" {
+			return nil
+		}
+	}
+	return node.NextSibling
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
-	node = node.NextSibling
+	node = getNextAdjacentNode(node)
 	for node != nil {
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			if node.FirstChild != nil {
+				node = node.FirstChild
+			} else {
+				node = getNextAdjacentNode(node)
+			}
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+			node = getNextAdjacentNode(node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
-- 
2.43.0


From 163b17a76448f85f40ed48c0f9f8d7dc5eb066a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 21/74] fix: remove empty kbd, samp, var and tt elements

They were rendered as two backticks, which could pair up with later backticks.
---
 internal/domutils/empty_code.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/empty_code.go b/internal/domutils/empty_code.go
index d6d81d1..396548c 100644
--- a/internal/domutils/empty_code.go
+++ b/internal/domutils/empty_code.go
@@ -25,10 +25,18 @@ func hasTextChildNodes(startNode *html.Node) bool {
 	return found
 }
 
+func isInlineCode(node *html.Node) bool {
+	switch dom.NodeName(node) {
+	case "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
+}
+
 func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
-		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) {
+		if isInlineCode(node) && !hasTextChildNodes(node) {
 			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
 
 			dom.RemoveNode(node)
-- 
2.43.0


From a0467bbc8d991fff6a86e13a4b54784d6d17ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 22/74] fix: trim line breaks at the edges of a setext heading

---
 plugin/commonmark/render_heading.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 1eafa53..b2f0203 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -120,6 +120,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
 		content = textutils.TrimConsecutiveNewlines(content)
+		// A line break at the start or end would leave a blank line in the heading.
+		content = bytes.TrimSpace(content)
 		content = textutils.EscapeMultiLine(content)
 
 		width := getUnderlineWidth(content, 3)
-- 
2.43.0


From 0a6adcb2fe6e3161c0801bd7877da4570fe3f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 23/74] fix: separate the neighbours of an empty heading, list
 or blockquote

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_heading.go    | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index a1433ec..5ed3202 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -16,6 +16,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// Even without content this is a block that separates its neighbours.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index b2f0203..ec228c2 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -113,6 +113,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// Even without content this is a block that separates its neighbours.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index e6bea2a..cf3310d 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -109,6 +109,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// Even without content this is a block that separates its neighbours.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From 5c084894086efba9a77aaf8715528b30c87d8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 24/74] fix: encode backslashes and control characters in link
 destinations

---
 converter/url.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..a147269 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -1,19 +1,25 @@
 package converter
 
 import (
+	"fmt"
 	"net/url"
 	"strings"
+	"unicode"
 )
 
-var percentEncodingReplacer = strings.NewReplacer(
-	" ", "%20",
-	"[", "%5B",
-	"]", "%5D",
-	"(", "%28",
-	")", "%29",
-	"<", "%3C",
-	">", "%3E",
-)
+var percentEncodingReplacer = newPercentEncodingReplacer(" []()<>\\")
+
+// newPercentEncodingReplacer encodes the characters (and all control characters)
+// that would otherwise end the link destination or get lost from it.
+func newPercentEncodingReplacer(chars string) *strings.Replacer {
+	var oldnew []string
+	for c := rune(0); c <= unicode.MaxASCII; c++ {
+		if unicode.IsControl(c) || strings.ContainsRune(chars, c) {
+			oldnew = append(oldnew, string(c), fmt.Sprintf("%%%02X", c))
+		}
+	}
+	return strings.NewReplacer(oldnew...)
+}
 
 func parseBaseDomain(rawDomain string) *url.URL {
 	if rawDomain == "" {
-- 
2.43.0


From 6e5732285c99930167ef3345b862a707589906da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 25/74] fix: keep list numbers within what a list item can have

---
 plugin/commonmark/render_list.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index cf3310d..8b01593 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -13,10 +13,13 @@ import (
 	"golang.org/x/net/html"
 )
 
+// In commonmark the number of a list item can have at most nine digits (and is never negative).
+const maxListNumber = 999_999_999
+
 func getStartAt(node *html.Node) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
 	startAt, err := strconv.Atoi(startVal)
-	if err != nil {
+	if err != nil || startAt < 0 || startAt > maxListNumber {
 		startAt = 1
 	}
 
@@ -31,8 +34,8 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 			return c.BulletListMarker + " "
 		}
 
-		currentIndex := startAt + sliceIndex
-		lastIndex := startAt + sliceLength - 1
+		currentIndex := min(startAt+sliceIndex, maxListNumber)
+		lastIndex := min(startAt+sliceLength-1, maxListNumber)
 		maxLength := utf8.RuneCountInString(strconv.Itoa(lastIndex))
 
 		// Pad the numbers so that all prefix numbers in the list take up the same space
-- 
2.43.0


From 2ed11cf325e7865d36bb501cb6cf6f678625367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 26/74] fix: keep the registration order of handlers with the
 same priority

---
 converter/prioritized.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..7322b1f 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,9 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	// The order of handlers with the same priority should not depend on
+	// how many other handlers are registered.
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0


From a425ab4717d24cac1996b55d9be2b4f2e8235d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 27/74] fix: reject horizontal rules that are indented like
 code

---
 plugin/commonmark/validation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index 598edb3..da8a3d7 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -39,8 +39,14 @@ func (e *ValidateConfigError) Error() string {
 }
 
 // isThematicBreak checks for at least three matching characters, each
-// optionally followed by spaces or tabs. Nothing else may be on that line.
+// optionally followed by spaces or tabs. Nothing else may be on that line,
+// which may be indented by up to three spaces.
 func isThematicBreak(rule string) bool {
+	indented := strings.TrimLeft(rule, " ")
+	if len(rule)-len(indented) > 3 || strings.HasPrefix(indented, "\t") {
+		return false
+	}
+
 	chars := strings.NewReplacer(" ", "", "\t", "").Replace(rule)
 	if len(chars) < 3 || !strings.Contains("*_-", chars[:1]) {
 		return false
-- 
2.43.0


From 62ec1132c3d86e34b02756fb333d2ce19737b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:13 +0000
Subject: [PATCH 28/74] fix: replace the characters that are used as markers in
 the document

---
 plugin/base/base.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/plugin/base/base.go b/plugin/base/base.go
index de50a8e..cd4e1dd 100644
--- a/plugin/base/base.go
+++ b/plugin/base/base.go
@@ -10,6 +10,7 @@ import (
 	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 
 	"golang.org/x/net/html"
 )
@@ -45,6 +46,7 @@ func (b *base) Init(conv *converter.Converter) error {
 	// conv.Register.TagStrategy("tr", converter.StrategyMarkdownBlock, converter.PriorityStandard)
 	// conv.Register.TagType("tr", converter.BlockTagType, converter.PriorityStandard)
 
+	conv.Register.PreRenderer(b.preRenderReplaceReserved, converter.PriorityEarly)
 	conv.Register.PreRenderer(b.preRenderRemove, converter.PriorityEarly)
 	// Note: The priority is low, so that collapse runs _after_ all the other functions
 	conv.Register.PreRenderer(b.preRenderCollapse, converter.PriorityLate)
@@ -57,6 +59,32 @@ func (b *base) Init(conv *converter.Converter) error {
 	return nil
 }
 
+// The markers are used to remember something until the post-render phase. If they would also
+// be in the document, they could not be told apart. And for security reasons, the
+// Unicode character U+0000 must be replaced with the REPLACEMENT CHARACTER (U+FFFD).
+var reservedCharReplacer = strings.NewReplacer(
+	"\u0000", "\ufffd",
+	string(marker.MarkerEscaping), "\ufffd",
+	string(marker.MarkerCodeBlockNewline), "\ufffd",
+)
+
+func (b *base) preRenderReplaceReserved(ctx converter.Context, doc *html.Node) {
+	var finder func(node *html.Node)
+	finder = func(node *html.Node) {
+		if node.Type == html.TextNode {
+			node.Data = reservedCharReplacer.Replace(node.Data)
+		}
+		for i := range node.Attr {
+			node.Attr[i].Val = reservedCharReplacer.Replace(node.Attr[i].Val)
+		}
+
+		for child := node.FirstChild; child != nil; child = child.NextSibling {
+			finder(child)
+		}
+	}
+	finder(doc)
+}
+
 func (b *base) preRenderRemove(ctx converter.Context, doc *html.Node) {
 	var finder func(node *html.Node)
 	finder = func(node *html.Node) {
-- 
2.43.0


From adc27f317840db2101de191c6a1f402e38f9cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:52 +0000
Subject: [PATCH 29/74] fix: only rewrite a real thematic break at the start of
 a list item

---
 plugin/commonmark/render_list.go | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 8b01593..e6d4632 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -68,18 +69,38 @@ func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int
 	}
 }
 
+// startsWithDivider checks if the thematic break is the first thing in the list item.
+func startsWithDivider(node *html.Node) bool {
+	first := dom.FindFirstNode(node, func(n *html.Node) bool {
+		name := dom.NodeName(n)
+		return name == "hr" || name == "img" || (n.Type == html.TextNode && strings.TrimSpace(n.Data) != "")
+	})
+
+	return first != nil && dom.NodeName(first) == "hr"
+}
+
 // avoidDivider makes sure that the bullet list marker does not form a thematic break
 // together with the first line of the list item ("- --" or "* * * *").
-func (c commonmark) avoidDivider(item []byte) []byte {
+//
+// Note: This needs to happen before the content is un-escaped.
+func (c commonmark) avoidDivider(node *html.Node, item []byte) []byte {
 	line, rest, isMultiLine := bytes.Cut(item, []byte("\n"))
 
-	count := bytes.Count(line, []byte(c.BulletListMarker))
-	if c.BulletListMarker == "+" || count < 2 || len(bytes.Trim(line, c.BulletListMarker+" ")) != 0 {
+	visible := bytes.ReplaceAll(line, marker.BytesMarkerEscaping, nil)
+	count := bytes.Count(visible, []byte(c.BulletListMarker))
+	if c.BulletListMarker == "+" || count < 2 || len(bytes.Trim(visible, c.BulletListMarker+" ")) != 0 {
 		return item
 	}
-	if count == 2 {
-		// Not a thematic break on its own, so this is text.
-		return append([]byte(`\`), item...)
+
+	if bytes.HasPrefix(item, marker.BytesMarkerEscaping) {
+		// It is text. With three characters it would be escaped anyway.
+		if count == 2 {
+			return append([]byte(`\`), item[len(marker.BytesMarkerEscaping):]...)
+		}
+		return item
+	}
+	if !startsWithDivider(node) {
+		return item
 	}
 
 	// The thematic break needs to use a different character than the list.
@@ -108,6 +129,10 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 			continue
 		}
 
+		if n.Data == "ul" {
+			content = c.avoidDivider(child, content)
+		}
+
 		items = append(items, content)
 	}
 
@@ -127,9 +152,6 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
 		item = ctx.UnEscapeContent(item)
-		if n.Data == "ul" {
-			item = c.avoidDivider(item)
-		}
 
 		// An item might have different lines that each
 		// must be indented with the correct count of spaces.
-- 
2.43.0


From 330dd23402eed31843d2c5c21f31861ddeba5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:25 +0000
Subject: [PATCH 30/74] fix: keep all captions of a table

Only the first caption was rendered, the content of any other one was lost.
---
 plugin/table/2_collect.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 08addf0..b836e9e 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -241,15 +241,19 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 }
 
 func collectCaption(ctx converter.Context, node *html.Node) []byte {
-	captionNode := dom.FindFirstNode(node, func(node *html.Node) bool {
+	captionNodes := dom.FindAllNodes(node, func(node *html.Node) bool {
 		return node.DataAtom == atom.Caption
 	})
-	if captionNode == nil {
+	if len(captionNodes) == 0 {
 		return nil
 	}
 
 	var buf bytes.Buffer
-	ctx.RenderNodes(ctx, &buf, captionNode)
+	for _, captionNode := range captionNodes {
+		// Only one caption is allowed, but the content of the others should not be lost.
+		ctx.RenderNodes(ctx, &buf, captionNode)
+		buf.WriteString("\n\n")
+	}
 
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
-- 
2.43.0


From 09668460959dbd78596f63bbd465da317ff294b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:25 +0000
Subject: [PATCH 31/74] fix: separate the items of a list that cannot be
 rendered as a list

Inside a link, a heading or emphasis the list items were turned into
spans, so that the words of adjacent items were joined.
---
 internal/domutils/alternatives.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index a3da350..fadd4c9 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -58,6 +58,17 @@ func blockquoteAlternative(ctx context.Context, node *html.Node) {
 func preAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "code"
 }
+func listAlternative(ctx context.Context, node *html.Node) {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if name := dom.NodeName(p); name == "code" || name == "pre" {
+			node.Data = "span"
+			return
+		}
+	}
+
+	// The items should still be separated from each other.
+	node.Data = "div"
+}
 func hrAlternative(ctx context.Context, node *html.Node) {
 	dom.RemoveNode(node)
 }
@@ -73,9 +84,14 @@ var alternatives = map[string]func(ctx context.Context, node *html.Node){
 	"blockquote": blockquoteAlternative,
 	"pre":        preAlternative,
 	"hr":         hrAlternative,
+	"ul":         listAlternative,
+	"ol":         listAlternative,
+	"li":         listAlternative,
 }
 
-func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
+// LeafBlockAlternatives replaces the blocks that are inside inline content (or inside leaf blocks).
+// Additional elements that also only contain inline content can be given through isInline.
+func LeafBlockAlternatives(ctx context.Context, doc *html.Node, isInline ...func(node *html.Node) bool) {
 	var finder func(node *html.Node, isInsideLeafBlock bool, isInsideInline bool)
 	finder = func(node *html.Node, isInsideLeafBlock bool, isInsideInline bool) {
 		name := dom.NodeName(node)
-- 
2.43.0


From 9694fc939209f3b806d5894fe243f6a0cc989694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:25 +0000
Subject: [PATCH 32/74] fix: replace the blocks inside of strikethrough
 elements

The delimiters on every line broke headings, lists, quotes and the
fences of code blocks, so that they came out as literal text.
---
 internal/domutils/alternatives.go     | 3 +++
 plugin/strikethrough/strikethrough.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index fadd4c9..84bba72 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -121,6 +121,9 @@ func LeafBlockAlternatives(ctx context.Context, doc *html.Node, isInline ...func
 		if structure == "inline" {
 			isInsideInline = true
 		}
+		for _, fn := range isInline {
+			isInsideInline = isInsideInline || fn(node)
+		}
 
 		for child := node.FirstChild; child != nil; child = child.NextSibling {
 			defer finder(child, isInsideLeafBlock, isInsideInline)
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 34e59b5..eec6750 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -56,6 +56,9 @@ func (s *strikethroughPlugin) Init(conv *converter.Converter) error {
 }
 
 func (s *strikethroughPlugin) handlePreRender(ctx converter.Context, doc *html.Node) {
+	// A block (e.g. a code block) would be broken by the delimiters.
+	domutils.LeafBlockAlternatives(ctx, doc, nameIsStrikethough)
+
 	domutils.RemoveRedundant(doc, nameIsBothStrikethough)
 	domutils.MergeAdjacent(doc, nameIsStrikethough)
 }
-- 
2.43.0


From e8caaed492cfea032d8e71840b9b5395910d25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 33/74] fix: do not put quotation marks around an empty
 blockquote

A blockquote without any visible content inside a heading or other inline
content gave a pair of quotation marks for an invisible document.
---
 internal/domutils/alternatives.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 84bba72..fe84d81 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -2,6 +2,7 @@ package domutils
 
 import (
 	"context"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -46,7 +47,21 @@ func headingAlternative(ctx context.Context, node *html.Node) {
 	}
 	node.Parent.InsertBefore(newChild, node.NextSibling)
 }
+func hasVisibleContent(node *html.Node) bool {
+	return dom.FindFirstNode(node, func(n *html.Node) bool {
+		if dom.NodeName(n) == "img" {
+			return strings.TrimSpace(dom.GetAttributeOr(n, "src", "")) != ""
+		}
+		return n.Type == html.TextNode && strings.TrimSpace(n.Data) != ""
+	}) != nil
+}
 func blockquoteAlternative(ctx context.Context, node *html.Node) {
+	if !hasVisibleContent(node) {
+		// There is nothing that could be quoted.
+		node.Data = "span"
+		return
+	}
+
 	newBefore := &html.Node{Type: html.TextNode, Data: ` "`}
 	node.Parent.InsertBefore(newBefore, node)
 
-- 
2.43.0


From 80a6a98e7a8e757531b02937bc65fd1a848e2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 34/74] fix: do not end an empty list with a comment

An empty list in front of another list left only the comment
in the output of an otherwise empty document.
---
 plugin/commonmark/render_comment.go |  9 ++++++++-
 plugin/commonmark/render_list.go    | 11 +++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_comment.go b/plugin/commonmark/render_comment.go
index 119d467..baaa7aa 100644
--- a/plugin/commonmark/render_comment.go
+++ b/plugin/commonmark/render_comment.go
@@ -6,9 +6,16 @@ import (
 	"golang.org/x/net/html"
 )
 
-func (c *commonmark) renderComment(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
+func (c *commonmark) renderComment(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 
 	if n.Data == domutils.ListEndCommentData {
+		if emptyLists := converter.GetState[map[*html.Node]bool](ctx, stateEmptyLists); emptyLists[n.PrevSibling] {
+			// The list was empty, so there is nothing that could be
+			// connected with the next list.
+			w.WriteString("\n\n")
+			return converter.RenderSuccess
+		}
+
 		// We definitely want to render the list end comments
 		// that were just added
 		w.WriteRune('\n')
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index e6d4632..e69d528 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -115,6 +115,9 @@ func (c commonmark) avoidDivider(node *html.Node, item []byte) []byte {
 	return bytes.Join([][]byte{line, rest}, []byte("\n"))
 }
 
+// The lists that did not have any content
+const stateEmptyLists = "commonmark_empty_lists"
+
 func (c commonmark) renderListContainer(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	children := dom.AllChildNodes(n)
 	items := make([][]byte, 0, len(children))
@@ -137,6 +140,14 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		converter.UpdateState(ctx, stateEmptyLists, func(lists map[*html.Node]bool) map[*html.Node]bool {
+			if lists == nil {
+				lists = make(map[*html.Node]bool)
+			}
+			lists[n] = true
+			return lists
+		})
+
 		// Even without content this is a block that separates its neighbours.
 		w.WriteString("\n\n")
 		return converter.RenderSuccess
-- 
2.43.0


From c2daa14bb5b72516ed4da6a1857f0526dc8b5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 35/74] fix: keep inline code that only contains white space on
 one line

Newlines inside of it produced blank lines that end the paragraph, and
without any content only the backticks were left over.
---
 plugin/commonmark/render_code.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..b96f0d1 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -12,16 +12,22 @@ import (
 	"golang.org/x/net/html"
 )
 
+func spaceForNewline(r rune) rune {
+	if r == '\n' || r == '\r' || r == '\t' {
+		return ' '
+	}
+	return r
+}
+
 func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	// TODO: configure delimeter in options?
 	fenceChar := '`'
 
 	codeContent, _ := getCodeWithoutTags(n)
 
-	// TODO: debug flag?
 	if len(codeContent) == 0 {
-		// fmt.Println("expected an empty inline code to be already removed")
-		// panic("expected an empty inline code to be already removed")
+		// The white space was collapsed, so that there is nothing left.
+		return converter.RenderSuccess
 	}
 	// TODO: configurable function to decide if inline or block?
 	if bytes.Contains(codeContent, []byte("\n")) {
@@ -32,7 +38,7 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 	if bytes.TrimSpace(codeContent) == nil {
 		// No stripping occurs if the code span contains _only_ spaces:
 		w.WriteRune(fenceChar)
-		w.Write(codeContent)
+		w.Write(bytes.Map(spaceForNewline, codeContent))
 		w.WriteRune(fenceChar)
 		return converter.RenderSuccess
 	}
-- 
2.43.0


From 9f329b5ea222cf0d224f145cf3795b18dba4a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:23 +0000
Subject: [PATCH 36/74] fix: neither lose nor duplicate text that is outside of
 or nested in cells

Cells inside of other cells (e.g. in the foreign content of an svg) were
rendered twice, and text between the cells was dropped.
---
 plugin/table/1_select.go  | 64 ++++++++++++++++++++++++---------------
 plugin/table/2_collect.go | 20 ++++++++++--
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/plugin/table/1_select.go b/plugin/table/1_select.go
index 944b61b..c1e81e0 100644
--- a/plugin/table/1_select.go
+++ b/plugin/table/1_select.go
@@ -5,46 +5,60 @@ import (
 	"golang.org/x/net/html"
 )
 
+// isCell is true for the elements that hold the content of the table.
+func isCell(node *html.Node) bool {
+	name := dom.NodeName(node)
+	return name == "th" || name == "td" || name == "caption"
+}
+
+// findOutsideCells returns the matching nodes of a table
+// without looking at the content *inside* of the cells.
+func findOutsideCells(startNode *html.Node, matchFn func(node *html.Node) bool) []*html.Node {
+	var found []*html.Node
+
+	var finder func(node *html.Node)
+	finder = func(node *html.Node) {
+		for child := node.FirstChild; child != nil; child = child.NextSibling {
+			if matchFn(child) {
+				found = append(found, child)
+			}
+			if !isCell(child) {
+				finder(child)
+			}
+		}
+	}
+	finder(startNode)
+
+	return found
+}
+
 func selectHeaderRowNode(node *html.Node) *html.Node {
-	thead := dom.FindFirstNode(node, func(n *html.Node) bool {
+	theads := findOutsideCells(node, func(n *html.Node) bool {
 		return dom.NodeName(n) == "thead"
 	})
-	if thead != nil {
-		firstTr := dom.FindFirstNode(thead, func(n *html.Node) bool {
+	if len(theads) > 0 {
+		trs := findOutsideCells(theads[0], func(n *html.Node) bool {
 			return dom.NodeName(n) == "tr"
 		})
-		if firstTr != nil {
+		if len(trs) > 0 {
 			// YEAH we found the "tr" inside the "thead"
-			return firstTr
+			return trs[0]
 		}
 	}
 
-	firstTh := dom.FindFirstNode(node, func(n *html.Node) bool {
+	ths := findOutsideCells(node, func(n *html.Node) bool {
 		return dom.NodeName(n) == "th"
 	})
-	if firstTh != nil {
+	if len(ths) > 0 {
 		// YEAH we found the "th"
-		return firstTh.Parent
+		return ths[0].Parent
 	}
 
 	return nil
 }
 func selectNormalRowNodes(tableNode *html.Node, selectedHeaderRowNode *html.Node) []*html.Node {
-	var collected []*html.Node
-
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		name := dom.NodeName(node)
-		if name == "tr" && node != selectedHeaderRowNode {
-			// We want to make sure to not select the header row a *second* time.
-			collected = append(collected, node)
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			finder(child)
-		}
-	}
-	finder(tableNode)
-
-	return collected
+	return findOutsideCells(tableNode, func(n *html.Node) bool {
+		// We want to make sure to not select the header row a *second* time.
+		return dom.NodeName(n) == "tr" && n != selectedHeaderRowNode
+	})
 }
diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index b836e9e..5684da1 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
@@ -42,6 +43,13 @@ func hasProblematicChildNode(node *html.Node) bool {
 	return problematicNode != nil
 }
 
+func hasTextOutsideCells(node *html.Node) bool {
+	texts := findOutsideCells(node, func(n *html.Node) bool {
+		return n.Type == html.TextNode && strings.TrimSpace(n.Data) != ""
+	})
+	return len(texts) > 0
+}
+
 func hasProblematicParentNode(node *html.Node) bool {
 	p := node.Parent
 
@@ -85,6 +93,12 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 		return nil
 	}
 
+	if hasTextOutsideCells(node) {
+		// The text (e.g. of a <select> in between the cells) has no place in the
+		// table and would be lost.
+		return nil
+	}
+
 	if hasProblematicParentNode(node) {
 		// There are certain parent nodes (e.g. <a>) that cannot contain a table.
 		// We would break the rendering of the link, so we unfortunately cannot convert the table.
@@ -152,7 +166,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 		return nil
 	}
 
-	cellNodes := dom.FindAllNodes(firstRow, func(node *html.Node) bool {
+	cellNodes := findOutsideCells(firstRow, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
 	})
@@ -167,7 +181,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	return alignments
 }
 func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
-	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
+	cellNodes := findOutsideCells(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
 	})
@@ -241,7 +255,7 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 }
 
 func collectCaption(ctx converter.Context, node *html.Node) []byte {
-	captionNodes := dom.FindAllNodes(node, func(node *html.Node) bool {
+	captionNodes := findOutsideCells(node, func(node *html.Node) bool {
 		return node.DataAtom == atom.Caption
 	})
 	if len(captionNodes) == 0 {
-- 
2.43.0


From f84238333c3feadc242933e70815673884f8ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 37/74] fix: place the cells of a table in the columns of the
 grid

A colspan or rowspan was applied at the index of the cell instead of at
its column, so that several spans in one table mixed up the cells and the
alignments of the columns.
---
 plugin/table/2_collect.go | 45 ++++++++++++++++++++++++++++-----------
 plugin/table/utils.go     | 23 +++++++++++---------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 5684da1..1cf0676 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -175,12 +175,15 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	for _, cellNode := range cellNodes {
 		align := dom.GetAttributeOr(cellNode, "align", "")
 
-		alignments = append(alignments, align)
+		// All the columns that the cell spans have the same alignment.
+		for range getColSpan(cellNode) {
+			alignments = append(alignments, align)
+		}
 	}
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, occupied map[[2]int]bool) ([][]byte, []modification) {
 	cellNodes := findOutsideCells(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -189,7 +192,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	colIndex := 0
+	for _, cellNode := range cellNodes {
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -206,25 +210,42 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 
 		// - - col / row span - - //
 		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
-		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
+		colSpan := getColSpan(cellNode)
 
-		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
+		// The cell is placed in the next column that is
+		// not already taken by a cell that spans into it.
+		for occupied[[2]int{rowIndex, colIndex}] {
+			colIndex++
+		}
 
-		modifications = append(modifications, mods...)
+		mods := calculateModifications(rowIndex, colIndex, rowSpan, colSpan, p.getContentForMergedCell(content))
+		for _, mod := range mods {
+			position := [2]int{mod.y, mod.x}
+			if occupied[position] {
+				continue
+			}
+			occupied[position] = true
+			modifications = append(modifications, mod)
+		}
+
+		colIndex++
 	}
 
 	return cellContents, modifications
 }
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
-	groupedModifications := make([][]modification, 0)
+	modifications := make([]modification, 0)
+
+	// The positions (y, x) in the grid that are taken by a cell that spans into it.
+	occupied := make(map[[2]int]bool)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	} else {
 		// There needs to be *header* row so that the table is recognized.
 		// So it is better to have an empty header row...
@@ -233,16 +254,16 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	}
 
 	// Sometimes a cell wants to *span* over multiple columns or/and rows.
 	// We collected these modifications and are now applying it,
 	// by shifting the cells around.
-	rowContents = applyGroupedModifications(rowContents, groupedModifications)
+	rowContents = applySortedModifications(rowContents, modifications)
 
 	if p.skipEmptyRows {
 		rowContents = removeEmptyRows(rowContents)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 49d5e55..16fdc1f 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"bytes"
+	"cmp"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -72,6 +73,10 @@ const (
 	maxSpannedCellsPerCell = 100
 )
 
+func getColSpan(cellNode *html.Node) int {
+	return min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
+}
+
 // hasExcessiveSpans checks if the "colspan" & "rowspan" attributes would add way more
 // cells than there are in the table. The attributes are just numbers in the input,
 // so the memory would otherwise not be limited by the size of the input.
@@ -84,7 +89,7 @@ func hasExcessiveSpans(node *html.Node) bool {
 	spannedCells := 0
 	for _, cellNode := range cellNodes {
 		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
-		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
+		colSpan := getColSpan(cellNode)
 
 		spannedCells += rowSpan*colSpan - 1
 	}
@@ -133,16 +138,14 @@ func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan i
 	return mods
 }
 
-func applyGroupedModifications(contents [][][]byte, groupedMods [][]modification) [][][]byte {
-	// By applying the modifications in reverse we correctly
-	// handle overlapping modifications.
-	slices.Reverse(groupedMods)
-
-	for _, mods := range groupedMods {
-		contents = applyModifications(contents, mods)
-	}
+func applySortedModifications(contents [][][]byte, mods []modification) [][][]byte {
+	// By inserting from left to right every modification
+	// ends up in exactly the column that it is meant for.
+	slices.SortStableFunc(mods, func(a, b modification) int {
+		return cmp.Or(cmp.Compare(a.y, b.y), cmp.Compare(a.x, b.x))
+	})
 
-	return contents
+	return applyModifications(contents, mods)
 }
 
 func applyModifications(contents [][][]byte, mods []modification) [][][]byte {
-- 
2.43.0


From ffde8fd7c3221c8f44f5772a113e7887ac094d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 38/74] fix: limit the rowspan of a cell to its row group

A cell of the thead with a rowspan pushed the cells of the tbody aside.
---
 plugin/table/2_collect.go |  8 ++++----
 plugin/table/utils.go     | 23 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 1cf0676..5245a1b 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -183,7 +183,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, occupied map[[2]int]bool) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, maxRows int, occupied map[[2]int]bool) ([][]byte, []modification) {
 	cellNodes := findOutsideCells(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -209,7 +209,7 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		rowSpan := min(getRowSpan(cellNode), maxRows)
 		colSpan := getColSpan(cellNode)
 
 		// The cell is placed in the next column that is
@@ -242,7 +242,7 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, occupied)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, maxRowsFor(headerRowNode, rowNodes), occupied)
 
 		rowContents = append(rowContents, cells)
 		modifications = append(modifications, mods...)
@@ -254,7 +254,7 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, occupied)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, maxRowsFor(rowNode, rowNodes), occupied)
 
 		rowContents = append(rowContents, cells)
 		modifications = append(modifications, mods...)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 16fdc1f..2fa094f 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -77,6 +77,27 @@ func getColSpan(cellNode *html.Node) int {
 	return min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 }
 
+func getRowSpan(cellNode *html.Node) int {
+	return min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+}
+
+// maxRowsFor returns how many rows a cell in that row can span.
+// A cell never reaches into the next row group (e.g. from the "thead" into the "tbody").
+func maxRowsFor(rowNode *html.Node, rowNodes []*html.Node) int {
+	if len(rowNodes) == 0 || rowNodes[len(rowNodes)-1].Parent == rowNode.Parent {
+		// The row is in the last group
+		return maxRowSpan
+	}
+
+	count := 1
+	for next := rowNode.NextSibling; next != nil; next = next.NextSibling {
+		if dom.NodeName(next) == "tr" {
+			count++
+		}
+	}
+	return count
+}
+
 // hasExcessiveSpans checks if the "colspan" & "rowspan" attributes would add way more
 // cells than there are in the table. The attributes are just numbers in the input,
 // so the memory would otherwise not be limited by the size of the input.
@@ -88,7 +109,7 @@ func hasExcessiveSpans(node *html.Node) bool {
 
 	spannedCells := 0
 	for _, cellNode := range cellNodes {
-		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		rowSpan := getRowSpan(cellNode)
 		colSpan := getColSpan(cellNode)
 
 		spannedCells += rowSpan*colSpan - 1
-- 
2.43.0


From 0499ddb33bc04bad0a8e1cad969dd3444cb9d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 39/74] fix: ignore empty text nodes when looking for the next
 list

---
 internal/domutils/list_end_comment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index e401736..d384631 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -50,7 +50,8 @@ func nextNameIsList(startNode *html.Node) bool {
 
 		// If there is any text between two lists
 		// they are automatically not connected anymore.
-		if node.Type == html.TextNode {
+		// (An empty one is a leftover of the white space that was collapsed)
+		if node.Type == html.TextNode && node.Data != "" {
 			return false
 		}
 
-- 
2.43.0


From 005801337eb9e964eff2fb3972c4d02d754a8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 40/74] fix: go through the children of a span backwards while
 looking backwards

---
 internal/domutils/add_space.go | 7 ++++++-
 internal/domutils/domutils.go  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..0c370b0 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -30,7 +30,12 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			// (Its end is closest to the end, so we go through the children backwards)
+			if node.LastChild != nil {
+				node = node.LastChild
+			} else {
+				node = dom.GetPrevNeighborNodeExcludingOwnChild(node)
+			}
 		} else if matchFn(node) {
 			return node
 		} else {
diff --git a/internal/domutils/domutils.go b/internal/domutils/domutils.go
index e0766c7..332e92e 100644
--- a/internal/domutils/domutils.go
+++ b/internal/domutils/domutils.go
@@ -33,7 +33,12 @@ func getPrevTextNode(startNode *html.Node) *html.Node {
 
 		if dom.NodeName(node) == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			// (Its end is closest to us, so we go through the children backwards)
+			if node.LastChild != nil {
+				node = node.LastChild
+			} else {
+				node = dom.GetPrevNeighborNodeExcludingOwnChild(node)
+			}
 			continue
 		}
 
-- 
2.43.0


From c50bfa7b85d38c030b2b22e57531663bfccfe061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 41/74] fix: treat carriage returns in code, titles and alt
 texts like line breaks

---
 internal/textutils/collapse_code.go | 1 +
 plugin/commonmark/render_code.go    | 4 ++++
 plugin/commonmark/render_image.go   | 7 +++++--
 plugin/commonmark/render_link.go    | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/textutils/collapse_code.go b/internal/textutils/collapse_code.go
index 47772e2..712e7d2 100644
--- a/internal/textutils/collapse_code.go
+++ b/internal/textutils/collapse_code.go
@@ -7,6 +7,7 @@ import (
 func CollapseInlineCodeContent(content []byte) []byte {
 	// TODO: what about other characters like the reset char? Maybe unicode.IsSpace?
 	content = bytes.ReplaceAll(content, []byte{'\n'}, []byte{' '})
+	content = bytes.ReplaceAll(content, []byte{'\r'}, []byte{' '})
 	content = bytes.ReplaceAll(content, []byte{'\t'}, []byte{' '})
 
 	content = bytes.TrimSpace(content)
diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index b96f0d1..7aa05bf 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -73,6 +73,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	code, infoString := getCodeWithoutTags(n)
 
+	// In markdown a carriage return also ends the line.
+	code = bytes.ReplaceAll(code, []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
 	if bytes.HasSuffix(code, []byte("\n")) {
 		code = code[:len(code)-1]
 	}
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 7f3b234..5a49d86 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -11,6 +11,9 @@ import (
 	"golang.org/x/net/html"
 )
 
+// In markdown a carriage return also ends the line.
+var newlineReplacer = strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ")
+
 var altEntityReplacer = strings.NewReplacer("<", "&lt;", ">", "&gt;")
 var altBracketReplacer = strings.NewReplacer(
 	string(marker.MarkerEscaping)+"[", `\[`,
@@ -44,10 +47,10 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	alt := dom.GetAttributeOr(n, "alt", "")
-	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = newlineReplacer.Replace(alt)
 
 	// The alt description is parsed as inline content.
 	alt = altEntityReplacer.Replace(alt)
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..41657ed 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -59,7 +59,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	}
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From 4cabdd6e778cd50f9afdc5f215dc92eeeffd72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:08 +0000
Subject: [PATCH 42/74] fix: keep encoded characters and IPv6 addresses in link
 destinations

---
 converter/url.go | 52 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/converter/url.go b/converter/url.go
index a147269..fad5480 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 var percentEncodingReplacer = newPercentEncodingReplacer(" []()<>\\")
@@ -21,18 +22,61 @@ func newPercentEncodingReplacer(chars string) *strings.Replacer {
 	return strings.NewReplacer(oldnew...)
 }
 
+// parseURL is like [url.Parse], but makes sure that the encoded characters in the path
+// are also kept if there are other characters in the path that still need to be encoded.
+// Otherwise, for example "a%2Fb c" would turn into "a/b%20c".
+func parseURL(rawURL string) (*url.URL, error) {
+	u, err := url.Parse(rawURL)
+	if err != nil {
+		return nil, err
+	}
+
+	if u.RawPath != "" {
+		var b strings.Builder
+		for i := 0; i < len(u.RawPath); i++ {
+			c := u.RawPath[i]
+			if c >= utf8.RuneSelf || c <= ' ' || strings.IndexByte("\"<>\\^`{|}", c) != -1 {
+				fmt.Fprintf(&b, "%%%02X", c)
+			} else {
+				b.WriteByte(c)
+			}
+		}
+		u.RawPath = b.String()
+	}
+
+	return u, nil
+}
+
+// encodeURL encodes the characters that would otherwise end the link destination,
+// except for the brackets around an IPv6 address.
+func encodeURL(u *url.URL) string {
+	raw := u.String()
+
+	if strings.HasPrefix(u.Host, "[") {
+		start := strings.IndexByte(raw, '[')
+		end := strings.IndexByte(raw, ']') + 1
+		return percentEncodingReplacer.Replace(raw[:start]) + raw[start:end] + percentEncodingReplacer.Replace(raw[end:])
+	}
+
+	return percentEncodingReplacer.Replace(raw)
+}
+
 func parseBaseDomain(rawDomain string) *url.URL {
 	if rawDomain == "" {
 		return nil
 	}
 
-	u1, err := url.Parse(rawDomain)
+	u1, err := parseURL(rawDomain)
+	if err == nil && u1.Host != "" && u1.Scheme == "" {
+		// The domain starts with "//"
+		u1.Scheme = "http"
+	}
 	if err == nil && u1.Host != "" {
 		// Yes, we got valid domain (probably with a http/https scheme)
 		return u1
 	}
 
-	u2, err := url.Parse("http://" + rawDomain)
+	u2, err := parseURL("http://" + rawDomain)
 	if err == nil && u2.Host != "" {
 		// Yes, we got a valid domain (by choosing a fallback scheme)
 		return u2
@@ -53,7 +97,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	rawURL = strings.ReplaceAll(rawURL, "\n", "%0A")
 	rawURL = strings.ReplaceAll(rawURL, "\t", "%09")
 
-	u, err := url.Parse(rawURL)
+	u, err := parseURL(rawURL)
 	if err != nil {
 		// We can't do anything with this url because it is invalid
 		return percentEncodingReplacer.Replace(rawURL)
@@ -79,7 +123,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 		u = base.ResolveReference(u)
 	}
 
-	return percentEncodingReplacer.Replace(u.String())
+	return encodeURL(u)
 }
 
 // - - - - //
-- 
2.43.0


From 51e6c297f9c3000b5d4c0140d0312dba473b6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 43/74] fix: ignore white space when looking for the next list

---
 internal/domutils/list_end_comment.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index d384631..80aca78 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -2,6 +2,7 @@ package domutils
 
 import (
 	"context"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -50,8 +51,8 @@ func nextNameIsList(startNode *html.Node) bool {
 
 		// If there is any text between two lists
 		// they are automatically not connected anymore.
-		// (An empty one is a leftover of the white space that was collapsed)
-		if node.Type == html.TextNode && node.Data != "" {
+		// (White space alone, for example between the cells of a table, is not a text)
+		if node.Type == html.TextNode && strings.Trim(node.Data, " \t\n\f\r") != "" {
 			return false
 		}
 
-- 
2.43.0


From f0ab3ef92b87589e9e2cc31412f228b31fbb25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 44/74] fix: collapse white space after a text that follows a
 void element

---
 collapse/collapse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collapse/collapse.go b/collapse/collapse.go
index 6a2c015..6de652a 100644
--- a/collapse/collapse.go
+++ b/collapse/collapse.go
@@ -134,7 +134,9 @@ func Collapse(element *html.Node, domFuncs *DomFuncs) {
 
 			node.Data = text
 
+			// The protection only applies to the first text after e.g. a void element.
 			prevText = node
+			keepLeadingWs = false
 		} else if node.Type == html.ElementNode { // Node.ELEMENT_NODE
 			if domFuncs.IsBlockNode(node) || dom.NodeName(node) == "br" {
 				if prevText != nil {
-- 
2.43.0


From b4ec4c80bd675539e8d6f2af7dd7e0b1caf78e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 45/74] fix: set HTML wrappers of block elements apart

---
 plugin/base/renderers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/base/renderers.go b/plugin/base/renderers.go
index 74b77ce..3b276a1 100644
--- a/plugin/base/renderers.go
+++ b/plugin/base/renderers.go
@@ -31,6 +31,11 @@ func RenderAsHTML(ctx converter.Context, w converter.Writer, node *html.Node) co
 // and render the children as markdown.
 func RenderAsHTMLWrapper(ctx converter.Context, w converter.Writer, node *html.Node) converter.RenderStatus {
 	name := dom.NodeName(node)
+	tagType, _ := ctx.GetTagType(name)
+
+	if tagType == converter.TagTypeBlock {
+		w.WriteString("\n\n")
+	}
 
 	w.WriteString("<")
 	w.WriteString(name)
@@ -42,6 +47,10 @@ func RenderAsHTMLWrapper(ctx converter.Context, w converter.Writer, node *html.N
 	w.WriteString("\n\n</")
 	w.WriteString(name)
 	w.WriteString(">")
+
+	if tagType == converter.TagTypeBlock {
+		w.WriteString("\n\n")
+	}
 	return converter.RenderSuccess
 }
 
-- 
2.43.0


From d9ef61143abf0b176b34bccab75a34f28b8beecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 46/74] fix: convert a file only once when the glob reports it
 several times

---
 cli/html2markdown/cmd/io_input.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/html2markdown/cmd/io_input.go b/cli/html2markdown/cmd/io_input.go
index 7517c17..e065ecf 100644
--- a/cli/html2markdown/cmd/io_input.go
+++ b/cli/html2markdown/cmd/io_input.go
@@ -54,7 +54,14 @@ func (cli *CLI) listInputs() ([]*input, error) {
 		}
 
 		var inputs []*input
+		seen := make(map[string]bool, len(matches))
 		for _, match := range matches {
+			// A pattern like "**/**/*.html" reports the same file several times.
+			if seen[match] {
+				continue
+			}
+			seen[match] = true
+
 			inputs = append(inputs, &input{
 				inputFullFilepath: match,
 				data:              nil,
-- 
2.43.0


From 7b45d5f73aaac32cc3cc99e288a982f9bc6d20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 47/74] fix: two inputs never share the name of an output file

---
 cli/html2markdown/cmd/io_output.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index a10714e..2968227 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	taken := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		input.outputFullFilepath = basename + ".md"
+
+		if taken[input.outputFullFilepath] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -107,9 +106,14 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 
 			// -> The filename for duplicates
 			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+
+			// Another file can already be named like that, so we use more of the hash.
+			for n := 11; taken[input.outputFullFilepath] && n <= len(hash); n++ {
+				input.outputFullFilepath = basename + "." + hash[:n] + ".md"
+			}
 		}
 
-		allBasenames[basename]++
+		taken[input.outputFullFilepath] = true
 	}
 
 	return nil
-- 
2.43.0


From fc2ec48d791d4b4f7d15f6fa7ff2688a6e5e64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 48/74] fix: the output of one input never replaces another
 input

---
 cli/html2markdown/cmd/exec.go      |  7 +++++++
 cli/html2markdown/cmd/io_output.go | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..4329c78 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -169,6 +169,13 @@ func (cli *CLI) run() ([]error, error) {
 		return nil, err
 	}
 
+	if outputType == outputTypeDirectory {
+		err = ensureInputsAreKept(cli.config.outputFilepath, inputs)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	for _, input := range inputs {
 		data, err := cli.readInput(input)
 		if err != nil {
diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 2968227..28d5b72 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -144,6 +144,32 @@ func ensureOutputDirectories(outputType outputType, outputFilepath string) error
 	}
 }
 
+// ensureInputsAreKept reports an error if the output of one input would be
+// written to the file of another input, which would then be lost.
+func ensureInputsAreKept(outputFilepath string, inputs []*input) error {
+	infos := make([]os.FileInfo, len(inputs))
+	for i, input := range inputs {
+		// If there is a problem with the file it is reported once it gets read.
+		infos[i], _ = os.Stat(input.inputFullFilepath)
+	}
+
+	for i, input := range inputs {
+		path := filepath.Join(outputFilepath, input.outputFullFilepath)
+		outInfo, err := os.Stat(path)
+		if err != nil {
+			continue
+		}
+
+		for j, info := range infos {
+			if i != j && info != nil && os.SameFile(outInfo, info) {
+				return fmt.Errorf("the output for %q would replace the input file %q", input.inputFullFilepath, inputs[j].inputFullFilepath)
+			}
+		}
+	}
+
+	return nil
+}
+
 func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []byte) error {
 	switch outputType {
 	case outputTypeDirectory:
-- 
2.43.0


From 98fb512307f0181690804b0210a576e838e84a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 49/74] fix: report when the version or help could not be
 written

---
 cli/html2markdown/cmd/cmd_help.go    |  8 ++++++--
 cli/html2markdown/cmd/cmd_version.go | 19 +++++++++++++------
 cli/html2markdown/cmd/exec.go        | 10 ++++------
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_help.go b/cli/html2markdown/cmd/cmd_help.go
index ffe4b2a..58619fa 100644
--- a/cli/html2markdown/cmd/cmd_help.go
+++ b/cli/html2markdown/cmd/cmd_help.go
@@ -123,6 +123,10 @@ func (cli *CLI) initUsageText() error {
 	return nil
 }
 
-func (cli CLI) printUsage() {
-	fmt.Fprint(cli.Stdout, cli.usageText.String())
+func (cli CLI) printUsage() error {
+	_, err := fmt.Fprint(cli.Stdout, cli.usageText.String())
+	if err != nil {
+		return fmt.Errorf("error while writing to stdout: %w", err)
+	}
+	return nil
 }
diff --git a/cli/html2markdown/cmd/cmd_version.go b/cli/html2markdown/cmd/cmd_version.go
index bd292c7..1009c28 100644
--- a/cli/html2markdown/cmd/cmd_version.go
+++ b/cli/html2markdown/cmd/cmd_version.go
@@ -2,10 +2,17 @@ package cmd
 
 import "fmt"
 
-func (cli CLI) printVersion() {
-	fmt.Fprintf(cli.Stdout, "%s\n\n", projectBinary)
-
-	fmt.Fprintf(cli.Stdout, "GitVersion:  %s\n", cli.Release.Version)
-	fmt.Fprintf(cli.Stdout, "GitCommit:   %s\n", cli.Release.Commit)
-	fmt.Fprintf(cli.Stdout, "BuildDate:   %s\n", cli.Release.Date)
+func (cli CLI) printVersion() error {
+	_, err := fmt.Fprintf(
+		cli.Stdout,
+		"%s\n\nGitVersion:  %s\nGitCommit:   %s\nBuildDate:   %s\n",
+		projectBinary,
+		cli.Release.Version,
+		cli.Release.Commit,
+		cli.Release.Date,
+	)
+	if err != nil {
+		return fmt.Errorf("error while writing to stdout: %w", err)
+	}
+	return nil
 }
diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 4329c78..6f47212 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -112,11 +112,10 @@ func (cli *CLI) Execute() {
 	}
 
 	if err == flag.ErrHelp {
-		cli.printUsage()
+		err = cli.printUsage()
+	}
 
-		OsExiter(0)
-		return
-	} else if err != nil {
+	if err != nil {
 		cli.PrintErr(err)
 
 		OsExiter(1) // General Error
@@ -143,8 +142,7 @@ func (cli *CLI) run() ([]error, error) {
 	}
 
 	if cli.config.version {
-		cli.printVersion()
-		return nil, nil
+		return nil, cli.printVersion()
 	}
 
 	// - - - - - - - - - - - - - - - //
-- 
2.43.0


From 6412d3a65df32b8e43cf370ddce1892a206abadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 50/74] fix: report directories that cannot be read while
 looking for input files

---
 cli/html2markdown/cmd/io_input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_input.go b/cli/html2markdown/cmd/io_input.go
index e065ecf..a923921 100644
--- a/cli/html2markdown/cmd/io_input.go
+++ b/cli/html2markdown/cmd/io_input.go
@@ -31,7 +31,7 @@ func (cli *CLI) listInputs() ([]*input, error) {
 	// This improves interoperability with other tools like `xargs`.
 	// https://github.com/JohannesKaufmann/html-to-markdown/issues/170
 	if cli.config.inputFilepath != "" {
-		matches, err := doublestar.FilepathGlob(cli.config.inputFilepath, doublestar.WithFilesOnly(), doublestar.WithNoFollow())
+		matches, err := doublestar.FilepathGlob(cli.config.inputFilepath, doublestar.WithFilesOnly(), doublestar.WithNoFollow(), doublestar.WithFailOnIOErrors())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e64b3353e3b4f56cb3e3da403b0edba84ef9a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:32 +0000
Subject: [PATCH 51/74] fix: emphasis around links that contain a line break

Putting the delimiters on every line tore the link apart.
---
 internal/domutils/line_break.go         | 26 +++++++++++++++++++++++++
 internal/textutils/delimiter.go         | 19 ++++++++++++++++++
 plugin/commonmark/render_bold_italic.go | 10 ++++++++++
 plugin/strikethrough/strikethrough.go   |  9 +++++++++
 4 files changed, 64 insertions(+)
 create mode 100644 internal/domutils/line_break.go

diff --git a/internal/domutils/line_break.go b/internal/domutils/line_break.go
new file mode 100644
index 0000000..4486029
--- /dev/null
+++ b/internal/domutils/line_break.go
@@ -0,0 +1,26 @@
+package domutils
+
+import (
+	"github.com/JohannesKaufmann/dom"
+	"golang.org/x/net/html"
+)
+
+// HasLinkWithLineBreak reports whether there is a link
+// inside of the node that extends over a <br>.
+func HasLinkWithLineBreak(node *html.Node) bool {
+	for child := node.FirstChild; child != nil; child = child.NextSibling {
+		if dom.NodeName(child) == "a" && dom.ContainsNode(child, nodeIsLineBreak) {
+			return true
+		}
+
+		if HasLinkWithLineBreak(child) {
+			return true
+		}
+	}
+
+	return false
+}
+
+func nodeIsLineBreak(node *html.Node) bool {
+	return dom.NodeName(node) == "br"
+}
diff --git a/internal/textutils/delimiter.go b/internal/textutils/delimiter.go
index 8f24372..cdf08de 100644
--- a/internal/textutils/delimiter.go
+++ b/internal/textutils/delimiter.go
@@ -4,6 +4,25 @@ import (
 	"bytes"
 )
 
+// DelimiterForParagraph puts the delimiter around the whole string, even if the
+// text is divided on multiple lines. They are recognized as long as there is no blank line.
+// If that is not possible ok is false.
+func DelimiterForParagraph(text []byte, delimiter []byte) (result []byte, ok bool) {
+	leftExtra, trimmed, rightExtra := SurroundingSpaces(text)
+	if trimmed == nil || bytes.Contains(trimmed, []byte("\n\n")) {
+		return nil, false
+	}
+
+	var buf bytes.Buffer
+	buf.Write(leftExtra)
+	buf.Write(delimiter)
+	buf.Write(trimmed)
+	buf.Write(delimiter)
+	buf.Write(rightExtra)
+
+	return buf.Bytes(), true
+}
+
 // DelimiterForEveryLine puts the delimiter not just at the start and end of the string
 // but if the text is divided on multiple lines, puts the delimiters on every line with content.
 //
diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 1fcdd13..6958581 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"golang.org/x/net/html"
 )
@@ -35,6 +36,15 @@ func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer,
 	ctx.RenderChildNodes(ctx, &buf, n)
 	content := buf.Bytes()
 
+	// A link that extends over the line break can't be
+	// divided, so we only put the delimiters around the whole content.
+	if domutils.HasLinkWithLineBreak(n) {
+		if result, ok := textutils.DelimiterForParagraph(content, delimiter); ok {
+			w.Write(result)
+			return converter.RenderSuccess
+		}
+	}
+
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
 	// OR on _every_ line we put start & end delimiters.
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index eec6750..ef23b65 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -110,6 +110,15 @@ func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w conver
 
 	content := buf.Bytes()
 
+	// A link that extends over the line break can't be
+	// divided, so we only put the delimiters around the whole content.
+	if domutils.HasLinkWithLineBreak(n) {
+		if result, ok := textutils.DelimiterForParagraph(content, []byte(s.delimiter)); ok {
+			w.Write(result)
+			return converter.RenderSuccess
+		}
+	}
+
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
 	// OR on _every_ line we put start & end delimiters.
-- 
2.43.0


From ba9925862dd3c5f3c738b8e196b60a6f7f3f068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:17 +0000
Subject: [PATCH 52/74] fix: convert only the node that was passed to
 ConvertNode

The nodes around it were joined with it or changed, and what had to be removed or replaced stayed if it was the node itself.
---
 converter/convert.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 09f05e6..0357b72 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -50,6 +50,24 @@ func (conv *Converter) getError() error {
 var errNoRenderHandlers = errors.New(`no render handlers are registered. did you forget to register the "commonmark" and "base" plugins?`)
 var errBasePluginMissing = errors.New(`you registered the "commonmark" plugin but the "base" plugin is also required`)
 
+// isolateNode makes the node the only one of a document. The nodes that are around the node (in a bigger tree)
+// are then neither converted nor changed. The returned function puts the node back in its place.
+func isolateNode(node *html.Node) (doc *html.Node, restore func()) {
+	if node == nil || (node.Type != html.ElementNode && node.Type != html.TextNode) {
+		return node, func() {}
+	}
+	parent, prev, next := node.Parent, node.PrevSibling, node.NextSibling
+
+	node.Parent, node.PrevSibling, node.NextSibling = nil, nil, nil
+
+	doc = &html.Node{Type: html.DocumentNode}
+	doc.AppendChild(node)
+
+	return doc, func() {
+		node.Parent, node.PrevSibling, node.NextSibling = parent, prev, next
+	}
+}
+
 // ConvertNode converts a `*html.Node` to a markdown byte slice.
 //
 // If you have already parsed an HTML page using the `html.Parse()` function
@@ -100,6 +118,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 
 	// - - - - - - - - - - - - - - - - - - - //
 
+	// Only this node should be converted, even if it is part of a bigger tree.
+	doc, restore := isolateNode(doc)
+	defer restore()
+
 	// Pre-Render
 	for _, handler := range conv.getPreRenderHandlers() {
 		handler.Value(customCtx, doc)
-- 
2.43.0


From 9440284a3bf7a52ee5634133b11ec7670c73ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 53/74] fix: do not render tables that contain code blocks as
 Markdown tables

---
 plugin/table/2_collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 5245a1b..b09ef97 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -33,7 +33,7 @@ func hasProblematicChildNode(node *html.Node) bool {
 			// This will be caught with the newline check anyway.
 			// But we can safe some effort by aborting early...
 			return true
-		case "hr", "ul", "ol", "blockquote":
+		case "hr", "ul", "ol", "blockquote", "pre":
 			return true
 		}
 
-- 
2.43.0


From 68ca4893851f29f5c0f2f4e831eca071993d2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 54/74] fix: split the classes of a code element at any white
 space

---
 plugin/commonmark/render_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 7aa05bf..0dd1bff 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -103,7 +103,8 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	// The classes can be separated by any white space (e.g. also by a newline).
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From f153e9eeae51d0082fa00642dcc959719671573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:22 +0000
Subject: [PATCH 55/74] fix: keep the code block intact if its language
 contains a backtick

---
 plugin/commonmark/render_code.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 0dd1bff..eac4911 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -12,6 +12,10 @@ import (
 	"golang.org/x/net/html"
 )
 
+// A backtick is not allowed in the info string (after a fence of backticks)
+// and a backslash would escape the next character.
+var infoStringReplacer = strings.NewReplacer("`", "&#96;", `\`, `\\`)
+
 func spaceForNewline(r rune) rune {
 	if r == '\n' || r == '\r' || r == '\t' {
 		return ' '
@@ -90,7 +94,7 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 
 	w.WriteString("\n\n")
 	w.WriteString(fence)
-	w.WriteString(infoString)
+	w.WriteString(infoStringReplacer.Replace(infoString))
 	w.WriteRune('\n')
 	w.Write(code)
 	w.WriteRune('\n')
-- 
2.43.0


From d91c21591055eac19858985a280a00615f6bad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:13 +0000
Subject: [PATCH 56/74] fix: parse start, colspan and rowspan like browsers do

---
 internal/domutils/int_attribute.go | 26 ++++++++++++++++++++++++++
 plugin/commonmark/render_list.go   |  6 +++---
 plugin/table/utils.go              | 13 +++----------
 3 files changed, 32 insertions(+), 13 deletions(-)
 create mode 100644 internal/domutils/int_attribute.go

diff --git a/internal/domutils/int_attribute.go b/internal/domutils/int_attribute.go
new file mode 100644
index 0000000..02e0709
--- /dev/null
+++ b/internal/domutils/int_attribute.go
@@ -0,0 +1,26 @@
+package domutils
+
+import (
+	"strconv"
+	"strings"
+
+	"github.com/JohannesKaufmann/dom"
+	"golang.org/x/net/html"
+)
+
+// GetIntAttribute parses the number like browsers do:
+// White space before the number and everything after the number is ignored.
+func GetIntAttribute(node *html.Node, key string) (int, bool) {
+	val := strings.TrimLeft(dom.GetAttributeOr(node, key, ""), " \t\n\f\r")
+
+	end := 0
+	if strings.HasPrefix(val, "-") || strings.HasPrefix(val, "+") {
+		end++
+	}
+	for end < len(val) && val[end] >= '0' && val[end] <= '9' {
+		end++
+	}
+
+	num, err := strconv.Atoi(val[:end])
+	return num, err == nil
+}
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index e69d528..e916ce8 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
@@ -18,9 +19,8 @@ import (
 const maxListNumber = 999_999_999
 
 func getStartAt(node *html.Node) int {
-	startVal := dom.GetAttributeOr(node, "start", "1")
-	startAt, err := strconv.Atoi(startVal)
-	if err != nil || startAt < 0 || startAt > maxListNumber {
+	startAt, ok := domutils.GetIntAttribute(node, "start")
+	if !ok || startAt < 0 || startAt > maxListNumber {
 		startAt = 1
 	}
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 2fa094f..d62f768 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -4,10 +4,10 @@ import (
 	"bytes"
 	"cmp"
 	"slices"
-	"strconv"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
@@ -48,15 +48,8 @@ func fillUpRows(rows [][][]byte, maxColumnCount int) [][][]byte {
 }
 
 func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
-	val, ok := dom.GetAttribute(node, key)
-	if !ok {
-		return fallback
-	}
-	num, err := strconv.Atoi(val)
-	if err != nil {
-		return fallback
-	}
-	if num < 1 {
+	num, ok := domutils.GetIntAttribute(node, key)
+	if !ok || num < 1 {
 		return fallback
 	}
 
-- 
2.43.0


From 4a3abca4bd7889018709b3e6019217644338cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:14 +0000
Subject: [PATCH 57/74] fix: ignore the letter case of the alignment

---
 plugin/table/2_collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index b09ef97..28b25cc 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -173,7 +173,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	var alignments []string
 	for _, cellNode := range cellNodes {
-		align := dom.GetAttributeOr(cellNode, "align", "")
+		align := strings.ToLower(dom.GetAttributeOr(cellNode, "align", ""))
 
 		// All the columns that the cell spans have the same alignment.
 		for range getColSpan(cellNode) {
-- 
2.43.0


From 8cb7a1f68be2752ca063feb6b3541253150bbc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:15 +0000
Subject: [PATCH 58/74] fix: do not extend the fence with the language of the
 code block

---
 plugin/commonmark/render_code.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index eac4911..7fe486b 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -12,9 +12,9 @@ import (
 	"golang.org/x/net/html"
 )
 
-// A backtick is not allowed in the info string (after a fence of backticks)
-// and a backslash would escape the next character.
-var infoStringReplacer = strings.NewReplacer("`", "&#96;", `\`, `\\`)
+// A backtick is not allowed in the info string (after a fence of backticks), a tilde
+// could extend the fence and a backslash would escape the next character.
+var infoStringReplacer = strings.NewReplacer("`", "&#96;", "~", "&#126;", `\`, `\\`)
 
 func spaceForNewline(r rune) rune {
 	if r == '\n' || r == '\r' || r == '\t' {
-- 
2.43.0


From 137f3f70608365942bca85212d08fa4b302b04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:47 +0000
Subject: [PATCH 59/74] fix: keep the tree around comments and doctypes that
 are passed to ConvertNode

---
 converter/convert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/convert.go b/converter/convert.go
index 0357b72..48d7cc0 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -53,7 +53,7 @@ var errBasePluginMissing = errors.New(`you registered the "commonmark" plugin bu
 // isolateNode makes the node the only one of a document. The nodes that are around the node (in a bigger tree)
 // are then neither converted nor changed. The returned function puts the node back in its place.
 func isolateNode(node *html.Node) (doc *html.Node, restore func()) {
-	if node == nil || (node.Type != html.ElementNode && node.Type != html.TextNode) {
+	if node == nil || node.Type == html.DocumentNode || node.Type == html.ErrorNode {
 		return node, func() {}
 	}
 	parent, prev, next := node.Parent, node.PrevSibling, node.NextSibling
-- 
2.43.0


From 8b684ab0cc6570c3b6355aeaf1c345018f2a2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:50 +0000
Subject: [PATCH 60/74] fix: limit the search for a closing bracket while
 unescaping

---
 internal/escape/elem_image.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index e1d9b5d..db7d4f8 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -21,8 +21,17 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 	return -1
 }
 
+// maxLookAhead limits how far we search for the closing bracket. Otherwise the time
+// for a long line with many opening brackets would grow quadratically.
+const maxLookAhead = 1000
+
 func isImageOrLinkStartBracket(chars []byte, index int) int {
 	for i := index + 1; i < len(chars); i++ {
+		if i-index > maxLookAhead {
+			// There might be a closing bracket, so escape it to be on the safe side.
+			return 1
+		}
+
 		if chars[i] == '\n' {
 			return -1
 		}
-- 
2.43.0


From a22b0374f06b091e96a1785aa553d8abbfce6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 61/74] fix: keep the backslash in front of a pipe inside a
 table cell

---
 plugin/table/2_collect.go |  6 ++----
 plugin/table/utils.go     | 13 ++++---------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 28b25cc..1dd16c8 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
-	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 	"golang.org/x/net/html/atom"
 )
@@ -201,10 +200,9 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
-		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
-		content = ctx.UnEscapeContent(content)
-		// Not every "|" comes from a text (e.g. from inline code or the alt of an image).
+		// Note: Not every "|" comes from a text (e.g. from inline code or the alt of an image).
 		content = escapePipes(content)
+		content = ctx.UnEscapeContent(content)
 
 		cellContents = append(cellContents, content)
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index d62f768..c002641 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -235,16 +235,11 @@ func removeFirstRowIfEmpty(rows [][][]byte) [][][]byte {
 	return rows
 }
 
-// escapePipes places a backslash before every "|" that is not already escaped.
+// escapePipes places a backslash before every "|". The table takes away exactly one backslash,
+// so the content (e.g. inline code) can also have backslashes of its own in front of the "|".
 func escapePipes(content []byte) []byte {
-	escaped := make([]byte, 0, len(content))
-	for i, b := range content {
-		if b == '|' && (i == 0 || content[i-1] != '\\') {
-			escaped = append(escaped, '\\')
-		}
-		escaped = append(escaped, b)
-	}
-	return escaped
+	content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte("|"))
+	return bytes.ReplaceAll(content, []byte("|"), []byte(`\|`))
 }
 
 // isDelimiterRow checks if the characters look like the delimiter row of a table,
-- 
2.43.0


From 54013b228dd17f2217abc5628308967bb83d74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:38 +0000
Subject: [PATCH 62/74] fix: do not let a backslash at the end of a cell escape
 the pipe

---
 plugin/table/3_render.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/table/3_render.go b/plugin/table/3_render.go
index 2fdbb25..a97ece0 100644
--- a/plugin/table/3_render.go
+++ b/plugin/table/3_render.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"bytes"
 	"strings"
 	"unicode/utf8"
 
@@ -110,6 +111,9 @@ func (s *tablePlugin) writeRow(w converter.Writer, counts []int, cells [][]byte)
 
 		if s.cellPaddingBehavior == CellPaddingBehaviorAligned || s.cellPaddingBehavior == CellPaddingBehaviorMinimal {
 			w.WriteString(" ")
+		} else if bytes.HasSuffix(cell, []byte(`\`)) {
+			// Otherwise the backslash would escape the pipe
+			w.WriteString(" ")
 		}
 
 		w.WriteString("|")
-- 
2.43.0


From 8ff283816cee039ad3c1c2692862b11294f428ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:48 +0000
Subject: [PATCH 63/74] fix: keep two lists apart when an empty item outside of
 any list is between them

---
 internal/domutils/list_end_comment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index 80aca78..c4eed2d 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -42,7 +42,8 @@ func nextNameIsList(startNode *html.Node) bool {
 		if name == "ul" || name == "ol" {
 			return true
 		}
-		if name == "li" {
+		if name == "li" && node.Parent != nil && nameIsList(node.Parent) {
+			// The next item of an outer list (and not an item outside of any list)
 			return false
 		}
 		if name == "#comment" && node.Data == ListEndCommentData {
-- 
2.43.0


From d688d9fd91eb0cfeda4fcfc039c76cc3586f6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:06 +0000
Subject: [PATCH 64/74] fix: an image without a source does not hide the
 thematic break behind it

---
 plugin/commonmark/render_list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index e916ce8..dc8177b 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -73,7 +73,11 @@ func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int
 func startsWithDivider(node *html.Node) bool {
 	first := dom.FindFirstNode(node, func(n *html.Node) bool {
 		name := dom.NodeName(n)
-		return name == "hr" || name == "img" || (n.Type == html.TextNode && strings.TrimSpace(n.Data) != "")
+		if name == "img" {
+			// Without a source nothing is rendered for an image
+			return strings.TrimSpace(dom.GetAttributeOr(n, "src", "")) != ""
+		}
+		return name == "hr" || (n.Type == html.TextNode && strings.TrimSpace(n.Data) != "")
 	})
 
 	return first != nil && dom.NodeName(first) == "hr"
-- 
2.43.0


From de8e006798fcc9b21c32dbd94a2773bdbdda9b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:03 +0000
Subject: [PATCH 65/74] fix: also replace the reserved characters in the names
 of elements and attributes

---
 plugin/base/base.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugin/base/base.go b/plugin/base/base.go
index cd4e1dd..a924994 100644
--- a/plugin/base/base.go
+++ b/plugin/base/base.go
@@ -71,10 +71,10 @@ var reservedCharReplacer = strings.NewReplacer(
 func (b *base) preRenderReplaceReserved(ctx converter.Context, doc *html.Node) {
 	var finder func(node *html.Node)
 	finder = func(node *html.Node) {
-		if node.Type == html.TextNode {
-			node.Data = reservedCharReplacer.Replace(node.Data)
-		}
+		// Besides the texts this is also the name of an element (which can be rendered as HTML).
+		node.Data = reservedCharReplacer.Replace(node.Data)
 		for i := range node.Attr {
+			node.Attr[i].Key = reservedCharReplacer.Replace(node.Attr[i].Key)
 			node.Attr[i].Val = reservedCharReplacer.Replace(node.Attr[i].Val)
 		}
 
-- 
2.43.0


From fec51a6488c82bfef72faea71593a1c18b097d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:51 +0000
Subject: [PATCH 66/74] fix: bold text inside of a heading that becomes bold is
 not bold a second time

---
 internal/domutils/alternatives.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index fe84d81..2c7db4b 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -38,8 +38,25 @@ func getMarkdownStructure(name string) string {
 	}
 }
 
+func isBold(node *html.Node) bool {
+	name := dom.NodeName(node)
+	return name == "strong" || name == "b"
+}
+
 func headingAlternative(ctx context.Context, node *html.Node) {
+	// The delimiters of bold text inside of other bold text would not be recognized.
+	for _, n := range dom.AllNodes(node) {
+		if isBold(n) {
+			dom.UnwrapNode(n)
+		}
+	}
+
 	node.Data = "strong"
+	for p := node.Parent; p != nil; p = p.Parent {
+		if isBold(p) {
+			node.Data = "span"
+		}
+	}
 
 	newChild := &html.Node{
 		Type: html.ElementNode,
-- 
2.43.0


From a748ae0e320a380f3417474eadb1f6c9c94501c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:28 +0000
Subject: [PATCH 67/74] fix: a heading inside of inline content starts on its
 own line

---
 internal/domutils/alternatives.go | 42 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 2c7db4b..8944d1c 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -58,19 +58,49 @@ func headingAlternative(ctx context.Context, node *html.Node) {
 		}
 	}
 
+	if isAfterInlineContent(node) && hasVisibleContent(node) {
+		newBefore := &html.Node{
+			Type: html.ElementNode,
+			Data: "br",
+		}
+		node.Parent.InsertBefore(newBefore, node)
+	}
+
 	newChild := &html.Node{
 		Type: html.ElementNode,
 		Data: "br",
 	}
 	node.Parent.InsertBefore(newChild, node.NextSibling)
 }
-func hasVisibleContent(node *html.Node) bool {
-	return dom.FindFirstNode(node, func(n *html.Node) bool {
-		if dom.NodeName(n) == "img" {
-			return strings.TrimSpace(dom.GetAttributeOr(n, "src", "")) != ""
+
+// isAfterInlineContent tells whether the node would continue the line of the content before it.
+func isAfterInlineContent(node *html.Node) bool {
+	for prev := node.PrevSibling; prev != nil; prev = prev.PrevSibling {
+		switch name := dom.NodeName(prev); name {
+		case "hr":
+			// It is going to be removed.
+			continue
+		case "pre", "blockquote":
+			// The alternatives for these are inline.
+		default:
+			if name == "br" || dom.NameIsBlockNode(name) {
+				return false
+			}
 		}
-		return n.Type == html.TextNode && strings.TrimSpace(n.Data) != ""
-	}) != nil
+		if isVisible(prev) || hasVisibleContent(prev) {
+			return true
+		}
+	}
+	return false
+}
+func isVisible(n *html.Node) bool {
+	if dom.NodeName(n) == "img" {
+		return strings.TrimSpace(dom.GetAttributeOr(n, "src", "")) != ""
+	}
+	return n.Type == html.TextNode && strings.TrimSpace(n.Data) != ""
+}
+func hasVisibleContent(node *html.Node) bool {
+	return dom.FindFirstNode(node, isVisible) != nil
 }
 func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	if !hasVisibleContent(node) {
-- 
2.43.0


From bb019dbf3d48dd2f43580b71959615e2f42f6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:07 +0000
Subject: [PATCH 68/74] fix: a thematic break inside of inline content still
 separates the content around it

---
 internal/domutils/alternatives.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 8944d1c..b1d0da5 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -132,6 +132,12 @@ func listAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "div"
 }
 func hrAlternative(ctx context.Context, node *html.Node) {
+	next := node.NextSibling
+	if next != nil && dom.NodeName(next) != "br" && isAfterInlineContent(node) {
+		// The content before and after should still be separated.
+		node.Data = "br"
+		return
+	}
 	dom.RemoveNode(node)
 }
 
-- 
2.43.0


From b9bb95485d89db5f4b9a0712bfff52bf1a4eed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:12 +0000
Subject: [PATCH 69/74] fix: code blocks inside of inline content do not run
 into other code

---
 internal/domutils/alternatives.go | 41 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index b1d0da5..d745d0a 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -75,19 +75,19 @@ func headingAlternative(ctx context.Context, node *html.Node) {
 
 // isAfterInlineContent tells whether the node would continue the line of the content before it.
 func isAfterInlineContent(node *html.Node) bool {
-	for prev := node.PrevSibling; prev != nil; prev = prev.PrevSibling {
-		switch name := dom.NodeName(prev); name {
-		case "hr":
-			// It is going to be removed.
-			continue
-		case "pre", "blockquote":
+	return isBesideInlineContent(node, func(n *html.Node) *html.Node { return n.PrevSibling })
+}
+func isBesideInlineContent(node *html.Node, nextFn func(n *html.Node) *html.Node) bool {
+	for n := nextFn(node); n != nil; n = nextFn(n) {
+		name := dom.NodeName(n)
+		if name == "pre" || name == "blockquote" {
 			// The alternatives for these are inline.
-		default:
-			if name == "br" || dom.NameIsBlockNode(name) {
-				return false
-			}
+			return hasVisibleContent(n)
 		}
-		if isVisible(prev) || hasVisibleContent(prev) {
+		if name == "br" || dom.NameIsBlockNode(name) {
+			return false
+		}
+		if isVisible(n) || hasVisibleContent(n) {
 			return true
 		}
 	}
@@ -118,7 +118,26 @@ func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	node.Parent.InsertBefore(newAfter, node.NextSibling)
 }
 func preAlternative(ctx context.Context, node *html.Node) {
+	if !hasVisibleContent(node) {
+		// There is no code. But what is before and after should still be separated.
+		node.Data = "div"
+		return
+	}
 	node.Data = "code"
+
+	// Two code spans would run together if there is nothing between them.
+	if isBesideInlineContent(node, func(n *html.Node) *html.Node { return n.NextSibling }) {
+		node.Parent.InsertBefore(&html.Node{
+			Type: html.ElementNode,
+			Data: "br",
+		}, node.NextSibling)
+	}
+	if isAfterInlineContent(node) {
+		node.Parent.InsertBefore(&html.Node{
+			Type: html.ElementNode,
+			Data: "br",
+		}, node)
+	}
 }
 func listAlternative(ctx context.Context, node *html.Node) {
 	for p := node.Parent; p != nil; p = p.Parent {
-- 
2.43.0


From 1d9529e6dcad913e3f25f4b9cbffaff3f6240a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:58 +0000
Subject: [PATCH 70/74] fix: an empty quote inside of inline content still
 separates the content around it

---
 internal/domutils/alternatives.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index d745d0a..d0aba8b 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -104,8 +104,8 @@ func hasVisibleContent(node *html.Node) bool {
 }
 func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	if !hasVisibleContent(node) {
-		// There is nothing that could be quoted.
-		node.Data = "span"
+		// There is nothing that could be quoted. But what is before and after should still be separated.
+		node.Data = "div"
 		return
 	}
 
-- 
2.43.0


From 899070236a511a7e17439934dd12d05536af0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:15 +0000
Subject: [PATCH 71/74] fix: emphasis of multiple paragraphs around a link with
 a line break

---
 internal/textutils/delimiter.go         | 32 ++++++++++++++-----------
 plugin/commonmark/render_bold_italic.go |  8 +++----
 plugin/strikethrough/strikethrough.go   |  8 +++----
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/internal/textutils/delimiter.go b/internal/textutils/delimiter.go
index cdf08de..49c5625 100644
--- a/internal/textutils/delimiter.go
+++ b/internal/textutils/delimiter.go
@@ -4,23 +4,27 @@ import (
 	"bytes"
 )
 
-// DelimiterForParagraph puts the delimiter around the whole string, even if the
+// DelimiterForEveryParagraph puts the delimiter around every paragraph, even if the
 // text is divided on multiple lines. They are recognized as long as there is no blank line.
-// If that is not possible ok is false.
-func DelimiterForParagraph(text []byte, delimiter []byte) (result []byte, ok bool) {
-	leftExtra, trimmed, rightExtra := SurroundingSpaces(text)
-	if trimmed == nil || bytes.Contains(trimmed, []byte("\n\n")) {
-		return nil, false
-	}
-
+func DelimiterForEveryParagraph(text []byte, delimiter []byte) []byte {
 	var buf bytes.Buffer
-	buf.Write(leftExtra)
-	buf.Write(delimiter)
-	buf.Write(trimmed)
-	buf.Write(delimiter)
-	buf.Write(rightExtra)
 
-	return buf.Bytes(), true
+	for i, paragraph := range bytes.Split(text, []byte("\n\n")) {
+		if i > 0 {
+			buf.WriteString("\n\n")
+		}
+
+		leftExtra, trimmed, rightExtra := SurroundingSpaces(paragraph)
+		buf.Write(leftExtra)
+		if trimmed != nil {
+			buf.Write(delimiter)
+			buf.Write(trimmed)
+			buf.Write(delimiter)
+		}
+		buf.Write(rightExtra)
+	}
+
+	return buf.Bytes()
 }
 
 // DelimiterForEveryLine puts the delimiter not just at the start and end of the string
diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 6958581..3feaae6 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -37,12 +37,10 @@ func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 
 	// A link that extends over the line break can't be
-	// divided, so we only put the delimiters around the whole content.
+	// divided, so we only put the delimiters around the whole paragraph.
 	if domutils.HasLinkWithLineBreak(n) {
-		if result, ok := textutils.DelimiterForParagraph(content, delimiter); ok {
-			w.Write(result)
-			return converter.RenderSuccess
-		}
+		w.Write(textutils.DelimiterForEveryParagraph(content, delimiter))
+		return converter.RenderSuccess
 	}
 
 	// If there is a newline character between the start and end delimiter
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index ef23b65..7e19fcd 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -111,12 +111,10 @@ func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w conver
 	content := buf.Bytes()
 
 	// A link that extends over the line break can't be
-	// divided, so we only put the delimiters around the whole content.
+	// divided, so we only put the delimiters around the whole paragraph.
 	if domutils.HasLinkWithLineBreak(n) {
-		if result, ok := textutils.DelimiterForParagraph(content, []byte(s.delimiter)); ok {
-			w.Write(result)
-			return converter.RenderSuccess
-		}
+		w.Write(textutils.DelimiterForEveryParagraph(content, []byte(s.delimiter)))
+		return converter.RenderSuccess
 	}
 
 	// If there is a newline character between the start and end delimiter
-- 
2.43.0


From 3ec594c6a7d98231198942b1c73d64d0e515646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:04 +0000
Subject: [PATCH 72/74] fix: emphasis around a link with multiple paragraphs

---
 internal/domutils/line_break.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/line_break.go b/internal/domutils/line_break.go
index 4486029..481d2ab 100644
--- a/internal/domutils/line_break.go
+++ b/internal/domutils/line_break.go
@@ -6,7 +6,7 @@ import (
 )
 
 // HasLinkWithLineBreak reports whether there is a link
-// inside of the node that extends over a <br>.
+// inside of the node that extends over a <br> or over multiple blocks.
 func HasLinkWithLineBreak(node *html.Node) bool {
 	for child := node.FirstChild; child != nil; child = child.NextSibling {
 		if dom.NodeName(child) == "a" && dom.ContainsNode(child, nodeIsLineBreak) {
@@ -22,5 +22,6 @@ func HasLinkWithLineBreak(node *html.Node) bool {
 }
 
 func nodeIsLineBreak(node *html.Node) bool {
-	return dom.NodeName(node) == "br"
+	name := dom.NodeName(node)
+	return name == "br" || dom.NameIsBlockNode(name)
 }
-- 
2.43.0


From 8957927752d346ab8428a3f917acaa4c3ae693cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:20 +0000
Subject: [PATCH 73/74] fix: no backslash in a heading with a link of multiple
 paragraphs

---
 plugin/commonmark/render_heading.go | 2 +-
 plugin/commonmark/render_link.go    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index ec228c2..d980ad4 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -104,7 +104,7 @@ func escapePoundSignAtEnd(s []byte) []byte {
 }
 
 func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
-	// ctx = context.WithValue(ctx, "is_inside_heading", true)
+	ctx = ctx.WithValue("is_inside_heading", true)
 
 	level := getHeadingLevel(dom.NodeName(n))
 
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 41657ed..afbb4cd 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -2,6 +2,7 @@ package commonmark
 
 import (
 	"bytes"
+	"regexp"
 	"strings"
 
 	"github.com/JohannesKaufmann/dom"
@@ -44,6 +45,8 @@ func (c *commonmark) renderLinkInlined(w converter.Writer, l *link) converter.Re
 	return converter.RenderSuccess
 }
 
+var blankLinesR = regexp.MustCompile(`\n\s*\n`)
+
 func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	ctx = ctx.WithValue("is_inside_link", true)
 
@@ -88,6 +91,10 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 	// since `EscapeMultiLine` also takes care of newlines.
 	trimmed = textutils.TrimConsecutiveNewlines(trimmed)
+	if isInside, ok := ctx.Value("is_inside_heading").(bool); ok && isInside {
+		// The lines are going to be joined, so that there can't be an escaped blank line.
+		trimmed = blankLinesR.ReplaceAll(trimmed, []byte("\n"))
+	}
 	trimmed = textutils.EscapeMultiLine(trimmed)
 
 	l.before = leftExtra
-- 
2.43.0


From aae15b02d099d332a539c1aa9242860f9904081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:00 +0000
Subject: [PATCH 74/74] fix: emphasis of paragraphs that are divided by a line
 of spaces

---
 internal/textutils/delimiter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/textutils/delimiter.go b/internal/textutils/delimiter.go
index 49c5625..69c4eda 100644
--- a/internal/textutils/delimiter.go
+++ b/internal/textutils/delimiter.go
@@ -2,17 +2,23 @@ package textutils
 
 import (
 	"bytes"
+	"regexp"
 )
 
+var blankLinesR = regexp.MustCompile(`\n\s*\n`)
+
 // DelimiterForEveryParagraph puts the delimiter around every paragraph, even if the
 // text is divided on multiple lines. They are recognized as long as there is no blank line.
 func DelimiterForEveryParagraph(text []byte, delimiter []byte) []byte {
 	var buf bytes.Buffer
 
-	for i, paragraph := range bytes.Split(text, []byte("\n\n")) {
-		if i > 0 {
-			buf.WriteString("\n\n")
+	rest := text
+	for len(rest) > 0 {
+		paragraph, blank := rest, []byte(nil)
+		if loc := blankLinesR.FindIndex(rest); loc != nil {
+			paragraph, blank = rest[:loc[0]], rest[loc[0]:loc[1]]
 		}
+		rest = rest[len(paragraph)+len(blank):]
 
 		leftExtra, trimmed, rightExtra := SurroundingSpaces(paragraph)
 		buf.Write(leftExtra)
@@ -22,6 +28,7 @@ func DelimiterForEveryParagraph(text []byte, delimiter []byte) []byte {
 			buf.Write(delimiter)
 		}
 		buf.Write(rightExtra)
+		buf.Write(blank)
 	}
 
 	return buf.Bytes()
-- 
2.43.0

