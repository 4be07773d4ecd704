#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [dict(zip(("name","where"), m)) for m in mech]}
    if state: a["state"] = [dict(zip(("name","meaning","where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

API = "output of Converter.ConvertString/ConvertReader/ConvertNode"
GM = "the Markdown output, re-read by a CommonMark/GFM parser (goldmark)"

p("C01", "No input and no valid configuration can crash or hang a conversion",
  "For every byte sequence given as HTML (malformed markup, control characters, invalid UTF-8, nesting up to the parser's limit) or as an already parsed tree, and for every valid combination of shipped plugins, plugin options and escape mode, a conversion terminates and returns either Markdown or an error; it never panics and never kills the process. When the input is valid UTF-8 the output is valid UTF-8.",
  ["inputs", "configurations"], "all byte sequences and parsed trees x all valid plugin/option/escape-mode combinations",
  "Golden files exercise a few dozen hand-written documents with mostly default options; panics live in index arithmetic over unusual content (empty or one-character headings, trailing markers) under non-default options.",
  ["converter/convert.go", "plugin/commonmark/render_heading.go", "plugin/table/utils.go", "internal/textutils", "internal/escape"],
  [("ConvertNode pipeline", "converter/convert.go"), ("renderers", "plugin/commonmark/render_*.go"), ("table grid arithmetic", "plugin/table/utils.go")], observe=[API])

p("C02", "Work, memory and output stay proportionate to the document",
  "The work of a conversion (how often each node is rendered), the memory it takes and the size of its output are bounded by a low-degree function of the size and nesting depth of the document. No short attribute value (a span, a start number) and no nesting shape makes any of them grow exponentially or in proportion to a number written in the input.",
  ["inputs", "configurations"], "all documents, in particular deep nesting, repeated constructs, and extreme numeric attributes",
  "Tests use small documents and never measure work; blow-ups need a nesting shape or a magnitude no golden file has.",
  ["converter/render.go", "plugin/table/2_collect.go", "plugin/table/utils.go", "plugin/commonmark/render_list.go", "internal/domutils"],
  [("single pass recursive render", "converter/render.go"), ("problematic-child check before rendering cells", "plugin/table/2_collect.go"), ("span grid", "plugin/table/utils.go")], observe=["render events per node", "peak memory of an isolated process", "output length"])

p("C03", "The result is a function of the document and configuration only",
  "Converting the same document under the same configuration gives byte-identical Markdown every time: in a fresh converter, in one already used for any other documents, in another process, and through the string, reader, parsed-tree, package-level and plugin-assembled entry points alike. How a reader chops its bytes into reads does not matter.",
  ["inputs", "histories", "configurations"], "all documents x all histories of prior conversions on the same converter x all read chunkings",
  "Each test converts one document once on a fresh converter; dependence on earlier conversions or on map iteration order needs sequences and repetitions.",
  ["convert.go", "converter/convert.go", "converter/register.go", "converter/ctx.go"],
  [("fresh global state per conversion", "converter/convert.go newGlobalState"), ("handlers copied and sorted per use", "converter/register.go")], observe=[API])

p("C04", "A converter may be used and extended from many goroutines at once",
  "Conversions running concurrently on one converter give exactly the results they give alone, and neither concurrent conversions nor registrations made while conversions run cause a data race, a crash or a lost registration.",
  ["schedules", "inputs"], "all interleavings of concurrent conversions and registrations on a shared converter",
  "The tests have one small goroutine smoke test; races need particular interleavings of registration order, sorting and rendering and are invisible without a detector.",
  ["converter/converter.go", "converter/register.go", "converter/convert.go", "plugin/table/table.go"],
  [("RWMutex around handler lists", "converter/register.go"), ("per-conversion context", "converter/ctx.go")],
  state=[("tagTypes/renderHandlers/registeredPlugins", "shared registration state", "converter/converter.go")], observe=["Go race detector reports", API])

p("C05", "Options, context values and state belong to one conversion",
  "The domain, context and handler-written state of one conversion are visible in that conversion to every handler (context values given by the caller included) and in no other, whether conversions follow each other, overlap or are nested inside a handler. State written by a handler is read back by later handlers of the same conversion with the value last written, and typed access to a missing value gives the zero value.",
  ["histories", "schedules", "inputs"], "all sequences and overlaps of conversions with differing options, and all get/set/update sequences inside them",
  "Only one unit test touches conversion state, with a single conversion.",
  ["converter/ctx.go", "converter/convert.go"],
  [("globalState", "converter/ctx.go"), ("context chain", "converter/convert.go")], observe=["values seen by registered handlers", API])

p("C06", "Handlers run in priority order and stop where they say so",
  "Pre-render, text-transform, un-escape and post-render handlers run in ascending priority, each once per document, text or position; renderers for a node run in ascending priority until one reports success, and the default rendering is used when none does. Text nodes only pass through the text transformers, and of several tag types registered for one name the one with the lowest priority number wins whatever the registration order. Handlers of equal priority keep their registration order (of equal tag types the first registered one counts), and what one handler returns, even if it is empty, is what the next one gets.",
  ["configurations", "histories", "inputs"], "all sets of handlers, priorities and registration orders",
  "Tests register one or two handlers in one order with default priorities.",
  ["converter/register.go", "converter/prioritized.go", "converter/render.go", "converter/convert.go", "converter/escape.go"],
  [("prioritizedSlice.Sort", "converter/prioritized.go"), ("handler loop", "converter/render.go")], observe=["event log written by registered handlers"])

p("C07", "Failures surface as errors and never as partial output",
  "When the reader fails, a plugin's initialisation fails, a plugin has no name, an option is invalid, or required plugins are missing, the conversion returns a non-nil error that identifies the cause (wrapping it where there is one) and no output. It does so at every later conversion too, whichever entry point is used, and a reader's error at any byte position is never reported as success.",
  ["fault_sequences", "configurations", "inputs"], "every fault position in the reader, every failing plugin position, every set of missing plugins",
  "Tests check a few error values; they do not vary the byte position of a read fault or the position of a failing plugin among others.",
  ["converter/convert.go", "converter/register.go", "converter/converter.go", "converter/plugin.go"],
  [("conv.err", "converter/convert.go getError"), ("register.Plugin error wrapping", "converter/register.go")], observe=["error values and returned output"])

p("C08", "Option values are either honoured or rejected",
  "Every plugin option value within its documented set is accepted and takes effect in the output (delimiters, bullet marker, fence, rule, heading style, link behaviours, list end comment, table span/newline/padding/row behaviours, strikethrough delimiter). A value outside the documented set makes the conversion return an error naming the option and value, instead of being used or silently ignored.",
  ["configurations"], "all values for each documented option, alone and combined",
  "Validation tests cover one wrong value per option and no combinations.",
  ["plugin/commonmark/validation.go", "plugin/commonmark/options.go", "plugin/commonmark/commonmark.go", "plugin/table/table.go", "plugin/strikethrough/strikethrough.go"],
  [("validateConfig", "plugin/commonmark/validation.go"), ("option funcs", "plugin/table/table.go")], observe=["error values", API])

p("C09", "No visible text is lost, duplicated or reordered",
  "Every piece of visible text of a document appears in the Markdown exactly once and in document order, whatever elements, nesting and options surround it. Documented exceptions are the only ones: content of removed elements is dropped, a table caption follows its table, a header row precedes the other rows, and mirrored cells repeat.",
  ["inputs", "configurations"], "all documents (arbitrary tag soup included) x option combinations",
  "Golden files check particular documents; losses come from tree rewrites (merging, swapping, unwrapping) meeting unusual nesting.",
  ["internal/domutils", "plugin/commonmark/handle_pre_render.go", "collapse/collapse.go", "converter/render.go", "plugin/table"],
  [("tree rewrites", "internal/domutils"), ("renderers", "plugin/commonmark"), ("collapse", "collapse/collapse.go")], observe=["unique tokens planted in text nodes, found in the output"])

p("C10", "Literal text never turns into Markdown markup",
  "With smart escaping, text that merely looks like Markdown (emphasis, headings, lists, rules, quotes, code, links, images, tables, strikethrough, backslashes) reads back, through a CommonMark parser, as the same literal characters and creates no structure, in every block and inline position. Text that contains an ampersand is outside this guarantee.",
  ["inputs", "configurations"], "all texts over Markdown-significant characters x all positions (paragraph, heading, list item, quote, link text, emphasis, cell)",
  "Escape tests list individual strings; the guarantee depends on every combination of characters, spacing, line position and neighbouring nodes.",
  ["internal/escape", "converter/escape.go", "plugin/base/base.go", "plugin/commonmark/commonmark.go", "plugin/table/2_collect.go"],
  [("escapeContent/unEscapeContent", "converter/escape.go"), ("UnEscapers", "internal/escape"), ("character entities", "plugin/base/base.go")], observe=[GM])

p("C11", "With escaping disabled text is passed through verbatim",
  "With escape mode disabled no backslash or marker is added, removed or overwritten in text: the visible characters of the document appear unchanged except for the documented replacement of angle brackets by entities. (Pipes in table cells, which would end the cell, and the three reserved placeholder characters of property C12 are aside.)",
  ["inputs"], "all texts over all characters, in every position",
  "Two unit tests convert one string each in this mode.",
  ["converter/escape.go", "plugin/commonmark/render_heading.go", "plugin/base/base.go"],
  [("early return in escapeContent/unEscapeContent", "converter/escape.go")], observe=[API])

p("C12", "Internal placeholders never leak and cannot be forged",
  "The characters the converter uses internally as placeholders never appear in the output unless the document itself contains them, and a document containing those characters (or NUL) cannot use them to create markup, lines or backslashes. NUL in text becomes U+FFFD.",
  ["inputs", "configurations"], "all documents, in particular those that contain the placeholder characters themselves, in text, code and attributes",
  "No test puts placeholder characters into the input.",
  ["marker/marker.go", "converter/escape.go", "plugin/commonmark/commonmark.go", "plugin/commonmark/render_code.go", "plugin/commonmark/render_list.go"],
  [("un-escape pass", "converter/escape.go"), ("code newline replacement", "plugin/commonmark/commonmark.go")], observe=["bytes of the output", GM])

p("C13", "The output is trimmed and has no excess blank lines",
  "The Markdown neither starts nor ends with white space and, outside code blocks, never contains more than one blank line in a row, however blocks are nested or emptied. An empty or invisible document gives the empty string.",
  ["inputs", "configurations"], "all documents and options",
  "Golden files fix the spacing of particular documents only.",
  ["internal/textutils/consecutive_newlines.go", "plugin/base/base.go", "plugin/commonmark/render_list.go", "plugin/commonmark/render_blockquote.go"],
  [("TrimConsecutiveNewlines", "internal/textutils/consecutive_newlines.go"), ("post render trim", "plugin/base/base.go")], observe=["lines of the output"])

p("C14", "Separate blocks stay separate blocks",
  "Sibling block elements (paragraphs, divs and other block containers, headings, lists, quotes, code blocks, rules, tables) read back as separate blocks of the same kinds in the same order, never merged into each other or into neighbouring inline text; adjacent lists stay distinct lists. Line breaks inside a block read back as line breaks, not as new blocks.",
  ["inputs", "configurations"], "all sequences of block kinds, with and without neighbouring inline text and wrappers",
  "Pairs and triples of adjacent block kinds under different options are mostly untested.",
  ["converter/render.go", "plugin/commonmark", "internal/domutils/list_end_comment.go"],
  [("blank lines around block tag types", "converter/render.go"), ("list end comment", "internal/domutils/list_end_comment.go")], observe=[GM])

p("C15", "Headings keep their level and their text",
  "Every non-empty heading h1-h6 reads back as one heading of the same level with the same inline content, in both heading styles (setext applies to levels 1 and 2) and in every container that can hold it; trailing or leading number signs, line breaks and surrounding white space in its content neither end it nor change its level. A heading that is all there is in a link becomes a heading with that link.",
  ["inputs", "configurations"], "all heading contents x levels x styles x containers",
  "A handful of headings with plain content are covered.",
  ["plugin/commonmark/render_heading.go", "internal/domutils/swap.go", "internal/domutils/alternatives.go"],
  [("renderHeading", "plugin/commonmark/render_heading.go"), ("escapePoundSignAtEnd", "plugin/commonmark/render_heading.go")], observe=[GM])

p("C16", "Emphasised text reads back emphasised, and nothing else does",
  "Text inside em/i or strong/b, whose edges are letters or digits or which stands apart by white space, reads back with exactly that emphasis, whatever inline nesting, white space at the edges, line breaks, links or delimiters (* or _) are involved; text outside them reads back without it. Redundantly nested or adjacent elements of one kind act as one. (With `_` only emphasis at word boundaries can be expressed.)",
  ["inputs", "configurations"], "all inline trees over emphasis, links, code, images, breaks and text, with all delimiter options",
  "Unit tests cover single nestings with one delimiter.",
  ["plugin/commonmark/render_bold_italic.go", "internal/textutils/delimiter.go", "internal/domutils/adjacent.go", "internal/domutils/redundant.go", "internal/domutils/swap.go", "internal/domutils/add_space.go"],
  [("DelimiterForEveryLine", "internal/textutils/delimiter.go"), ("tree rewrites", "plugin/commonmark/handle_pre_render.go")], observe=[GM])

p("C17", "Links and images keep destination, title and text",
  "Every link with an href reads back as one link to the resolved destination with the same title and inline content, and every image with a src as one image with the resolved source, title and alternative text, whatever characters these contain (character references spelled out in a text, like `&amp;copy;`, aside). Empty hrefs and empty contents follow the configured behaviour.",
  ["inputs", "configurations"], "all destinations, titles, alternative texts and contents over hostile characters; link behaviours",
  "Golden files cover some quoting and bracket cases one at a time.",
  ["plugin/commonmark/render_link.go", "plugin/commonmark/render_image.go", "internal/textutils/quote.go", "internal/textutils/escape_multiline.go", "converter/url.go"],
  [("renderLink", "plugin/commonmark/render_link.go"), ("SurroundByQuotes", "internal/textutils/quote.go"), ("percentEncodingReplacer", "converter/url.go")], observe=[GM])

p("C18", "URLs are resolved against the domain by RFC 3986 rules",
  "With a domain, every relative link or image URL comes out as the absolute URL that RFC 3986 resolution against that domain gives (domains without a scheme count as http); absolute, data and mailto-like URLs keep their target. Without a domain, or with an unusable one, URLs keep their meaning; query parameters keep order and decoded values, and the output is always usable as a Markdown destination. This is about valid URI references; a bare `#` and paths that resolve to one beginning with an empty segment are aside.",
  ["inputs", "configurations"], "all (URL, domain) pairs over schemes, authorities, dot segments, queries, fragments and percent-encodings",
  "Table tests list individual pairs.",
  ["converter/url.go", "converter/convert.go"],
  [("defaultAssembleAbsoluteURL", "converter/url.go"), ("ParseAndEncodeQuery", "converter/url.go")], observe=["destinations in the output"])

p("C19", "Inline code keeps its characters",
  "The text of a code, kbd, samp, var or tt element reads back as one code span with exactly the same characters up to white-space collapsing and white space at its edges, whatever backticks, backslashes or Markdown characters it contains; code elements directly next to each other act as one and empty ones disappear.",
  ["inputs", "configurations"], "all code contents over backticks, spaces, Markdown characters and nested inline markup, in every inline position",
  "Tests cover a few backtick arrangements.",
  ["plugin/commonmark/render_code.go", "internal/textutils/codefence.go", "internal/textutils/collapse_code.go", "internal/domutils/empty_code.go"],
  [("CalculateCodeFenceOccurrences", "internal/textutils/codefence.go"), ("renderInlineCode", "plugin/commonmark/render_code.go")], observe=[GM])

p("C20", "Code blocks are preserved byte for byte in every container",
  "The text of a pre element reads back as one code block with exactly the same characters, including blank lines, indentation, fences and Markdown-looking lines, inside any nesting of quotes and list items, for both fence characters. A carriage return counts as a line break. The info string is the language class of the code element.",
  ["inputs", "configurations"], "all code contents x containers x fence options x language classes",
  "Golden files cover top-level and a few list examples.",
  ["plugin/commonmark/render_code.go", "internal/textutils/codefence.go", "plugin/commonmark/render_list.go", "plugin/commonmark/render_blockquote.go", "marker/marker.go"],
  [("CalculateCodeFence", "internal/textutils/codefence.go"), ("code newline marker", "marker/marker.go"), ("getCodeLanguage", "plugin/commonmark/render_code.go")], observe=[GM])

p("C21", "Lists keep kind, numbering, items and nesting",
  "Every list reads back as one list of the same kind with the same start number, the same items in the same order, and each item containing exactly the blocks and nested lists it had, for any number of items, digits of numbering, nesting depth and bullet marker. Content placed directly inside a list becomes part of the previous item, or of a new first item. A start number that Markdown cannot express (below 0 or above 999999999) counts as 1.",
  ["inputs", "configurations"], "all list trees: item counts, start numbers, nesting, block contents, bullet markers",
  "Tests have short lists; indentation depends on digit counts, nesting and block kinds in combination.",
  ["plugin/commonmark/render_list.go", "internal/domutils/list_items.go", "internal/domutils/list_end_comment.go"],
  [("getPrefixFunc", "plugin/commonmark/render_list.go"), ("renderMultiLineListItem", "plugin/commonmark/render_list.go"), ("MoveListItems", "internal/domutils/list_items.go")], observe=[GM])

p("C22", "Block quotes contain exactly their content",
  "Every non-empty blockquote reads back as one quote containing exactly the blocks it had, at any nesting depth and in any container, with every line of every contained block inside the quote and nothing after it drawn in.",
  ["inputs", "configurations"], "all block contents and nestings of quotes, lists, code and paragraphs",
  "Few nested quotes are in golden files; none contains multi-line code.",
  ["plugin/commonmark/render_blockquote.go", "internal/textutils/prefix_lines.go"],
  [("PrefixLines", "internal/textutils/prefix_lines.go")], observe=[GM])

p("C23", "Tables keep their grid",
  "With the table plugin every convertible table reads back as one GFM table with the cell contents, column alignment and spans laid out in the grid HTML defines, under every option (span behaviour, padding, empty-row skipping, header promotion, presentation tables, newline behaviour), each row having the same number of cells. A table that cannot be represented is not half converted: all of its text is kept outside of table syntax. A rowspan beyond the end of the table adds the rows it asks for, a rowspan of 0 counts as 1, and spans that would dwarf the rest of the table make it one that cannot be represented.",
  ["inputs", "configurations"], "all table shapes, spans, header placements, alignments, cell contents with pipes and newlines x options",
  "Tests use small tables with one feature each.",
  ["plugin/table/1_select.go", "plugin/table/2_collect.go", "plugin/table/3_render.go", "plugin/table/utils.go"],
  [("collectRows/applyGroupedModifications", "plugin/table/2_collect.go, utils.go"), ("writeRow", "plugin/table/3_render.go")], observe=[GM])

p("C24", "Struck-through text reads back struck through, and nothing else does",
  "With the strikethrough plugin, text inside del, s or strike reads back struck through exactly, with nested and adjacent elements acting as one and with line breaks and surrounding white space handled; literal tildes stay literal. Without the plugin these elements leave their text unchanged.",
  ["inputs", "configurations"], "all inline trees with struck-through text and tildes, with and without the plugin",
  "A few unit tests with one line each.",
  ["plugin/strikethrough/strikethrough.go", "internal/textutils/delimiter.go"],
  [("renderStrikethrough", "plugin/strikethrough/strikethrough.go"), ("handleUnEscapers", "plugin/strikethrough/strikethrough.go")], observe=[GM])

p("C25", "Whole documents round-trip through Markdown",
  "For documents built from the supported constructs in any combination and nesting (headings, paragraphs, emphasis, links, images, code, lists, quotes, rules, tables), rendering the Markdown gives a document with the same structure and text, and converting that rendering again gives the same Markdown (emphasis around a link may move into it first).",
  ["inputs", "configurations"], "all nestings of supported block and inline constructs x options",
  "The repository's round-trip helper runs over its golden files only.",
  ["plugin/commonmark", "plugin/base/base.go", "plugin/table", "plugin/strikethrough", "internal"],
  [("whole pipeline", "converter/convert.go")], observe=[GM, "second conversion of the rendered HTML"])

p("C26", "Invisible differences in the HTML do not change the Markdown",
  "Comments, scripts, styles and other removed elements, irrelevant attributes, letter case of tags, entity spelling of characters, insignificant white space between blocks, splitting of a text into adjacent text nodes, and neutral span wrappers do not change the Markdown (a span between emphasis and the link that is its only content is aside).",
  ["inputs"], "all documents x all such edits at all positions",
  "Needs pairs of documents; the golden files have single documents.",
  ["plugin/base/base.go", "collapse/collapse.go", "internal/domutils/adjacent.go"],
  [("preRenderRemove", "plugin/base/base.go"), ("MergeAdjacentTextNodes", "internal/domutils/adjacent.go"), ("Collapse", "collapse/collapse.go")], observe=[API])

p("C27", "White space collapses the way HTML rendering does",
  "Collapsing removes or merges only collapsible white space: no other character changes, words separated by white space stay separated and joined words stay joined, preformatted content is untouched, runs of white space become one space, and block edges carry none. The tree stays well formed and collapsing again changes nothing.",
  ["inputs"], "all trees of block, inline, void, preformatted and text nodes with white space in all positions",
  "Unit tests list single trees.",
  ["collapse/collapse.go", "collapse/whitespace.go", "collapse/is_node.go"],
  [("Collapse", "collapse/collapse.go"), ("replaceAnyWhitespaceWithSpace", "collapse/whitespace.go")], observe=["tree before and after collapse.Collapse"])

p("C28", "Conversion is local: blocks convert the same wherever they stand",
  "A block converts to the same Markdown whatever unrelated blocks precede or follow it; putting content into a block quote or a list item adds exactly the quote prefix or the item's marker and indentation to each line of what it converts to alone; wrapping blocks in neutral containers changes nothing. The comments that separate adjacent lists, escapes that depend on what starts a line, and list items that would form a rule with their marker are aside.",
  ["inputs", "configurations"], "all pairs of documents and all containers",
  "Needs related pairs of conversions; tests compare single results with goldens.",
  ["converter/render.go", "plugin/commonmark/render_blockquote.go", "plugin/commonmark/render_list.go"],
  [("recursive rendering", "converter/render.go")], observe=[API])

p("C29", "Registered tag types and renderers decide how elements come out",
  "A tag registered as removed disappears with its content, as block is set apart by blank lines, as inline flows in the line, whatever the tag and even where a plugin registered otherwise with a weaker priority; a renderer registered for a tag gets exactly that tag's elements. The HTML renderers reproduce the element's HTML, and the wrapper renderers keep the children as Markdown. Elements for which no output is produced at all need not set their surroundings apart.",
  ["configurations", "inputs"], "all tags x tag types x renderers x priorities x documents",
  "Tests register one tag in one document.",
  ["converter/register.go", "converter/render.go", "plugin/base/base.go", "plugin/base/renderers.go"],
  [("TagType/RendererFor", "converter/register.go"), ("preRenderRemove", "plugin/base/base.go"), ("RenderAsHTML*", "plugin/base/renderers.go")], observe=[API, "nodes seen by registered renderers"])

p("C30", "The command line converts exactly as the library does",
  "For every input and every combination of flags, what the command writes (to standard output, a file or a directory) is byte for byte what the library produces with the corresponding domain, plugins and options, followed by a newline on standard output only. Invalid or dependent flags without their prerequisite are rejected with exit status 1 and no output.",
  ["inputs", "configurations"], "all inputs x flag combinations x output targets",
  "CLI golden tests cover one flag at a time.",
  ["cli/html2markdown/cmd/cmd_convert.go", "cli/html2markdown/cmd/flags.go", "cli/html2markdown/cmd/exec.go", "cli/html2markdown/cmd/io_output.go"],
  [("convert()", "cli/html2markdown/cmd/cmd_convert.go"), ("parseFlags", "cli/html2markdown/cmd/flags.go")], observe=["stdout, stderr, exit status and files of the built binary"])

p("C31", "The command never destroys or touches files it was not told to",
  "Without --output-overwrite an existing file is never changed, truncated or removed, and the run fails; with it, the target's content is fully replaced. Input files and files outside the requested output are never created, changed or deleted, whatever the path forms, links and prior directory contents. (A link that stands in the place of an output stands for its target.)",
  ["histories", "configurations", "inputs"], "all prior directory contents x path forms x flag combinations x repeated runs",
  "Tests check single existing-file cases.",
  ["cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/exec.go"],
  [("WriteFile O_EXCL/O_TRUNC", "cli/html2markdown/cmd/io_output.go")], observe=["directory snapshots before and after each run"])

p("C32", "Every input file yields its own complete output file",
  "When a glob matches several files, a successful run leaves in the output directory exactly one file per matched input, each holding the conversion of that input, also when base names coincide; names depend only on the inputs' paths relative to the glob, so that repeated runs with overwriting rewrite the same files. A glob that matches nothing, or several inputs without an output directory, is an error.",
  ["inputs", "configurations", "histories"], "all directory trees, name collisions, glob patterns and repeated runs",
  "Tests have one tree with one collision.",
  ["cli/html2markdown/cmd/io_input.go", "cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/exec.go"],
  [("listInputs", "cli/html2markdown/cmd/io_input.go"), ("calculateOutputPaths", "cli/html2markdown/cmd/io_output.go")], observe=["files in the output directory"])

p("C33", "Exit status and streams tell the truth, also under I/O faults",
  "The command exits 0 only if every requested output was written completely; any failure (bad flag, missing or unreadable input or directory, unwritable output, full disk, failing write or close) exits 1 with a message on standard error, and nothing but converted Markdown (or the requested help or version) is ever written to standard output. A reader that closes the pipe ends the command by signal.",
  ["fault_sequences", "configurations"], "all fault kinds at all points of a run: flags, input, conversion, directory creation, file and stream writes",
  "Tests inject no write faults.",
  ["cli/html2markdown/cmd/exec.go", "cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/errors.go"],
  [("Execute", "cli/html2markdown/cmd/exec.go"), ("writeOutput", "cli/html2markdown/cmd/io_output.go")], observe=["exit status, stdout, stderr and files under injected faults"])

p("C34", "Selectors keep and drop exactly what they select",
  "With --include-selector the result is the conversion of exactly the matched elements, each once and in document order; with --exclude-selector every element matched in the document, and nothing else, is left out. Several selectors of one kind act as their union, and exclusion applies within what was included.",
  ["inputs", "configurations"], "all documents x all selector groups, including nested matches and position-dependent selectors",
  "Tests use single class selectors with disjoint matches.",
  ["cli/html2markdown/cmd/cmd_convert.go", "cli/html2markdown/cmd/flags.go"],
  [("includeNodesFromDoc/excludeNodesFromDoc", "cli/html2markdown/cmd/cmd_convert.go")], observe=["stdout of the built binary"])

p("C35", "Converting a part of a tree converts that part and nothing else",
  "ConvertNode on any element or text of a parsed tree gives the Markdown of that part alone: the same whether the part is attached to its document, taken out of it, copied, or the only content of a document of its own. It changes nothing of the tree around the part, so parts can be converted one after the other in any order.",
  ["inputs", "histories"], "all documents x all elements and texts in them x all orders of converting siblings",
  "Tests call ConvertNode on whole documents only.",
  ["converter/convert.go", "plugin/base/base.go", "collapse/collapse.go"],
  [("ConvertNode", "converter/convert.go")], observe=["return value of ConvertNode", "the html.Node tree around the part"])
p("C36", "Handlers can render through the context like the converter does",
  "A handler that renders children with RenderChildNodes or RenderNodes, to look at them, to buffer them or to pass them on in pieces, sees what the converter itself would render there, and a document converted with such handlers gives the same Markdown. Text that a handler renders or escapes through the context reads like the same text in the document, and AssembleAbsoluteURL gives the URL that links get.",
  ["inputs", "configurations"], "all documents x handlers that look, buffer, delegate or escape, at any node and priority",
  "Tests register single handlers on fixed snippets.",
  ["converter/ctx.go", "converter/render.go", "converter/escape.go", "converter/url.go"],
  [("Context methods RenderNodes, RenderChildNodes, EscapeContent, UnEscapeContent, AssembleAbsoluteURL", "converter/ctx.go")],
  observe=["return values of Convert", "what handlers see through their context"])
p("C37", "Nothing in the Markdown is more active than the document",
  "With smart escaping, whatever the document is (well formed or not, with HTML or Markdown in its texts and attribute values), every construct that a reader finds in the Markdown stems from an element of the document: there is no raw HTML except for the comments that end lists and the line breaks preserved in table cells, no autolink, no reference definition and no indented code; links and images have a destination and a title that the document gives; and there is no heading, list, quote, rule, code, table, emphasis or struck-through text without an element of that kind.",
  ["inputs", "configurations"], "all documents, including malformed and hostile ones, x all options with smart escaping",
  "Tests compare golden files; no test looks for constructs that a document of another author smuggled in.",
  ["converter/escape.go", "internal/escape/elem_code.go", "plugin/commonmark/render_link.go", "plugin/commonmark/render_image.go", "plugin/table/table.go"],
  [("escaping of texts", "converter/escape.go"), ("smart escaping", "internal/escape/replacer.go"), ("links and images", "plugin/commonmark/render_link.go")],
  observe=["return value of Convert", "its syntax tree in a CommonMark and GFM reader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
