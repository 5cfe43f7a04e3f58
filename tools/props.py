PARSER = "src/parser.rs"; BLOCK = "src/block.rs"; TABLE = "src/table.rs"; HT = "src/htmltools.rs"
URL = "src/urlutils.rs"; RX = "src/regextra.rs"; SN = "src/regex_snips.rs"; CC = "src/charcounter.rs"
PROPS = []
def P(**k): PROPS.append(k)
GEN = "Evidence from generated inputs only: it never establishes absence. Trusts the harness's own oracle and the pinned html5ever tokenizer."

P(id="C01", title="Any text is converted, without a crash and with bounded work",
  statement="For every Unicode text and every combination of settings, converting the text returns a string: it never panics and never runs away in an endless loop or an explosion of memory.",
  over=["inputs","configurations"], forall="all Unicode texts, well-formed Textile or not, of any length, under all settings",
  why="The tests convert about 200 hand-written, well-formed documents; a panic or a loop needs an unusual combination (a multi-byte character next to a cut, an unbalanced quote, a very long run).",
  files=[PARSER,BLOCK,TABLE,RX,HT], mechanism="slicing at byte offsets, unreachable arms, loops over the text until it stops changing, backtracking regular expressions, number parsing",
  technique="generative fuzzing (syntax soup, mutated fixtures, long repetitions, odd uids, saved regressions) with crash and work-budget oracles",
  note=GEN+" A text that takes more than 150 s of processor time is a violation (the slowest generated one takes well under 1 s); the work budget is counted in allocated bytes and is deterministic.")

P(id="C02", title="Restricted mode lets no author markup, styling or ids through",
  statement="In restricted mode the output contains only elements and attributes that Textile markup itself produces: no tag, comment, attribute, class, id or style of the author's own, whatever the text. Raw HTML in the text is shown literally, as visible text, and no value taken from the text can break out of the attribute it is put in.",
  over=["inputs","configurations"], forall="all texts, hostile ones included, under all settings with the restricted mode on and no sanitizer",
  why="The tests convert a handful of restricted documents; an escape hole shows only for a particular nesting of constructs inside titles, URLs, languages, tables or link texts.",
  files=[PARSER,BLOCK,TABLE,HT], mechanism="the whole text is escaped first, later steps decode URLs and re-escape them, attribute values are quoted, markup is kept aside as tokens",
  technique="generative fuzzing with a whitelist oracle over an HTML5 tokenizer, plus a literal-text oracle",
  note=GEN)

P(id="C03", title="Links, images and citations lead only to allowed URL schemes",
  statement="Whatever the text, every address that Textile markup puts into the output (link targets, image sources, image links, citations, link aliases) is relative or has a scheme from the allowed list: http, https, ftp and mailto in restricted mode, plus file, tel, callto, sftp and data otherwise. This holds for schemes in odd case, with entities, control characters or white space in them, as a browser would read them.",
  over=["inputs","configurations"], forall="all texts, URL spellings and places an address can be written in, both modes (raw HTML of the author aside, where it is allowed)",
  why="Tests try two or three spellings of javascript: in one place; there are five places and unlimited spellings.",
  files=[PARSER,BLOCK,URL], mechanism="the validation of URLs before links, images, citations and aliases are built; URL decoding and re-encoding",
  technique="grammar-based fuzzing of hostile URLs in every place, judged by the WHATWG URL parser on what a browser sees",
  note=GEN)

P(id="C04", title="With the sanitizer on, the output is what the sanitizer allows",
  statement="When sanitizing is on, the output is exactly the sanitizer's result for what would be output without it, apart from the form of line breaks: nothing the sanitizer removes comes back. A custom sanitizer configuration is applied as given, and switching sanitizing off or replacing the configuration later takes effect.",
  over=["inputs","configurations"], forall="all texts with raw HTML, all other settings, default and adjusted sanitizers",
  why="One test has one sanitized document with the default configuration.",
  files=[PARSER], mechanism="the last step of a conversion hands the text to the sanitizer built by the configured function",
  technique="differential fuzzing against the sanitizer library called directly, plus a whitelist oracle over an HTML5 tokenizer",
  note=GEN+" Ammonia itself is trusted.")

P(id="C05", title="Images-off, lite and no-block switches remove exactly what they say",
  statement="With images off no image comes from Textile markup and nothing else changes; in lite mode the only blocks are paragraphs, quotations and block code, phrases and links keep their meaning, and the marks of inline code and literal text are plain text; with block tags off no block element is produced and phrases keep their meaning. What is switched off is shown as it was written.",
  over=["inputs","configurations"], forall="all texts and generated documents under each switch and the other settings",
  why="Each switch has at most two documents in the tests.",
  files=[PARSER,BLOCK], mechanism="the switches are tested at the steps of a conversion (images, lists, tables, code, block signatures)",
  technique="model-based generation and fuzzing with metamorphic (with/without the switch) and element-whitelist oracles",
  note=GEN)

P(id="C06", title="A conversion depends on the settings and the text only",
  statement="The result of a conversion is a function of the settings and the text: it does not depend on what the same parser converted before, on the order in which settings were made or on values set earlier, nor on parsers in other threads. Two parsers made without a given identifier differ only in generated ids.",
  over=["histories","inputs","configurations","schedules"], forall="all sequences of conversions and of settings, and concurrent parsers in several threads",
  why="The tests make a new parser for each document and set each option once.",
  files=[PARSER], mechanism="caches of compiled expressions kept in the parser, per-conversion counters and shelves, setters that consume and return the parser",
  technique="stateful generation of histories (conversions, settings in random orders, threads) against a fresh parser as the model",
  note=GEN+" Thread schedules are whatever the machine gives; parsers share nothing but lazily built tables.")

P(id="C07", title="Internal markers never show and cannot be forged",
  statement="No internal placeholder of the conversion is left in any output, and text that imitates a placeholder is never replaced by other parts of the document, duplicated or linked to them. The identifier given to the parser appears in generated ids only, and changing it changes nothing else.",
  over=["inputs","configurations"], forall="all texts, including ones that contain placeholder-like text and the identifier itself, and all identifiers of letters, digits and common punctuation",
  why="No test contains text that resembles the placeholders, and all use one or two identifiers.",
  files=[PARSER,BLOCK], mechanism="finished parts are put on a shelf under tokens and put back at the end",
  technique="fuzzing with token-laden texts: invisibility, once-only and renaming (metamorphic) oracles",
  note=GEN)

P(id="C08", title="No word of the text is lost, repeated or moved",
  statement="Every word of the author's text appears in the output exactly once and in the original order, whatever markup characters, balanced or not, stand around the words, and whichever construct (phrase, link text, list, table cell, definition, quotation, code) holds them.",
  over=["inputs","configurations"], forall="all arrangements of words and markup characters, and all constructs holding words, in both modes and both flavours of HTML",
  why="Lost or repeated text shows only in odd combinations (text before a table, a cell of several lines in a row with attributes) that no test contains.",
  files=[PARSER,TABLE,BLOCK,RX], mechanism="each step replaces the pieces it recognises by regular expressions and must put back all of what it matched",
  technique="generation of numbered unique words among markup, with an order-and-once oracle on the visible text",
  note=GEN+" Attribute signatures, comments and note definitions are not visible text and are not given words.")

P(id="C09", title="Code, preformatted and literal text come out exactly as written",
  statement="What is written as code or preformatted text (inline, as a block or extended block, or in code and pre tags) is shown character for character, with HTML characters escaped exactly once; what is marked as literal is in the output byte for byte. No other markup, typography or link recognition applies inside, in either mode (the marks of the other kinds of code and literal text, such as @ or ==, aside).",
  over=["inputs","configurations"], forall="all texts as the content of each kind of code or literal, without that kind's own terminator",
  why="Tests put a few words with a few special characters in code.",
  files=[PARSER,BLOCK,HT], mechanism="the content is escaped and shelved before any other step sees it",
  technique="round-trip fuzzing: the decoded content of the element equals what was written",
  note=GEN)

P(id="C10", title="Well-formed documents give well-nested, once-escaped HTML",
  statement="For any document built of Textile constructs, nested as the syntax allows, the output is balanced and properly nested HTML with exactly the elements, attributes and text the constructs stand for. Characters special to HTML in running text are escaped exactly once, and character references already in the text keep their meaning.",
  over=["inputs","configurations"], forall="all documents of several blocks of all kinds with nested phrases, and all placements of special characters",
  why="Tests compare fixed documents; combinations of constructs grow exponentially.",
  files=[PARSER,BLOCK,TABLE,HT], mechanism="escaping of stray ampersands and angle brackets, generation of tags, reinsertion of shelved parts",
  technique="model-based generation: documents are generated as trees, printed as Textile, and the parsed output is compared with the expected tree",
  note=GEN)

P(id="C11", title="Phrase markup produces exactly the phrases written, nested as written",
  statement="Strong, emphasised, bold, italic, cited, deleted, inserted, superscript, subscript and span phrases, with attributes, adjacent to punctuation or in brackets, alone or nested in one another, produce exactly the corresponding elements around exactly the marked text, and nothing else in the text changes.",
  over=["inputs","configurations"], forall="all sequences and nestings (to the supported depth) of phrases with and without attributes",
  why="Tests have single phrases and a few fixed nestings.",
  files=[PARSER], mechanism="one regular expression per kind of phrase, applied recursively with a depth limit, tags kept aside as tokens",
  technique="model-based generation against a tree oracle",
  note=GEN+" Overlapping (badly nested) phrases are out of the domain.")

P(id="C12", title="Block signatures produce exactly the blocks written",
  statement="Paragraphs, headings, quotations with citations, block code with languages, preformatted text, literal blocks, hidden comments and their extended forms, in any sequence and with any attributes, produce exactly the corresponding elements; an extended block lasts until the next signature and not longer.",
  over=["inputs","configurations"], forall="all sequences of blocks with attributes and extended forms",
  why="Tests cover few sequences; the state kept from one block to the next is what goes wrong.",
  files=[PARSER,BLOCK], mechanism="the block loop with its carried tag, attributes, extension and closing markup",
  technique="model-based generation of block sequences against a tree oracle",
  note=GEN)

P(id="C13", title="Lists keep their nesting, kinds, numbering and items",
  statement="Bulleted and numbered lists of any nesting, mixed kinds, items of several lines, attributes, explicit start numbers and continuations, and both syntaxes of definition lists, produce exactly the corresponding list structure: every item in its list at its level, in order, and numbering starting or continuing at the right number. Definition lists may stand inside the other kinds and the other way round, and skipped levels or switches of kind still give well-formed lists with every item once.",
  over=["inputs","configurations","histories"], forall="all list trees, sequences of lists in a document and definition lists",
  why="Tests have a few fixed lists; nesting depth, kind switches and continuations multiply.",
  files=[PARSER], mechanism="a line-by-line pass with a stack of open lists and the remembered counters of numbered lists",
  technique="model-based generation of list trees and sequences against a tree oracle with a counter model",
  note=GEN+" Where the kind of list is switched at one level or a level is skipped, only well-formedness and the items are checked, not which list an item is in.")

P(id="C14", title="Tables keep every cell, span, attribute, group and caption",
  statement="A table of any shape produces exactly its rows and cells in order, with header cells, column and row spans, alignments, attributes of the table, rows and cells, column definitions, captions, summaries, head, body and foot groups where they were written, and cells of several lines kept whole.",
  over=["inputs","configurations"], forall="all tables built of the table syntax, with text before or after",
  why="Tests have a dozen tables; features interact (groups and captions, several lines and row attributes).",
  files=[TABLE,PARSER,BLOCK], mechanism="rows and cells are cut by regular expressions and reassembled with group and caption state",
  technique="model-based generation of tables against a tree oracle",
  note=GEN)

P(id="C15", title="Links lead where written, with the text, title and attributes written",
  statement="A link, inline or through an alias defined anywhere in the document, has exactly the written text (or the readable address for a self-link), title, attributes and forced rel, and its address resolves to the same URL as the written one. Punctuation, brackets and quotes around the link stay outside of it, and those that belong to the URL stay inside.",
  over=["inputs","configurations"], forall="all URLs (paths, queries, fragments, hosts, Unicode, percent-escapes, brackets, entities), texts, titles and surroundings, and alias definitions in any order",
  why="Tests have about sixty fixed links; URLs are an unlimited domain and the end of a link is guessed from the context.",
  files=[PARSER,URL], mechanism="search for the start of a link, splitting of trailing characters off the URL by balance rules, normalisation and quoting of URL parts",
  technique="model-based generation with a tree oracle, and a differential oracle: the WHATWG URL parser on the written and on the output address",
  note=GEN)

P(id="C16", title="Images keep their source, text, alignment, attributes and link",
  statement="An image has exactly the written source, alternative text and title, alignment, attributes and link target; alignment is a class or an attribute as the settings say; its link carries the forced rel; and an image with a forbidden address stays text.",
  over=["inputs","configurations"], forall="all image markup in paragraphs, lists, cells and link texts under all flavours and alignment settings",
  why="Tests have about twenty fixed images.",
  files=[PARSER,BLOCK], mechanism="one regular expression for images, attribute parsing and the alignment settings",
  technique="model-based generation against a tree oracle",
  note=GEN)

P(id="C17", title="Footnote references and footnotes are linked to each other",
  statement="Every reference to a footnote leads to that footnote, whichever comes first and however many references or footnotes there are; the first reference can be returned to from a footnote that has a back link; generated ids are unique; and unlinked references stay unlinked.",
  over=["inputs","histories","configurations"], forall="all documents with footnotes and references in any order and number",
  why="Tests have single references before their footnotes.",
  files=[PARSER,BLOCK], mechanism="a counter and a map from numbers to ids shared by references and footnotes",
  technique="model-based generation of documents with references, tree oracle with ids renamed by order of appearance",
  note=GEN)

P(id="C18", title="Endnotes are numbered, listed and linked consistently",
  statement="Endnotes are numbered in the order of their first references, wherever their definitions are; every reference leads to its note; each note list shows the referenced notes in that order with their content and back links to all their references in the chosen style, and unreferenced ones only when asked for; generated ids are unique apart from repeated lists.",
  over=["inputs","histories","configurations"], forall="all documents with note definitions, references, and one or more lists in all styles, in any order",
  why="Tests have three documents with notes.",
  files=[PARSER], mechanism="references, definitions and lists are collected in maps during the block pass and the lists are expanded at the end",
  technique="model-based generation with a reference model of numbering and back links",
  note=GEN+" One known finding is listed: the second and later references to a note have an empty target, which an existing test pins.")

P(id="C19", title="Attributes reach the element they are written for, and only as attributes",
  statement="Classes, ids, styles, languages, paddings and alignments, in any order the syntax allows, reach exactly the element they are written for, on every construct that takes attributes, and in restricted mode classes, ids and styles are dropped. No attribute value, whatever it contains, turns into markup, another attribute or lost content.",
  over=["inputs","configurations"], forall="all attribute groups and values on blocks, phrases, links, images, lists, tables, rows, cells and notes",
  why="Tests combine a few attribute groups on a few constructs.",
  files=[BLOCK,PARSER,TABLE,SN], mechanism="one parser of attribute signatures shared by all constructs, and quoting of values",
  technique="model-based generation (tree oracle) and fuzzing with hostile values (whitelist oracle)",
  note=GEN)

P(id="C20", title="Typography is applied to running text, and only there",
  statement="Quotes are curled by their position, apostrophes, dashes, ellipses, dimension signs, trademark, registered, copyright, fraction, degree and plus-minus signs are replaced, words of capitals are marked and acronyms get their definitions, wherever running text stands, in both modes. Texts close to those forms are left alone, and nothing is replaced in code, literal text, addresses, titles or alternative texts.",
  over=["inputs","configurations"], forall="all combinations of typographic forms with words, phrases, brackets and punctuation in all text-holding constructs",
  why="Tests show each form once or twice, alone.",
  files=[PARSER,SN], mechanism="an ordered list of regular-expression replacements applied between tags",
  technique="model-based generation of sentences from forms with known results, tree oracle",
  note=GEN)

P(id="C21", title="Raw HTML passes through unchanged where it is allowed",
  statement="Outside restricted mode, tags with their attributes and comments written in a text are in the output as written while Textile in the text around and between them is converted; a block in a tag of its own gets no paragraph unless the tag is a phrasing one; the content of code and pre tags is escaped. With raw blocks enabled, a block wrapped in a tag that is neither a block nor a phrasing tag is left as is.",
  over=["inputs","configurations"], forall="all inline, block and unknown tags, attribute values without Textile phrases, comments of any content, in paragraphs, lists, tables and quotations, with raw blocks on and off",
  why="Tests have a few raw tags; the raw blocks setting has no test.",
  files=[PARSER,HT,SN], mechanism="tags are split from text before typography, comments are shelved, and blocks are classified by the tag they are wrapped in",
  technique="model-based generation of mixed HTML and Textile against a tree oracle",
  note=GEN)

P(id="C22", title="Line-end styles and blank-line spacing do not change the result",
  statement="CR LF and CR line ends give the same output as LF; white space in blank lines and newlines before and after the text have no effect; and the number of blank lines between blocks does not change the blocks.",
  over=["inputs","configurations"], forall="all texts that are not blank, under all settings; for the number of blank lines, all generated documents without extended blocks",
  why="The fixtures use LF and single blank lines almost everywhere.",
  files=[PARSER], mechanism="normalisation of newlines before anything else, and the splitting into blocks",
  technique="metamorphic fuzzing: equal outputs for rewritten line ends and blank lines",
  note=GEN)

P(id="C23", title="XHTML and HTML5 outputs differ only in the documented ways",
  statement="For every text the XHTML and HTML5 outputs are the same but for the form of line breaks, the element of acronyms and, unless set explicitly, the way images are aligned (an attribute in XHTML, a class in HTML5); and each uses its own form only.",
  over=["inputs","configurations"], forall="all texts under all other settings without the sanitizer",
  why="Tests compare either flavour with fixed outputs for different documents.",
  files=[PARSER,BLOCK,TABLE], mechanism="the flavour is consulted where line breaks, acronyms and image alignment are written",
  technique="differential fuzzing of the two flavours",
  note=GEN)

P(id="C24", title="Independent blocks do not influence one another",
  statement="The conversion of texts separated by blank lines is the concatenation of their separate conversions, as long as they do not use the features meant to reach other blocks (extended blocks, notes and footnotes, link aliases, continued lists).",
  over=["inputs","histories","configurations"], forall="all sequences of such texts, well-formed or not, under all settings with block tags on and no sanitizer",
  why="Tests convert documents one at a time and never compare a document with its parts.",
  files=[PARSER,BLOCK,TABLE], mechanism="state carried between blocks: the extension, the shelf, counters, tokens",
  technique="metamorphic fuzzing: the conversion of a concatenation against the conversions of the parts",
  note=GEN)

P(id="C25", title="Image sizes are those of the images, and failures change nothing",
  statement="With image sizes on, each absolute image is asked for once and gets the width and height of the image its own address serves, however the answer is split up; when the address cannot be reached, answers with an error, is cut off or is not an image, the output is the same as with sizes off. With sizes or images off nothing is asked for, and only a small part of an endless answer is read.",
  over=["inputs","fault_sequences","configurations"], forall="all documents with images, image formats and sizes, fragmentations of the answer and faults of the server",
  why="The only test needs the public Internet and checks one icon.",
  files=[PARSER], mechanism="a bounded read of the answer in pieces, tried after each piece",
  technique="fault-injecting property test against a loopback HTTP server owned by the harness",
  note=GEN+" Faults are drawn from eleven kinds; redirects are followed by the HTTP library, which is trusted.")
