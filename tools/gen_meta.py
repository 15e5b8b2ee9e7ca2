#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/spex/"
J = S + "jsonspec/"
X = J + "extractors/"
H = S + "htmlspec/"
W = "src/spexsrv/application/"

P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=(), observe=("model JSON",), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext},
      why_tests_cant=why,
      anchors={"files": list(files), "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
               "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None},
      _technique=technique, _note=note))

prop("C01", "Value tables are extracted completely, in order and verbatim",
 "For every figure whose header names a value (or code) column, the model holds one entity of type values whose entries correspond one to one, in table order, to the data rows of the figure, each carrying the text of that row's value cell, trimmed and lower-cased. A row consisting of an ellipsis becomes an elided entry; a repeated header row, and everything from a row spanning the table that starts with 'Notes:' on, contributes nothing.",
 "all value tables: any number of rows, any value text (hex, binary, decimal, ranges, arbitrary words, XML-special and non-ASCII characters, duplicates), any column layout, ellipsis / notes / header rows anywhere",
 "the tests extract five tables of the NVMe base specification and three hand-written ones of at most three rows; they cannot cover every mix of row kinds, positions and texts",
 [X+"valuetable.py", J+"rowiter.py", X+"figure.py"],
 [("row loop of the value table extractor", X+"valuetable.py"), ("row iteration with spans", J+"rowiter.py")],
 technique="property-based testing: generated tables against a reference model")

prop("C02", "Bit and byte structures are extracted completely with exact ranges",
 "For every figure whose header names a bits or bytes column, the model holds one entity of that type with exactly one field per data row, in ascending offset order (bit tables list rows from high to low and are reversed), whose inclusive low and high bounds are the numbers of the row's 'high:low' or single-offset text. Reserved and obsolete rows stay as fields of that name, elided rows stay as elided fields, an offset text that is no plain number or number pair is kept verbatim instead of being turned into numbers, and comment rows spanning the table, header rows, rows whose offset cell is itself an ellipsis, and everything from a 'Note' row on add no field.",
 "all bit and byte tables: any number of rows, offsets up to 10^12, any spacing or zero padding of the offset text, formulas, reserved / obsolete / elided / comment / note / header rows anywhere",
 "the tests check eight concrete tables; the claim is about every row mix, offset and position",
 [X+"structtable.py", X+"regular_expressions.py", J+"rowiter.py"],
 [("row loop and range parsing of the struct table extractor", X+"structtable.py"), ("range patterns", X+"regular_expressions.py")],
 technique="property-based testing: generated tables against a reference model")

prop("C03", "Field names of structures come from the acronym, else from the name",
 "In bit and byte tables, a field described as 'Name (ACRONYM): text' is named by the acronym, and one without an acronym by the initials of the words before the colon, in both cases lower-cased and with spaces and hyphens as underscores. If the table has a separate attribute column, the field is named by the text before that cell's colon or, lacking a colon, by the initials of its words, the latter reported as an imputed label; names which are not plain identifiers are still produced but reported as containing invalid characters.",
 "all names of 1..8 words including digits, commas, dots, slashes, ampersands and non-ASCII letters, all acronyms of letters, digits, underscores and spaces, with and without brief, both column layouts",
 "the label tests cover four sample texts",
 [X+"structtable.py", X+"helpers.py", X+"regular_expressions.py"],
 [("label extraction, same or separate column", X+"structtable.py"), ("label normalisation and validation", X+"helpers.py")],
 technique="property-based testing: generated names against a reference naming function")

prop("C04", "Names of values come from the leading name of their description",
 "In value tables, an entry is named by the leading name of its description (letters, digits, spaces, hyphens and slashes, up to the first other character such as a colon or parenthesis), upper-cased with spaces and hyphens as underscores (one for two in a row) and slashes removed, a leading number being moved to the end; a row described as just 'Reserved' is named RESERVED. If the table has a separate attribute column the same holds for that cell's text before its first colon, and a missing colon there is reported as an imputed label; names which are not plain identifiers are still produced but reported as containing invalid characters.",
 "all names of 1..8 words with digits, hyphens and slashes, leading numbers, trailing acronyms and briefs, both column layouts",
 "the label tests cover four sample texts",
 [X+"valuetable.py", X+"helpers.py", X+"regular_expressions.py"],
 [("label extraction of value tables", X+"valuetable.py"), ("moving leading numbers, normalisation, validation", X+"helpers.py")],
 technique="property-based testing: generated names against a reference naming function")

prop("C05", "Briefs are the text after the name, whole or its first sentence",
 "The brief of a field or value is the description text following 'Name:' or 'Name (ACRONYM):', without the trailing period, when that is at most 60 characters; otherwise it is the text up to the first period if that is at most 60 characters, and else there is no brief. A description without a colon has no brief, nor have reserved, obsolete or elided rows.",
 "all description texts of 0..200 characters, with boundaries at 59, 60 and 61 characters, any number of sentences, further colons, several paragraphs, both table kinds",
 "the tests check two short briefs; the length boundary and sentence splitting are untested",
 [X+"helpers.py", X+"regular_expressions.py", X+"structtable.py", X+"valuetable.py"],
 [("brief extraction", X+"helpers.py")],
 technique="property-based testing: generated texts against a reference function, boundary-biased lengths")

prop("C06", "A cell spanning rows counts for each of the rows it spans",
 "Extracting a table with cells spanning several rows gives the same entities and lint as extracting the table where such a cell is repeated in every row it spans. This holds for any column, for several overlapping spans, and inside nested tables.",
 "all tables with up to 8 columns and any set of vertical spans over data rows, including adjacent, staggered and multi-column-overlapping spans and spanned cells holding nested tables' siblings",
 "no test has a cell spanning rows; correctness depends on the interplay of spans across rows",
 [J+"rowiter.py", X+"structtable.py", X+"valuetable.py"],
 [("re-insertion of spanning cells", J+"rowiter.py")],
 technique="metamorphic property-based testing: merged table versus its expansion")

prop("C07", "Tables nested in descriptions become linked entities of their own",
 "Each table nested directly in the description cell of an extracted, named row becomes an entity of its own, whose id is the id of the enclosing figure or nested table, an underscore, and the row's value (value tables) or low offset (structures), which names the enclosing one as its parent and has no title. It precedes its enclosing entity in the model, nested entities appear in row order, nesting works to any depth, the enclosing row keeps its own name and its range or value, and tables nested in other columns, or in the items of a list, are ignored.",
 "all trees of nested tables up to depth 4, in any row of any table kind, combined with every row kind",
 "one test has a nested table, at depth one",
 [X+"figure.py", X+"structtable.py", X+"valuetable.py", J+"document.py"],
 [("sub table extraction", X+"figure.py"), ("recursion into the document parser", J+"document.py")],
 technique="property-based testing: generated table trees against a reference model")

prop("C08", "Every captioned table is either extracted or accounted for",
 "Every top-level table of the document whose first row contains 'Figure' yields, in document order, either an entity with the caption as title and the word after 'Figure' as id, or exactly one lint entry saying that the id could not be read from the caption, that the table's columns were not recognised (listing them), or that extracting it failed. Tables without such a caption yield neither, and a table merely wrapped in the first cell of another table is treated as if it were not wrapped.",
 "all documents of 0..12 tables mixing value, bit, byte, unrecognised, caption-less, wrapped, id-less and broken tables in any order, with arbitrary captions and ids",
 "tests use single-figure documents or fixed specifications whose result is not checked for completeness",
 [J+"document.py", X+"figure.py", J+"lint.py"],
 [("figure iteration", J+"document.py"), ("extractor selection", J+"document.py")],
 technique="property-based testing: accounting invariant over generated documents")

prop("C09", "Column roles follow from headers, wherever the columns are",
 "Which columns provide value or offset, name and description depends only on the normalised header text: letter case and the amount and kind of white space do not matter (an attribute column, if any, preceding the description), and 'code', 'bit' and 'byte' are read as 'value', 'bits' and 'bytes' with one lint entry giving the header found and the one expected. The order of the recognised columns and any additional columns do not change the extracted entity; where several columns could provide the same, the first of them does.",
 "all permutations of the recognised headers with 0..4 additional columns in any position, any letter case and white space, all three table kinds including separate attribute columns",
 "tests only have the standard header order without extra columns",
 [J+"document.py", X+"structtable.py", X+"valuetable.py", X+"figure.py"],
 [("header normalisation", J+"document.py"), ("column mapping", X+"figure.py")],
 technique="metamorphic property-based testing: column permutations and header spellings, plus reference model")

prop("C10", "Overlaps, gaps and wrong row order in structures are reported exactly",
 "For a structure listed in the right order (bytes ascending, bits descending), every field starting at or before the end of its predecessor is reported as overlapping and every field starting later than directly after it as leaving a gap, identified by figure and low offset, and nothing else is reported. A structure with a field starting before its predecessor gets exactly one wrong-row-order entry instead, and comparisons never cross an elided field or an offset that could not be parsed.",
 "all sequences of fields with arbitrary integer ranges, elided rows and unparseable offsets, both table kinds, top-level and nested",
 "no test asserts any layout lint",
 [X+"structtable.py", J+"lint.py"],
 [("field validation", X+"structtable.py")],
 observe=("lint section of the model JSON",),
 technique="property-based testing: generated layouts against an independent interval checker")

prop("C11", "Bad cells, duplicates and imputed names are reported exactly",
 "The lint section holds exactly one entry per repeated field name within a value table or a structure listed in the right order, per repeated value, per offset which is neither a number nor a 'high:low' pair, and per offset pair written in reverse, each naming the figure and the row; reserved and elided rows are never duplicates. Figures free of such defects get no such entry.",
 "all tables with any number of injected duplicates, bad and reversed offsets among clean rows, top-level and nested",
 "no test asserts any of these lint codes",
 [X+"structtable.py", X+"valuetable.py", X+"helpers.py", J+"lint.py", J+"document.py"],
 [("field validation", X+"structtable.py"), ("value validation", X+"valuetable.py"), ("lint collection", J+"document.py")],
 observe=("lint section of the model JSON",),
 technique="property-based testing: fault injection into generated tables against a reference linter")

prop("C12", "Ignoring lint codes only filters the lint section",
 "Ignoring a set of lint codes removes exactly the entries with those codes from the lint section of the model; the remaining entries with their order and content, all entities and all other metadata are the same as without ignoring anything. This holds for the command line option, any letter case and spacing of its comma-separated list, and for the programming interface.",
 "all subsets of the lint codes, all documents (generated ones and the example specifications)",
 "no test passes codes to ignore",
 [S+"parse.py", S+"__main__.py", J+"lint.py", J+"parserargs.py"],
 [("lint filter", S+"parse.py"), ("option parsing", S+"__main__.py")],
 over=("inputs", "configurations"), observe=("model JSON",),
 technique="metamorphic property-based testing: run with and without ignored codes")

prop("C13", "A broken figure is skipped alone, or stops the run when not skipping",
 "With skipping enabled, a figure that cannot be extracted costs exactly that figure: it gets one parse-error entry (naming the figure or the nested table that failed) and every other figure is extracted, with its lint, exactly as in the document without it. With skipping disabled the run fails, yet the output file is valid JSON holding all entities before the broken figure.",
 "all documents with any number of broken figures at any position, broken at any row, at top level or in a nested table, under both settings",
 "the only run over documents with errors checks its exit code",
 [J+"document.py", S+"parse.py", S+"writer.py", X+"structtable.py"],
 [("error containment per figure", J+"document.py"), ("writing on error", S+"writer.py")],
 over=("inputs", "fault_sequences", "configurations"),
 technique="property-based testing with fault injection; metamorphic comparison with the clean document")

prop("C14", "The model JSON is well-formed, schema-valid and complete in its metadata",
 "Each successful run writes one UTF-8 JSON file that conforms to the published model schema (the known finding on value tables without entries aside), retains non-ASCII text as is, and carries the specification title and revision (lower-cased), format version, tool version and lint list. Every lint entry has a known code with a message, a non-empty figure and a context, and codes about ranges, labels or values also name a row; validation on the command line accepts exactly the files which conform.",
 "all generated documents with every row and figure kind, dynamic lists included, arbitrary titles and revisions, and the example specifications",
 "no test validates any output",
 [S+"writer.py", S+"parse.py", S+"validate.py", S+"resources/stage2.schema.json", J+"lint.py"],
 [("JSON writer", S+"writer.py"), ("model schema", S+"resources/stage2.schema.json"), ("lint entry invariants", J+"lint.py")],
 technique="property-based testing: schema and invariant validation of generated models")

prop("C15", "Figures and documents are processed independently and repeatably",
 "The entities and lint of a document are the concatenation of those of its figures processed in separate documents, so reordering figures reorders the output accordingly (the running numbers of figures without id aside), and no figure or document processed before influences another. Processing the same input again, in the same or another process, alone or along with other inputs, gives byte-identical output files.",
 "all documents split or permuted in any way, all orders of several documents (HTML or docx) in one process, repeated runs under different hash seeds",
 "tests look at one document at a time, once",
 [J+"document.py", S+"parse.py", S+"writer.py", X+"figure.py", J+"rowiter.py"],
 [("per figure state", J+"document.py"), ("linter per document", J+"document.py")],
 over=("inputs", "histories"),
 technique="metamorphic and stateful property-based testing: splitting, permuting, repeating")

prop("C16", "Presentation of the HTML model does not affect the extracted model",
 "Splitting text into differently styled spans, adding classes, ids or other attributes, white space between elements or around texts (other than between several paragraphs of one cell), comments, and switching caption cells between header and data cells do not change the extracted entities or lint.",
 "all documents, all ways of re-rendering the same content",
 "tests have one rendering per table",
 [J+"document.py", J+"rowiter.py", S+"xml.py", X+"structtable.py", X+"valuetable.py"],
 [("text extraction", S+"xml.py"), ("header and row queries", J+"document.py")],
 technique="metamorphic property-based testing: two renderings of one document")

prop("C17", "Converting a docx keeps the text of its tables, character for character",
 "For every table of a docx document, the HTML model has the same table with every cell's paragraphs in order and exactly their text, including text in hyperlinks, simple fields, tracked insertions and content controls and text split over any number of runs, with XML-special characters properly escaped so that the file is well-formed. Empty paragraphs and deleted text are left out, a tab, line break or newline in a run reads as a space, and a non-breaking hyphen as a hyphen.",
 "all tables with any number of paragraphs, runs, hyperlinks and fields per cell and any text of XML characters",
 "no docx file is part of the tests; the whole stage is untested",
 [H+"parser.py", H+"htmlrenderer.py", H+"docx/document.py"],
 [("span extraction", H+"parser.py"), ("escaping", H+"htmlrenderer.py")],
 observe=("HTML model",),
 technique="property-based testing: generated docx files, HTML parsed back and compared")

prop("C18", "Converting a docx keeps table structure, merged cells and header cells",
 "The tables of a docx document appear in the HTML model in order, nested tables inside their cell, each with the same rows and cells: horizontally and vertically merged cells appear once with the corresponding column and row span. A cell is a header cell exactly when its shading is a grey other than white, other colours are kept as background colour, and a table whose first cell starts with 'Figure <number>:' is identified by that number.",
 "all grids up to 8x8 partitioned into rectangles in any way, any shading, nested to any depth",
 "no docx file is part of the tests",
 [H+"docx/tablewrap.py", H+"parser.py", H+"htmlrenderer.py", H+"css.py"],
 [("merge resolution", H+"docx/tablewrap.py"), ("cell and header detection", H+"parser.py"), ("table rendering", H+"htmlrenderer.py")],
 observe=("HTML model", "CSS file"),
 technique="property-based testing: generated docx grids, HTML parsed back and compared")

prop("C19", "Converting a docx keeps text formatting",
 "Each run of text in a docx table is rendered with exactly the bold, italic, underline, strikethrough, colour and vertical alignment that result from its character style, the styles that one is based on, and its own settings, the more specific overriding the more general and explicit 'off' values switching off. Runs with the same formatting share a style and differently formatted ones never do.",
 "all style inheritance chains with aliases, all combinations and spellings of the settings, any number of runs",
 "no docx file is part of the tests",
 [H+"docx/runproperties.py", H+"docx/styles.py", H+"docx/document.py", H+"css.py", H+"htmlrenderer.py"],
 [("property merging", H+"docx/runproperties.py"), ("style resolution", H+"docx/styles.py"), ("style naming", H+"css.py")],
 observe=("HTML model", "CSS file"),
 technique="property-based testing: generated style sheets, rendered CSS resolved and compared")

prop("C20", "Converting a docx keeps lists, their nesting and kind",
 "Consecutive list paragraphs of a docx table cell become one HTML list with the same items and the same nesting by indentation level, ordered exactly when the level's numbering text starts with a placeholder, and with the marker style of its number format in the CSS. Ordinary paragraphs (those whose list or level is not defined included), tables and paragraphs of another list end a list, bookmarks do not, and nothing is lost, duplicated or reordered.",
 "all sequences of list items of several lists at levels 0..8 mixed with paragraphs and nested tables",
 "no docx file is part of the tests",
 [H+"parser.py", H+"docx/numbering.py", H+"htmlrenderer.py"],
 [("list parsing", H+"parser.py"), ("numbering definitions", H+"docx/numbering.py"), ("list rendering", H+"htmlrenderer.py")],
 observe=("HTML model", "CSS file"),
 technique="property-based testing: generated lists, HTML parsed back and compared")

prop("C21", "A docx yields the same model as its HTML, named after the input",
 "Processing a docx document gives the model that its tables describe, the same as processing the HTML file written along the way. The HTML, CSS and JSON files carry the input's name, and the title and revision in the model are those of the document's page header: the text before its first comma and the word (up to white space) after 'Revision', whatever characters they or the file name contain.",
 "all documents expressible as docx, arbitrary titles, revisions and file names",
 "no docx file is part of the tests",
 [S+"parse.py", H+"htmlrenderer.py", H+"docx/header.py", J+"parse.py", S+"writer.py"],
 [("two stage pipeline", S+"parse.py"), ("page header", H+"docx/header.py"), ("HTML head", H+"htmlrenderer.py")],
 observe=("HTML model", "CSS file", "model JSON"),
 technique="differential property-based testing: docx versus HTML path versus reference model")

prop("C22", "The command line processes all inputs or fails visibly",
 "The command exits with status 0 only if every input was processed and its output written to the given directory, which is created if missing, or else the current one; multiple inputs give the same files as separate runs. An input that is missing, of the wrong type, malformed or (without skipping) holds a figure that cannot be extracted gives a non-zero status; when processing stops at an input, outputs of the earlier ones are complete, and input files are never modified.",
 "all sequences of 1..5 good and bad inputs, output directory present, missing, nested or omitted, all option spellings",
 "one test runs the command on the examples and checks its status",
 [S+"__main__.py", S+"parse.py", S+"writer.py", J+"parserargs.py", S+"validate.py"],
 [("argument handling and exit status", S+"__main__.py")],
 over=("inputs", "configurations", "fault_sequences"), observe=("exit status", "output directory"),
 technique="property-based testing: generated command lines against a reference model of the outcome")

prop("C23", "Each report URL of the web service keeps serving its own document",
 "Whatever documents are uploaded in whatever order, under equal or different names, concurrently or again, the report, JSON and HTML links issued for a document serve the content derived from exactly that document, the JSON being the same as the command line's with figures skipped on error. Unknown report ids are answered with 'not found'.",
 "all histories of uploads, re-uploads, interleaved requests and lookups, documents sharing names or content",
 "the web service has no tests",
 [W+"app.py", W+"report_view.py", S+"parse.py"],
 [("report cache", W+"app.py")],
 over=("histories",), state=[("report lookup", "maps the hash of an upload to its stored model", W+"app.py")],
 observe=("HTTP responses",),
 technique="stateful model-based property testing of the web service")

prop("C24", "Uploads cannot write outside the service's own temporary directories",
 "Whatever file name a client supplies with an upload, including absolute paths and parent directory components, no file outside the service's temporary directories is created, changed or removed. The upload's own temporary files are gone once its response has ended, whether processing succeeded or failed.",
 "all file names built from path components, separators, dots and special characters, with valid, broken and non-document content",
 "the web service has no tests",
 [W+"app.py"],
 [("handling of client file names", W+"app.py"), ("cleanup of the upload's directory", W+"app.py")],
 over=("inputs", "histories"), observe=("file system",),
 technique="property-based testing: generated file names, file system snapshot before and after")

prop("C25", "The web service reports progress and completion truthfully",
 "A valid upload is answered with an event stream of progress updates whose indices count up from 0 for each phase (one per table converted, for docx only, then one per entity extracted), followed by exactly one completion event with the report's URL. The report page and its self-contained variant embed the model, and the tables of figures with lint entries, such that no document content can escape from the script block. Requests lacking the document or not accepting an event stream are refused with a client error, and a document that cannot be processed never yields a completion event or a report.",
 "all documents, including titles and texts with script and markup fragments, and all malformed requests",
 "the web service has no tests",
 [W+"app.py", W+"report_view.py", "src/spexsrv/templates/report.html", S+"parse.py"],
 [("event stream", W+"app.py"), ("report rendering", W+"app.py"), ("progress", S+"parse.py")],
 observe=("HTTP responses",),
 technique="property-based testing: generated uploads, event stream and page parsed and checked")

prop("C26", "Dynamic lists in structures keep their formulas as ranges",
 "In a structure, the named rows after a header row that spans columns and announces a 'List' have their offset 'a:b' kept as a range with the text a as high bound and b as low bound, white space removed; an offset not of that form is kept as text and reported as invalid. Rows before it and other figures keep numeric ranges, and header rows that do not announce a list change nothing.",
 "all structures with zero or more list announcements at any row, arbitrary formulas over digits, letters, + - * and parentheses",
 "one test has a dynamic list, of one shape",
 [X+"structtable.py", J+"queries.py", X+"regular_expressions.py"],
 [("dynamic mode", X+"structtable.py"), ("list announcement query", J+"queries.py")],
 technique="property-based testing: generated tables against a reference model")

prop("C27", "Corrections for known specifications apply to exactly those",
 "The built-in corrections (names given by hand and reported as overridden, a figure glued to the end of its predecessor being separated, an ignorable comment row) apply exactly to the specification title and revision they are meant for, title and revision compared without regard to letter case. Any other document with the same figures is processed by the general rules, and a corrected specification differs from that only in the corrected figures.",
 "all documents re-labelled with every known and unknown combination of title and revision, generated figures carrying the affected ids and rows, and the example specifications",
 "tests run the examples without checking what corrections do",
 [J+"quirks/__init__.py", J+"quirks/nvm.py", J+"quirks/mi.py", J+"quirks/kv.py", J+"quirks/zoned.py", J+"parse.py"],
 [("selection by title and revision", J+"parse.py"), ("corrections", J+"quirks/nvm.py")],
 over=("inputs", "configurations"),
 technique="metamorphic property-based testing: same figures under different titles and revisions")

prop("C28", "Any HTML model is processed to a valid model when skipping errors",
 "With skipping enabled, every well-formed HTML model with title and revision, however odd its tables (missing, extra, empty or spanning cells, stray headers, arbitrary text and nesting), is processed to the end without failing, giving a schema-valid model (value tables without entries aside) in which each captioned table is accounted for. Damaging one figure never changes the result of the others.",
 "all well-formed documents: random table soup and the 1150 tables of the example specifications under random mutations of cells, rows, spans, tags and texts",
 "tests only use well-formed real figures",
 [J+"document.py", X+"structtable.py", X+"valuetable.py", J+"rowiter.py", S+"parse.py"],
 [("error containment", J+"document.py")],
 technique="structured fuzzing and corpus mutation with invariant oracles")

prop("C29", "The log file holds one JSON object per entry, errors included",
 "Each run of the command replaces the log file in the working directory by one in which every line is a JSON object with level, message and source location. Each figure that failed to be extracted is logged with its id and the exception, its message, stack frames and cause, for any content of the document.",
 "all documents with any number of broken figures and arbitrary text, with and without skipping, repeated runs in the same directory",
 "no test looks at the log",
 [S+"log/_log_config.py", J+"document.py", S+"__main__.py"],
 [("log file serialisation", S+"log/_log_config.py")],
 observe=("spex.log",),
 technique="property-based testing: command runs on generated broken documents, log parsed and checked")

prop("C30", "The report page shows every lint entry, by code and by figure",
 "The report page, served or self-contained, shows title and revision, and in its summary one row per lint code with its message and number of entries, most frequent first, and their total; its other tab shows each figure with lint entries once, with its table if the HTML model has one of that id, and its entries in order with row, message, code and context. Clicking codes restricts the figures shown to entries of the marked codes, clicking one again or clearing the filters undoes that, in any sequence. All texts and ids are shown verbatim, never as markup.",
 "all documents with any lint entries, ids and texts (script and markup fragments included), and all sequences of clicks",
 "no test runs the page",
 ["src/spexsrv/templates/report.html", "src/spexsrv/templates/base.html", W+"app.py", W+"report_view.py"],
 [("report page script", "src/spexsrv/templates/report.html"), ("embedded data", W+"app.py")],
 observe=("rendered page",), over=("inputs", "histories"),
 technique="stateful property-based testing: the page run in a small browser, click sequences against a model")

prop("C31", "The upload page shows progress and leads to the report",
 "Submitting the upload page's form sends the chosen file as field 'document' to the parse address; while the event stream arrives, the page shows the progress last reported for each phase, and once it has ended the page moves to the report's address. This holds however the stream is cut into pieces on its way. A refused or broken-off upload never leads to a report.",
 "all event streams of generated uploads, cut anywhere into any number of pieces, refused, or broken off",
 "no test runs the page",
 ["src/spexsrv/templates/upload-form.html", "src/spexsrv/templates/base.html", W+"app.py"],
 [("upload page script", "src/spexsrv/templates/upload-form.html"), ("event stream", W+"app.py")],
 observe=("rendered page", "HTTP requests"), over=("inputs", "schedules"),
 technique="property-based testing: the page run in a small browser, fed generated cuts of real event streams")

prop("C32", "Results do not depend on the environment",
 "For the same inputs, the files written, their bytes, the exit status and the entries of the log are the same whatever the locale and character encodings of the environment, the hash seed, the time zone, the working directory, the verbosity and debugging settings, and the files of earlier runs in the output directory. The same holds for the event streams and pages of the web service. Files are read and written as UTF-8 throughout.",
 "all documents with characters beyond ASCII, in any environment: ASCII and UTF-8 locales, standard streams of other encodings, all hash seeds, time zones, verbosity and debug settings, old files present",
 "the tests run in the one environment of whoever runs them",
 [S+"writer.py", S+"validate.py", J+"parse.py", H+"htmlrenderer.py", S+"log/_log_config.py", W+"app.py"],
 [("model file", S+"writer.py"), ("HTML and CSS files", H+"htmlrenderer.py"), ("log configuration", S+"log/_log_config.py")],
 observe=("output files", "exit status", "spex.log", "HTTP responses"), over=("inputs", "configurations"),
 technique="property-based testing: the command and the service run in generated environments, compared byte by byte with a plain one (differential)")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "vlib", "props", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                technique=p["_technique"], level="exploration",
                level_note=p["_note"] or "Holds on every generated case of the run; says nothing about inputs outside the generated families. Trusts Hypothesis, lxml and the independent reference code in /verif/vlib."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks are property-based tests or fuzzers driven by Hypothesis from VERIF_SEED; see DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False); fh.write("\n")

main()
