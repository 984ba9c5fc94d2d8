"""Generates /verif/properties.jsonl (kept as code so the anchors stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
F = "openformats/formats/"; U = "openformats/utils/"

prop("C01", "JSON key-value: compile(parse(x)) reproduces the file exactly",
 "For every JSON key-value document the parser accepts, compiling the template it returned with the strings it returned gives back the input character for character (for a pluralised string: the same forms in the normal layout). The template is the input with every extracted string replaced, in order, by its own placeholder, and each placeholder occurs exactly once.",
 ["inputs"], "every accepted document: any nesting of objects/lists, any key/value characters, any whitespace, any non-string leaves",
 "Tests compile one sample file and a few literals; the property is about every key, value, whitespace and nesting combination.",
 [F+"json.py", U+"json.py", "openformats/transcribers.py"],
 [("position-tracking tokenizer", U+"json.py DumbJson"), ("extract / insert passes", F+"json.py JsonHandler._extract/_insert")],
 ["JsonHandler.parse", "JsonHandler.compile"])
prop("C02", "JSON tokenizer agrees with standard JSON on values, positions and errors",
 "Iterating a JSON container through the position-tracking tokenizer yields exactly the entries a standard JSON reader finds, in order, each with its decoded key and its value, and every reported position points at the place of that key or value in the source. Text that is not valid JSON is rejected by the handler with a parse error and by the tokenizer with a value error, never with any other exception. Looking up keys finds the entry with that key or reports that there is none.",
 ["inputs"], "every text; every nesting of containers, strings with escapes, numbers, literals and whitespace",
 "Tests use some thirty literals; tokenizer bugs hide in escape parity, whitespace placement and nesting.",
 [U+"json.py"], [("symbol search with backslash parity", U+"json.py DumbJson._find_next"), ("value recogniser", U+"json.py DumbJson._process_value")],
 ["DumbJson.__iter__", "DumbJson.find_children", "DumbJson.end"])
prop("C03", "JSON string escaping and unescaping follow the JSON standard",
 "Escaping any text and putting it between double quotes yields a JSON string literal that decodes to that text. Unescaping the body of any valid JSON string literal yields the text the JSON standard gives it, including every backslash escape, unicode escapes and surrogate pairs; so unescaping an escaped text returns the original.",
 ["inputs"], "every text over all of Unicode (lone surrogates excluded)",
 "Tests try a handful of literal escapes; the law must hold for every character and every adjacency of backslashes.",
 [U+"json.py"], [("escape generator", U+"json.py _escape_generator"), ("unescape generator", U+"json.py _unescape_generator")],
 ["escape", "unescape"])
prop("C04", "JSON extraction is complete, correctly keyed and rejects duplicates",
 "Every string leaf of an accepted JSON document whose text is not blank is reported exactly once, in document order, with its raw value and a key that spells its path (object keys joined by dots, list positions as '..i..', dots and backslashes inside keys escaped); nothing else is reported. Two entries of a document never share a key: duplicate object keys, and paths that would spell the same key, are rejected with a parse error.",
 ["inputs"], "every accepted document of any nesting, every key text including dots, backslashes and digits",
 "Tests check a few nestings; key collisions depend on unusual key characters and combinations of levels.",
 [F+"json.py"], [("path key construction", F+"json.py JsonHandler._extract"), ("key escaping", F+"json.py JsonHandler._escape_key")],
 ["JsonHandler.parse"])
prop("C05", "JSON: compiling a subset removes exactly the missing entries",
 "Removing strings from a JSON template and compiling with the others yields a valid JSON document equal to the source with exactly the entries of the missing strings removed (and the containers that become empty because of it), every other key, value and non-string leaf unchanged. Compiling with other texts changes only the values of those strings.",
 ["inputs", "histories"], "every accepted document, every subset of its strings, every replacement text",
 "Tests remove one or two hand-picked entries; comma/bracket clean-up depends on which subset is missing and where it sits.",
 [F+"json.py"], [("section removal and comma clean-up", F+"json.py JsonHandler._insert_*/_clean_empties")],
 ["JsonHandler.compile"])
prop("C06", "JSON template sync removes the missing and appends the new strings",
 "Synchronising a JSON template with a string list yields a template that is valid JSON and holds the placeholder of every listed string exactly once and of no other, kept entries first in their old order and then the new ones under their own key, every non-string entry unchanged. Compiling the synced template with the listed strings gives valid JSON holding exactly those strings, and parsing it reports them again.",
 ["inputs", "histories"], "every template/string-list pair: every subset removed, every added key/value, empty and list roots, one-line and multi-line layout",
 "Tests cover a few removals/additions; interactions of removal, clean-up and insertion point are combinatorial.",
 [F+"json.py", "openformats/handlers.py"], [("remove/add steps", F+"json.py remove_strings_from_template/add_strings_to_template")],
 ["sync_template"])
prop("C07", "ICU plurals: parse recognises exactly well-formed plurals, compile restores",
 "A JSON value of the form {variable, plural, rule {text} ...} with known rule names is reported as one pluralised string whose forms are the texts between the balanced braces; a value that starts like a plural but is not well formed is rejected with a parse error, and any other value is reported as an ordinary string. Compiling a pluralised string writes every form under its own rule name after the unchanged variable part, and parsing the result gives the same forms.",
 ["inputs"], "every variable name, rule subset and order, form text (including nested braces) and whitespace",
 "Tests try a few plural literals; brace nesting, whitespace and rule combinations are unbounded.",
 [U+"icu.py", F+"json.py"], [("plural grammar", U+"icu.py ICUParser"), ("plural writer", U+"icu.py ICUCompiler")],
 ["JsonHandler.parse", "JsonHandler.compile", "ICUParser.parse"])
prop("C08", "Structured JSON: metadata extraction and update are faithful",
 "For every accepted structured JSON document each entry with a non-blank 'string' is reported once with the context, developer comment and character limit of its sibling fields (a field of the wrong type is a parse error), and compiling with the same strings reproduces the input. Compiling with a changed context, comment or limit changes or inserts exactly that field of that entry, leaves valid JSON and leaves every other entry untouched.",
 ["inputs", "histories"], "every document shape, field order, field presence and field text",
 "Tests use fixed field orders; insertion/replacement positions depend on order, presence and escaping of fields.",
 [F+"json.py"], [("metadata blocks", F+"json.py StructuredJsonHandler")],
 ["StructuredJsonHandler.parse", "StructuredJsonHandler.compile"])
prop("C09", "ARB: metadata pairing, round trip and locale rewriting",
 "For every accepted ARB document each non-blank string whose key does not start with '@' is reported once with the context and description found in its '@key' sibling, before or after it, and compiling with the same strings gives the input back. When a language is given the '@@locale' value becomes that language and nothing else changes. When missing entries are to be removed, exactly the strings that are missing disappear and the result is valid JSON.",
 ["inputs", "histories"], "every order of keys and metadata, every text, every subset of strings, every language",
 "Tests use one sample; metadata may precede/follow, be partial or missing.",
 [F+"json.py"], [("metadata lookup and locale rewriting", F+"json.py ArbHandler")],
 ["ArbHandler.parse", "ArbHandler.compile"])
prop("C10", "Chrome i18n JSON: messages round trip and removal leaves valid JSON",
 "For every accepted Chrome messages document (both format versions) each non-blank 'message' is reported once under its entry's key with the entry's description, and compiling with the same strings reproduces the input. Compiling the version 3 format with only some strings yields valid JSON with exactly the missing entries gone and all others unchanged, whatever punctuation the texts and fields contain.",
 ["inputs", "histories"], "every order of fields, every text (commas, braces, quotes), every subset",
 "Tests remove single entries with tame text; removal scans the text for punctuation.",
 [F+"json.py"], [("entry handling", F+"json.py ChromeI18nHandler, ChromeI18nHandlerV3")],
 ["ChromeI18nHandler.parse", "ChromeI18nHandler.compile", "ChromeI18nHandlerV3.compile"])
prop("C11", "Line endings of the input are preserved by parse and compile",
 "If the input uses DOS line endings throughout, the template and the compiled output equal those obtained from the same input with UNIX endings with every line ending turned into a DOS one, and the extracted keys, strings and hashes are the same. Inputs with UNIX endings are never given carriage returns.",
 ["inputs"], "every text-based format handler and every document in either convention",
 "Tests only check one DOS sample in a few formats.",
 ["openformats/transcribers.py", U+"newlines.py", F+"srt.py", F+"vtt.py", F+"plaintext.py", F+"json.py", F+"android.py"],
 [("newline detection and enforcement", U+"newlines.py"), ("destination rendering", "openformats/transcribers.py Transcriber.get_destination")],
 ["parse", "compile", "Transcriber.get_destination"])
prop("C12", "Transcriber: output is exactly what was copied and added; sections vanish",
 "After any sequence of copies, skips and additions the destination is the concatenation, in order, of the copied source spans and the added texts, and the reported line number is one plus the number of newlines passed. Removing a section removes exactly the text between its start and end marks, namely those of the innermost section that is still marked, and leaves everything else, however many other sections there are.",
 ["histories", "inputs"], "every source text and every sequence of operations and offsets",
 "Tests run a few fixed call sequences.",
 ["openformats/transcribers.py"], [("copy/skip/section bookkeeping", "openformats/transcribers.py Transcriber")],
 ["Transcriber"])
prop("C13", "String identity: hash depends exactly on key and context",
 "Two strings with the same key and context always get the same hash; strings that differ in key or in context (neither containing a colon) get different hashes, regardless of value, order or other attributes. The placeholder is the hash with a suffix that tells pluralised strings from plain ones; a string given several plural forms is pluralised unless told otherwise.",
 ["inputs"], "every key, context, value and attribute assignment",
 "Tests compare a couple of literals.",
 ["openformats/strings.py"], [("hash construction", "openformats/strings.py OpenString._get_string_hash"), ("suffix", "openformats/strings.py OpenString.template_replacement")],
 ["OpenString.string_hash", "OpenString.template_replacement", "OpenString.pluralized"])
prop("C14", "Plural rule names and numbers map one to one",
 "The six plural rule names map one to one onto the numbers zero to five in the order zero, one, two, few, many, other, and the two lookups are inverse. Any other name or number is rejected with a rule error.",
 ["inputs"], "every text and every integer",
 "Tests try the valid values and one invalid value.",
 ["openformats/handlers.py"], [("lookup tables", "openformats/handlers.py Handler.get_rule_number/get_rule_string")],
 ["Handler.get_rule_number", "Handler.get_rule_string"])
prop("C15", "SRT: subtitles are extracted completely and compile to a normalised file",
 "For every accepted SRT file every subtitle is reported once, in order, keyed by its number, with its full text and its timings, and compiling with the same strings reproduces the file when its timings are written in full and single blank lines separate subtitles. Compiling with only some strings removes exactly the missing subtitles. No text makes the parser fail with anything but a parse error.",
 ["inputs", "histories"], "every subtitle text, number, timing, blank-line layout and subset",
 "Tests use one sample and some error literals.",
 [F+"srt.py"], [("section splitting and timing formatting", F+"srt.py SrtHandler")],
 ["SrtHandler.parse", "SrtHandler.compile"])
prop("C16", "SRT/VTT: malformed subtitle files are rejected with a parse error",
 "A subtitle with a missing or non-increasing number, a missing arrow, timings that are not colon-separated whole numbers with a fraction, or no text is rejected with a parse error (for SRT naming the right line). Valid timings are accepted and normalised to hours:minutes:seconds and milliseconds without changing the instant. No text makes the SRT or WebVTT parser fail with any other exception.",
 ["inputs"], "every text",
 "Tests check a list of malformed literals.",
 [F+"srt.py", F+"vtt.py"], [("validation", F+"srt.py _parse_section/_format_timing"), ("validation", F+"vtt.py _parse_section/_format_timing")],
 ["SrtHandler.parse", "VttHandler.parse"])
prop("C17", "WebVTT: cues are extracted completely; header, notes and styles are kept",
 "For every accepted WebVTT file every cue is reported once, in order, with its text and timing; the header and the comment, style and region blocks are kept verbatim, and compiling with the same strings reproduces the file. Compiling with only some strings removes exactly the missing cues with their identifiers and timings (for cues whose timing lines differ).",
 ["inputs", "histories"], "every cue text, identifier, timing, settings, non-cue block and subset",
 "Tests use one sample and some literals.",
 [F+"vtt.py"], [("section splitting", F+"vtt.py VttHandler")],
 ["VttHandler.parse", "VttHandler.compile"])
prop("C18", "Plain text: every non-blank line is one string; round trip is exact",
 "Every line of a text file (with one kind of line ending) that is not blank is reported once, in order, without its surrounding whitespace, blank lines are not, and compiling template and strings reproduces the file exactly. Changing one string changes only that line's text, keeping its surrounding whitespace.",
 ["inputs"], "every text",
 "Tests use a few samples; repeated and overlapping lines matter.",
 [F+"plaintext.py", U+"compilers.py"], [("line templating", F+"plaintext.py"), ("ordered replacement", U+"compilers.py OrderedCompilerMixin.compile")],
 ["PlaintextHandler.parse", "PlaintextHandler.compile"])
prop("C19", "PO: entries are extracted with unambiguous keys and restored on compile",
 "Every translated PO entry, or every entry of a template, is reported once with a key that determines its source text, plural text and context; distinct entries get distinct keys, duplicates are rejected with a parse error, and entries that are not reported (empty in a translated file, or fuzzy) stay out of the template. Compiling writes every translation into its own entry and leaves source texts, comments, contexts and header unchanged. No text makes the parser fail with anything but a parse error.",
 ["inputs"], "every source text, plural text, context and translation, including colons and backslashes",
 "Tests use a sample file; key ambiguity depends on colons and backslashes next to each other.",
 [F+"po.py"], [("key escaping and splitting", F+"po.py _escape_key/_unescape_key/_split_key_to_msgids"), ("entry smuggling", F+"po.py PoHandler")],
 ["PoHandler.parse", "PoHandler.compile"])
prop("C20", "PO template sync removes and adds exactly the right entries",
 "Synchronising a PO template with a string list removes exactly the entries whose strings are not listed and appends, at the end, one entry per new string whose source text, plural text and context are those encoded in the string's key. Compiling the synced template yields a PO file with exactly the listed strings.",
 ["inputs", "histories"], "every template and every string list, every key text",
 "Tests sync a couple of literals.",
 [F+"po.py"], [("remove/add", F+"po.py remove_strings_from_template/add_strings_to_template")],
 ["PoHandler.sync_template"])
prop("C21", "XML tokenizer positions partition the source; malformed XML is rejected",
 "Walking an XML document through the position-tracking tokenizer yields the root and every child element and comment with tag, attributes, text and tail, and the reported positions delimit exactly that raw text, so that the pieces put together rebuild the source. CDATA sections and comments are never read as tags. Unclosed, mismatched or truncated elements are rejected with the tokenizer's syntax error, and no text makes it fail with any other exception.",
 ["inputs"], "every text; every nesting of elements, attributes, comments, CDATA and text",
 "Tests use fixed literals.",
 [U+"xml.py", U+"xmlutils.py"], [("tokenizer", U+"xml.py NewDumbXml"), ("error translation", U+"xmlutils.py reraise_syntax_as_parse_errors")],
 ["NewDumbXml"])
prop("C22", "Android XML: compile(parse(x)) reproduces the file exactly",
 "For every accepted Android resource file compiling the returned template with the returned strings gives back the input exactly, apart from plural items that are not in the usual one-item-per-line layout. Every non-blank translatable string, array item and plural set is reported once, in order, with its name, product and preceding comment, and entries marked not translatable or left blank are kept as they are.",
 ["inputs"], "every resource document: names, products, texts, inline markup, comments, CDATA, whitespace",
 "Tests use one sample and some literals.",
 [F+"android.py", U+"xml.py"], [("element handlers", F+"android.py AndroidHandler")],
 ["AndroidHandler.parse", "AndroidHandler.compile"])
prop("C23", "Android XML: compiling a subset removes exactly the missing entries",
 "Compiling an Android template with only some of its strings yields a well-formed resource file in which exactly the missing strings, array items and plural sets are gone (a whole array when all its items are), together with the comments directly before them, and every remaining element, comment and attribute is unchanged. Changing a string's text changes only that element's content, and compiling for a language sets exactly the language attributes.",
 ["inputs", "histories"], "every document and every subset",
 "Tests drop a few hand-picked strings.",
 [F+"android.py"], [("compile pass", F+"android.py AndroidHandler._compile_*")],
 ["AndroidHandler.compile"])
prop("C24", "Android escaping and unescaping are inverse and produce safe content",
 "Unescaping the escaped form of a text returns that text: for the plain Android handler for every text without markup that does not already start with an escaped at-sign, for the handler of unescaped files for every text without backslashes. Escaping leaves no bare quote or apostrophe and no bare leading at-sign outside of tags; the handler of unescaped files also escapes ampersands, angle brackets, newlines, tabs, at-signs and question marks. Inline tags with their attributes are kept, and nothing else changes.",
 ["inputs"], "every text over Unicode with every adjacency of backslashes, quotes, newlines, entities and tags",
 "Tests try a dozen literals.",
 [F+"android.py", F+"android_unescaped.py", U+"xml.py"], [("escape/unescape", F+"android.py escape/unescape"), ("escape_special_characters/unescape", F+"android_unescaped.py")],
 ["AndroidHandler.escape", "AndroidHandler.unescape", "AndroidUnescapedHandler"])
prop("C25", "Android/stringsdict validation: malformed files raise parse errors only",
 "An Android resource file or strings dictionary that is malformed, has missing or duplicate names, unknown or missing plural rules, or text outside of entries is rejected with a parse error; so is one with some but not all plural forms blank. No text makes these parsers fail with any other exception.",
 ["inputs"], "every text and every structural defect",
 "Tests check a list of malformed literals.",
 [F+"android.py", F+"stringsdict.py", U+"xmlutils.py"], [("validation", F+"android.py"), ("validation", F+"stringsdict.py")],
 ["AndroidHandler.parse", "StringsDictHandler.parse"])
prop("C26", "Strings dictionary: plural variables are extracted and restored",
 "For every accepted strings dictionary each plural variable is reported once with its forms, with the format text around the variable included when the entry has one variable to show, and compiling with the same strings gives back a dictionary that shows the same texts, with every other entry unchanged. Compiling with only some strings removes exactly the missing variables or entries and leaves a well-formed dictionary. Unescaping an escaped text returns that text.",
 ["inputs", "histories"], "every key, variable, form text, format string and subset",
 "Tests use one sample and some literals.",
 [F+"stringsdict.py"], [("format string inlining", F+"stringsdict.py StringsDictHandler")],
 ["StringsDictHandler.parse", "StringsDictHandler.compile"])
prop("C27", "Customisable XML: base texts and variants round trip",
 "For every accepted customizable XML file, under the default and under configured tag and attribute names, every non-empty base text and variant of a string inside a section is reported once, in order, with the string's key (and the variant's name) and the section's name as context; texts outside of sections are not. Compiling the returned template with the strings gives back the same document, with DOS or Unix line endings, and changing one string changes only that element's content. Files that are malformed or lack a section name, key or variant name are rejected with a parse error.",
 ["inputs"], "every nesting of sections, strings, bases and variants, every name and text",
 "Tests use one sample.",
 [F+"customizable_xml.py", U+"xml.py"], [("element handlers", F+"customizable_xml.py CustomizableXMLHandler")],
 ["CustomizableXMLHandler.parse", "CustomizableXMLHandler.compile"])
prop("C28", "YAML: extraction, keys and round trip preserve the data",
 "For every accepted YAML document each non-blank string value is reported once, in document order, with its decoded text and a key spelling its path, and compiling the template with the strings yields YAML that loads to the same data as the source (aliases, other types, comments and line endings included). Replacing a text changes only that value when loaded, whatever characters the new text contains and whatever style the value is written in.",
 ["inputs"], "every document: nesting, scalar style and text; every new text",
 "Tests use a few samples; scalar styles times special characters are many.",
 [F+"yaml/yaml.py", F+"yaml/utils.py"], [("position-tracking loader", F+"yaml/utils.py TxYamlLoader"), ("scalar writing", F+"yaml/yaml.py _write_scalar")],
 ["YamlHandler.parse", "YamlHandler.compile"])
prop("C29", "YAML keys: escaping, unescaping and splitting of paths is unambiguous",
 "The textual path of a YAML entry determines its list of keys, for keys containing dots, brackets, colons or backslashes, and distinct entries of an accepted document never share a path (a document whose keys look the same, such as 1 and '1', is rejected). Compiling without a template from any subset of the strings rebuilds exactly the kept entries under their paths, with the types of their keys that are integers.",
 ["inputs"], "every key text and nesting, every subset of strings",
 "Tests use a few dotted keys.",
 [F+"yaml/utils.py", F+"yaml/yaml.py"], [("key escaping", F+"yaml/yaml.py"), ("generator", F+"yaml/utils.py YamlGenerator")],
 ["YamlHandler.parse", "YamlHandler.compile"])
prop("C36", "Internationalization YAML: one root, plurals and their styles",
 "An internationalization YAML file has one root key, which is no part of the keys. A mapping is one plural string exactly when it has every plural form of the language, nothing but plural forms, and only single values; every other text is a string of its own. Compiling with the same strings keeps the loaded data and everything outside the texts, in block and flow layout; a new text for a plural form becomes that form's value when loaded, whatever characters it contains, and nothing else changes.",
 ["inputs"], "every document, plural text and new text",
 "Tests compile one sample file per layout.",
 [F+"yaml/yaml_i18n.py", F+"yaml/yaml.py"], [("plural detection and styles", F+"yaml/yaml_i18n.py I18nYamlHandler")],
 ["I18nYamlHandler.parse", "I18nYamlHandler.compile"])
prop("C30", "Markdown: compile(parse(x)) reproduces the document",
 "For every Markdown document without a header, compiling the returned template with the returned strings gives back the input, apart from what the handlers say they normalise: tabs become spaces, lines of spaces become empty and, in the second version, compatibility characters become their plain forms and the whitespace before a callout may change. Each text segment (a block of code or a rule is one too) gets exactly one placeholder, in document order; link targets, liquid tags, numbers and keys of header lines are left alone, also when a later segment's text occurs in them; changing one segment's text changes only that place.",
 ["inputs"], "every document and translation",
 "Tests use one sample and some literals.",
 [F+"github_markdown.py", F+"github_markdown_v2.py"], [("block lexer and templating", F+"github_markdown.py, github_markdown_v2.py")],
 ["GithubMarkdownHandler.parse", "GithubMarkdownHandlerV2.parse", "compile"])
prop("C31", "Markdown front matter: translations are always written as valid YAML",
 "Every text of a Markdown header is extracted once with its decoded value, and compiling with the same strings keeps the header's data and the body. Whatever text a translator supplies for a plain or quoted value of the header, the compiled header is valid YAML in which that value loads to the supplied text (without its surrounding whitespace if the value was not in quotes, and without its quotes if the text is already a quoted YAML text) and every other value is unchanged.",
 ["inputs"], "every header value, every translation text and every plain or quoted style",
 "Tests try about twenty literals.",
 [F+"github_markdown_v2.py"], [("quoting decision", F+"github_markdown_v2.py _transform_yaml_string/_should_wrap_in_quotes")],
 ["GithubMarkdownHandlerV2.parse", "GithubMarkdownHandlerV2.compile"])
prop("C32", "Office documents: text of a paragraph survives tagging and untagging",
 "Turning the formatted runs of a paragraph of a DOCX or PPTX document into one tagged string and writing that string back restores every run's text and formatting, every link target and all other parts of the package. A translation that keeps the tags puts each tagged text into its own run, with XML special characters escaped; a link target that it changes, removes or adds is changed for the runs of that tag only. Whatever tags a translation has, none of its text gets lost and other paragraphs stay as they are. Slides come in the order of their numbers, each followed by its notes, and a right-to-left translation only adds direction marks.",
 ["inputs"], "every sequence of runs, formats, links and texts",
 "Tests use a few sample documents.",
 [F+"office_open_xml/parser.py", F+"docx.py", F+"pptx.py"], [("tagging", F+"office_open_xml/parser.py OfficeOpenXmlHandler")],
 ["OfficeOpenXmlHandler.parse_paragraph", "OfficeOpenXmlHandler.compile_paragraph", "PptxHandlerV2.parse_paragraph", "PptxHandlerV2.compile_paragraph"])
prop("C37", "Workbooks: every text of a cell is extracted once and put back",
 "Every sheet name, every non-blank text of a cell (shared, inline, of several runs, with a link) and every display text of a HYPERLINK formula of an XLSX workbook is extracted as one string per distinct text, whose developer comment lists the sheets it occurs in. Compiling with the same strings or without any gives a workbook in which every cell has the same texts, formats, formula and link and which has no attribute of the handler left. A translation gets into every cell with that text and nowhere else, each tagged part into its run, quotes in formulas escaped; none of its text gets lost whatever its tags are, and the link it gives becomes the link of the cell.",
 ["inputs"], "every text of a cell, link and translation",
 "Tests use two sample workbooks.",
 [F+"xlsx_unstructured.py"], [("cells", F+"xlsx_unstructured.py XlsxUnstructuredHandler")],
 ["XlsxUnstructuredHandler.parse", "XlsxUnstructuredHandler.compile"])
prop("C33", "InDesign packages: stories round trip and unsafe text is escaped",
 "Every one-line text of a Content element of a story of an InDesign package that has a letter, symbol or punctuation mark besides special characters and is no number is extracted once, in the order of the StoryList of designmap.xml followed by the stories it does not list. Compiling with the same strings gives the same package, whatever its line endings are. A translation gets into its own Content element, with every character that would break the XML escaped and entities, <Br/> and all <?ACE n?> kept; the text of a missing string becomes empty, and everything else stays as it is.",
 ["inputs"], "every story, text and translation", "Tests use one sample package (and need a library that is absent here).",
 [F+"indesign.py"], [("story templating", F+"indesign.py")], ["InDesignHandler.parse", "InDesignHandler.compile"])
prop("C34", "Text formats reject malformed documents with a parse error only",
 "For every input text, the JSON, structured JSON, ARB, Chrome, PO, plain-text, Markdown and YAML parsers either return a template and strings or raise a parse error; no other exception escapes. Everything they accept can also be compiled back, with all of its strings or with none, without an exception.",
 ["inputs"], "every text", "Tests check listed malformed literals.",
 [F+"json.py", F+"po.py", F+"plaintext.py", F+"github_markdown.py", F+"yaml/yaml.py"], [("error translation", F+"json.py validate_content")],
 ["parse", "compile"])
prop("C35", "Translated content stays in its slot and parses back to itself",
 "If extracted strings or plural forms are replaced by any other texts that the format's own escaping has been applied to and that the format can carry at all (not blank; one line in plain text, no blank line or surrounding whitespace in subtitles, no markup in XML), the compiled file parses again to the same keys, contexts and orders with exactly the replaced texts. No translation can add, remove or alter another entry.",
 ["inputs", "histories"], "every replacement text at every string of a document, in every text format",
 "Tests translate one sample per format with a fixed transformation.",
 [F+"json.py", F+"android.py", F+"stringsdict.py", F+"srt.py", F+"vtt.py", F+"plaintext.py", F+"po.py", F+"yaml/yaml.py", F+"customizable_xml.py"], [("escape + compile", "escape methods and compile passes")],
 ["parse", "compile", "escape"])
prop("C38", "Earlier Android handler: every entry once, missing ones removed, the rest stays",
 "The earlier Android handler extracts every non-blank string, array item and plural of a resource file that is not marked translatable=\"false\" exactly once, in order, with its product as context and the comment before it; line endings, comments inside entries and attributes of items do not matter. Compiling with the same strings gives back the file without the entries that have no text, whatever the layout of its plurals is; compiling with fewer or other strings removes exactly the elements of the missing ones (and arrays left without items) and writes each new text in its own place.",
 ["inputs"], "every text, comment, layout and subset of strings", "Tests use one sample and single entries.",
 [F+"beta_android.py"], [("templating", F+"beta_android.py")], ["BetaAndroidHandler.parse", "BetaAndroidHandler.compile"])
prop("C39", "Test bed: its API gives what the handlers give",
 "A document parsed through the API of the test bed has the template and, for each string, the key, context, texts, order, comment, limit, tags and placeholder that the chosen handler gives, or an error exactly if the handler raises one. Compiling those strings, with any translation, through the API gives the document that the handler compiles from the same strings, or an error exactly if the handler raises one.",
 ["inputs"], "every document and translation", "No test covers the test bed.",
 ["testbed/main/views.py"], [("API", "testbed/main/views.py ApiView")], ["ApiView.post"])
prop("C40", "YAML: the developer comment of a text is the comment lines directly above it",
 "The developer comment of a YAML string is what the comment lines directly above the line of its key (or above the text, if it stands on lines of its own) say, joined by spaces, blank lines aside. Comments behind a text or key, inside of a block text, or above another key or text are not part of it; line endings do not matter, and the comments stay in the compiled file.",
 ["inputs"], "every text of comments and everything between two texts", "Tests look at one sample.",
 [F+"yaml/yaml.py"], [("comments", F+"yaml/yaml.py")], ["YamlHandler.parse"])
prop("C41", "What a handler gives depends on its arguments, not on its earlier work",
 "A handler that has parsed or compiled other files (also files it rejected, or with some or none of their strings) gives the same template, strings, keys and errors for a file, and the same compiled file, as a new handler. Compiling does not change the strings it is given, and compiling the same template with the same strings again gives the same file, also after it was compiled with other strings.",
 ["inputs", "histories"], "every two files and every order of calls", "Tests use a new handler for every call.",
 [F+"*.py", "openformats/transcribers.py"], [("state of handlers", F+"*.py")], ["parse", "compile"])
prop("C42", "Office files: only files of a scratch folder are used, and nothing is left",
 "Whatever a DOCX, PPTX or XLSX package says about its files (names with `..`, absolute names, missing or unexpected parts), reading or compiling it reads and writes no file outside of a fresh folder below the system's folder for temporary files. When the handler returns, or fails for any reason (a broken package, a file that cannot be read or written), that folder is gone and no other file is left.",
 ["inputs", "fault_sequences"], "every name of a part or entry, every file that cannot be opened, every missing part", "Tests use intact packages and do not look at the file system.",
 [F+"docx.py", F+"pptx.py", F+"xlsx_unstructured.py"], [("scratch folders", F+"docx.py DocxFile"), ("part names", F+"pptx.py PptxFile")], ["parse", "compile"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
