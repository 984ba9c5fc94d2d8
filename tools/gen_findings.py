"""Generates /verif/known_findings.json; run by hand after a fix commit, never by a check."""
import json, os, subprocess
F = []
LOG = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()


def commit(sub):
    for l in LOG:
        if sub in l:
            return l.split()[0]
    raise Exception(sub)


def fixed(prop, sub, what):
    F.append(dict(id="fixed-" + commit(sub), property=prop, status="fixed", labels=[],
                  what="fixed: property=%s %s %s" % (prop, commit(sub), what)))


def finding(id, prop, labels, what):
    F.append(dict(id=id, property=prop, status="finding", labels=labels, what=what))


fixed("C02", "read every JSON number", "numbers with an exponent, NaN and Infinity were not read by the tokenizer")
fixed("C03", "escape every control character", "control characters other than the named ones were written raw into JSON strings")
fixed("C05", "keep the bracket before a container", "removing a container from a list removed the bracket or comma before it")
fixed("C05", "leave string contents alone", "cleaning up after a removal edited the contents of strings such as 'a, ,b'")
fixed("C06", "do not escape the key of a string added", "the key of a string added to a list was escaped twice")
fixed("C07", "reject ICU plurals with no rules", "'{n, plural, }' crashed and rules such as 'x one' were accepted")
fixed("C08", "write structured JSON metadata", "new or changed metadata was written at wrong positions, e.g. after the closing brace of {\"string\": \"a\", \"character_limit\": 5}")
fixed("C08", "fill only the entries the structured", "a root level \"string\" or an entry inside a nested list took the translation of another entry")
fixed("C08", "raise a parse error for structured JSON metadata", "metadata of the wrong type escaped as TypeError or was written as invalid JSON; a list of strings crashed")
fixed("C34", "do not fail on Chrome messages outside", "{\"message\": \"x\"} raised TypeError")
fixed("C09", "rewrite only the file's own locale", "a nested @@locale was rewritten in place of the file's; strings with a context were always removed")
fixed("C34", "ignore lists and metadata that is not text in ARB", "ARB files with lists or non-text metadata raised ValueError or TypeError")
fixed("C09", "keep ARB entries that are not strings", "removing sections also removed the locale and other entries that are not strings")
fixed("C10", "treat plural Chrome messages", "plural descriptions were extracted as messages and plural messages lost their description")
fixed("C15", "compile SRT templates without any strings", "compiling with an empty string list raised StopIteration")
fixed("C16", "report the line of the timings of VTT", "the wrong line was named for cues without an identifier")
fixed("C20", "find the separator of PO keys", "the key of a text ending in a backslash followed by a plural was not split")
fixed("C19", "compile PO entries whose msgid_plural", "a msgid_plural of only spaces made compile fail")
fixed("C34", "reject PO plural forms that are not", "msgstr[x] raised ValueError or KeyError")
fixed("C21", "reject XML that ends inside of an element", "'<a><b></b>' raised IndexError")
fixed("C21", "leave whitespace before the equals sign", "name = \"x\" was read as an attribute called 'name '")
fixed("C25", "raise a parse error for Android files without resources", "an Android file without <resources> raised ValueError")
fixed("C22", "compile Android files whose resources tag is self-closing", "compiling '<resources/>' raised TypeError")
fixed("C23", "keep elements before an Android string that is removed", "removing a string also removed the empty strings, empty plurals and foreign elements right before it; blank strings, arrays of empty items and the whitespace after a last empty item were not restored")
fixed("C25", "accept self-closing tags in unescaped Android files", "<string name=\"a\"/> raised TypeError")
fixed("C24", "escape leading at-signs once in unescaped", "'@x' was escaped to two backslashes and an at-sign")
fixed("C24", "escape tags that are not inline in unescaped", "'<x>' was escaped to '<x&gt;', which is malformed XML")
fixed("C24", "protect every inline tag in unescaped", "an inline tag containing a copy of an earlier one was escaped")
fixed("C24", "escape strings with an unopened closing tag", "text after '</x>' was cut off")
fixed("C25", "raise a parse error for strings dictionaries without a dict", "a file without <dict> raised ValueError")
fixed("C25", "read self-closing tags in strings dictionaries", "<key/> and <string/> raised TypeError or were read as 'None'")
fixed("C26", "inline the format of strings dictionaries", "texts around the variable were removed from another entry's format, lost or doubled when the format spans lines")
fixed("C25", "reject duplicate variables in strings", "a repeated variable gave two strings with the same key and context")
fixed("C27", "find the root of customizable XML files with DOS", "files with DOS line endings before the root raised or lost characters")
fixed("C27", "raise a parse error for customizable XML sections without", "a section without a name raised KeyError")
fixed("C27", "compile self-closing tags of customizable XML", "compiling <base/> raised TypeError")
fixed("C27", "keep strings outside of customizable XML sections", "texts outside of sections shifted the translations of the ones inside")
fixed("C28", "quote YAML strings that would be loaded as other types", "a translation such as 'true', '12' or '~' was written bare and loaded as another type")
fixed("C28", "put YAML strings with special characters between double", "translations with line breaks, control characters or quotes were written in styles that load to other texts")
fixed("C28", "indent YAML blocks more than the mapping", "a block scalar at the root of a list or mapping was written without indentation")
fixed("C28", "find YAML values after anchors and tags", "the position of a value with an anchor and a tag was wrong")
fixed("C28", "keep the custom tags of YAML list items", "'- !foo x' lost its tag when compiled without a template")
fixed("C29", "compile YAML lists that lack some of their items", "a missing list item raised TypeError")
fixed("C29", "compile YAML files that are lists without a template", "a document that is a list raised TypeError")
fixed("C29", "reject YAML files with keys that look the same", "1 and '1', or true and 'true', gave two strings with one key")
fixed("C28", "read ordered mappings in YAML files", "!!omap and !!pairs raised")
fixed("C36", "accept internationalization YAML files without strings", "'en:' with no content raised")
fixed("C36", "write the plurals of YAML files in the styles they are read in", "plural forms lost their quotes, and with them their type")
fixed("C36", "indent YAML plurals when the first key", "an empty line after the key of a plural gave invalid YAML")
fixed("C29", "keep empty keys at the root of YAML files", "the key '' was dropped when compiling without a template")
fixed("C30", "do not fail on Markdown code at the start", "a document that starts with indented code raised")
fixed("C30", "do not fail on Markdown callouts that are not found", "'> [!NOTE]' twice raised TypeError")
fixed("C31", "quote the texts of Markdown headers that YAML", "translations such as '!', '? a', '1' or a line break were written bare in the header and loaded as something else")
fixed("C32", "keep the texts of neighbouring runs of office documents", "the texts of a first and a second run without tags, or of the runs of a link, became one text, so both compiled into the first run")
fixed("C32", "keep the whitespace of consecutive blank runs", "only the last of several blank runs was taken off the following text")
fixed("C32", "ignore texts without content in the second PPTX", "an empty a:t shifted the texts behind it into the wrong runs, and a blank paragraph was extracted")
fixed("C32", "keep the runs that share a hyperlink of a DOCX", "removing a link with two runs removed the paragraph element, dropping its second run removed the first too")
fixed("C32", "change the target of one link of an office document only", "changing the target of a link changed all links that share its relationship")
fixed("C37", "write the direction of XLSX sheets", "rightToLeft=\"False\" is no XML boolean")
fixed("C37", "compile XLSX cells without a value", "a cell of type s without a value raised AttributeError")
fixed("C37", "leave no txid attributes in compiled XLSX", "cells and sheets without a translation, and cells with a link whose text is shared, kept the txid attribute")
fixed("C37", "keep the blank texts of XLSX cells", "blank cells lost their text, a blank run shifted the texts behind it into the wrong runs")
fixed("C37", "keep the rest and the quotes of XLSX HYPERLINK", "a formula around HYPERLINK was dropped, a quote in a translation broke the formula")
fixed("C37", "keep XLSX links with apostrophes", "the string of a link with an apostrophe lost its link and text")
fixed("C33", "compile InDesign stories with DOS line endings", "positions of the text with DOS endings were used on the text with UNIX ones, so the story was cut and mixed up")
fixed("C33", "keep every special character of InDesign", "a footnote marker <?ACE 4?> of an untouched text was compiled to &lt;?ACE 4?>")
fixed("C33", "escape ]]> in InDesign translations", "a translation with ]]> made the story XML malformed")
fixed("C33", "order the unlisted stories of InDesign", "the stories that designmap.xml does not list came in the order of a set, which may differ between parsing and compiling processes, so their texts got lost")
fixed("C38", "keep what follows one-line plurals in the earlier", "plurals on a line of a file with several lines lost their end tag and what follows")
fixed("C38", "keep array items with attributes in the earlier", "an array item with attributes was followed by a copy of other text")
fixed("C38", "read plurals without items in the earlier", "plurals without items raised UnboundLocalError")
fixed("C38", "compile plurals with comments in the earlier", "plurals with a comment were removed, with all strings after them")
fixed("C38", "keep comments inside entries in the earlier", "a comment inside an entry made the parser copy text twice")
fixed("C29", "integer keys of nested YAML", "nested integer keys raised AttributeError or became texts when compiling without a template")
fixed("C34", "read the escaped characters of Markdown headers", "\\u001f in a Markdown header raised ValueError, \\u0010 was read as decimal")
fixed("C32", "links added to texts of a presentation", "a link added to a text whose run has no properties or has a link inside of the presentation raised AttributeError or wrote two links")
fixed("C41", "InDesign packages parsed by the same handler", "a handler that parsed a second InDesign package returned the strings of the first one too")
fixed("C42", "office packages that refer to files outside", "entries and parts with absolute names or `..` made the handlers read and write files outside of their folder, e.g. put /etc/passwd into the compiled package")
fixed("C42", "remove the scratch folder of office packages", "packages that were rejected left their extracted files behind")
fixed("C40", "a comment behind a YAML text", "a comment behind a text became the developer comment of the next text")
fixed("C41", "compiling a PO template leaves", "a PO template compiled for a second language gave the texts of the first again")
fixed("C33", "InDesign translations that look like a hash", "a translation with 32 letters or digits before _tr lost them")
fixed("C30", "Markdown texts are found where they are", "'# C# is good' was not extracted; '{% a %}' got the translation of a later paragraph 'a', and so did link targets and keys of headers")
fixed("C08", "metadata of structured JSON that does not change", "a context or comment with an escape such as \\u00e9 or \\/ was written without it when compiled with the same strings")
fixed("C41", "compiling Markdown leaves the given strings", "compiling a block of a header with control characters changed the given string")
finding("vtt-same-timing", "C17", ["exactly the missing ones go"],
        "two cues with the same timing line have the same key, so compiling without the first one puts the second one's text into the first one's place")
finding("hash-join", "C13", ["different identities have different hashes"],
        "key and context are joined by a colon before hashing, so moving a colon between them keeps the hash: key 'a:b' with no context, key 'a' with context 'b:'")

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
    json.dump(dict(findings=F), open(path, "w"), indent=1)
