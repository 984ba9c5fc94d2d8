"""A handler's earlier work (C41)."""
from openformats.formats.beta_android import BetaAndroidHandler
from openformats.formats.github_markdown import GithubMarkdownHandler
from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2
from openformats.formats.markdown_jsx import MarkdownJsxHandler

from harness import indesign_h, office_h, slots_h, xlsx_h
from harness.lib import *
from symex.zips import unzipped, zipped

HANDLERS = dict(slots_h.HANDLERS, beta=BetaAndroidHandler, md=GithubMarkdownHandler,
                md2=GithubMarkdownHandlerV2, jsx=MarkdownJsxHandler)
HANDLERS["po source"] = HANDLERS["po"]

# every format: what may come first, with anything at \xabx\xbb, and what comes then, with a text
# at \xabt\xbb
DOCS = dict(
    json=(['{"a": "b"\xabx\xbb, "c": ["d"]}', '{"a": "{n, plural, one {b} other {c}\xabx\xbb"}'],
          ['{"a": "\xabt\xbb", "c": {"d": "{n, plural, one {\xabt\xbb} other {c}}"}}']),
    structured=(['{"a": {"string": "b", "context": "c"\xabx\xbb}, "d": {"string": "e"}}'],
                ['{"a": {"string": "\xabt\xbb", "developer_comment": "c"}, "f": {"string": "g"}}']),
    arb=(['{"@@locale": "en", "a": "b"\xabx\xbb, "@a": {"context": "c", "description": "d"}}'],
         ['{"a": "\xabt\xbb", "b": "c", "@b": {"description": "d"}}', '{"b": "\xabt\xbb", "@b": {}, "a": "c"}']),
    chrome=(['{"a": {"message": "b", "description": "c"\xabx\xbb}}'],
            ['{"a": {"message": "\xabt\xbb"}, "b": {"message": "{n, plural, one {b} other {c}}"}}']),
    text=(["a\xabx\xbb\n\n b", "a\r\nb\xabx\xbb"], ["\xabt\xbb\nc", "a\r\n\xabt\xbb\r\n"]),
    po=(['msgid "a"\nmsgstr "b"\n\xabx\xbb\nmsgid "c"\nmsgid_plural "d"\nmsgstr[0] "e"\nmsgstr[1] "f"\n'],
        ['# c\nmsgctxt "d"\nmsgid "a"\nmsgstr "\xabt\xbb"\n\nmsgid "c"\nmsgstr "d"\n',
         'msgid "c"\nmsgid_plural "d"\nmsgstr[0] "\xabt\xbb"\nmsgstr[1] "f"\n\nmsgid "g"\nmsgstr ""\n']),
    srt=(["7\n00:00:01,000 --> 00:00:02,000\na\xabx\xbb\n\n8\n00:00:02,000 --> 00:00:0\xabx\xbb3,000\nb"],
         ["1\n00:00:01,000 --> 00:00:02,000\n\xabt\xbb\n\n2\n00:00:02,000 --> 00:00:03,000\nb\n",
          "1\r\n00:00:01,000 --> 00:00:02,000\r\n\xabt\xbb\r\n"]),
    vtt=(["WEBVTT\n\n7\n00:01.000 --> 00:02.000\na\xabx\xbb\n\n00:02.000 --> 00:0\xabx\xbb3.000\nb"],
         ["WEBVTT\n\n00:01.000 --> 00:02.000\n\xabt\xbb\n\nx\n00:02.000 --> 00:03.000\nb\n",
          "WEBVTT\r\n\r\n00:01.000 --> 00:02.000\r\n\xabt\xbb\r\n"]),
    yaml=(["a:\n    b: [c, \xabx\xbb]\nd: |\n    e\n", "- 'a'\n-\n      - b\xabx\xbb\n", "# c\na: !t \xabx\xbb\n"],
          ["a:\n  b: |\n    \xabt\xbb\n  c: 'd'\n", "- a: \"\xabt\xbb\"\n- {b: c}\n"]),
    i18n=(["el:\n    a:\n        one: b\n        other: \xabx\xbb\n    c: {d: e}\n"],
          ["en:\n  c:\n    one: \"\xabt\xbb\"\n    other: e\n  a: 'g'\n", "en: {a: {one: 'b', other: \"\xabt\xbb\"}}\n"]),
    android=(['<resources>\n  <!-- c -->\n  <string name="a">b\xabx\xbb</string>\n  <plurals name="i">\n    <item quantity="one">j</item>\n'
              '    <item quantity="other">\xabx\xbb</item>\n  </plurals>\n  <!-- d -->\n</resources>\n'],
             ['<resources>\n  <string name="a">\xabt\xbb</string>\n  <string-array name="f"><item>g</item></string-array>\n'
              '  <plurals name="i"><item quantity="one">j</item><item quantity="other">k</item></plurals>\n</resources>\n']),
    stringsdict=(['<plist version="1.0">\n<dict>\n<key>a</key>\n<dict>\n<key>NSStringLocalizedFormatKey</key>\n<string>%#@b@</string>\n'
                  '<key>b</key>\n<dict>\n<key>one</key>\n<string>c\xabx\xbb</string>\n<key>other</key>\n<string>d</string>\n'
                  '</dict>\n</dict>\xabx\xbb\n</dict>\n</plist>\n'],
                 ['<plist version="1.0">\n<dict>\n<key>a</key>\n<dict>\n<key>b</key>\n<dict>\n<key>one</key>\n<string>c</string>\n'
                  '<key>other</key>\n<string>\xabt\xbb</string>\n</dict>\n<key>e</key>\n<dict>\n<key>other</key>\n<string>f</string>\n'
                  '</dict>\n</dict>\n</dict>\n</plist>\n']),
    xml=(['<strings><section name="a"><string key="b"><base>c\xabx\xbb</base><variant context="d">e</variant></string>\xabx\xbb</section></strings>'],
         ['<strings><section name="a"><string key="b"><base>\xabt\xbb</base></string><string key="f"><base>g</base>'
          '<variant context="d">e</variant></string></section></strings>']),
    md=(["---\na: |\n  b\xabx\xbb\n---\n\nc\n", "---\na: b\xabx\xbb\n---\n\nc\n\n- d\n", "[a]: b\n\nc\xabx\xbb\n\n> [!NOTE]\n> d\n"],
        ["# \xabt\xbb\n\n- a\n- c\n", "---\na: \"\xabt\xbb\"\n---\n\nc [a][a]\n", "a\xabt\xbb\r\n\r\nc\r\n"]),
)
DOCS["chrome3"] = DOCS["chrome"]
DOCS["unescaped"] = DOCS["beta"] = DOCS["android"]
DOCS["po source"] = DOCS["po"]
DOCS["md2"] = DOCS["jsx"] = DOCS["md"]


def make(kind):
    handler = HANDLERS[kind]()
    if kind == "i18n":
        handler.set_plural_rules([1, 5])
    return handler


def options(kind):
    if kind in ("po", "po source"):
        return {"is_source": kind == "po source"}
    return {}


def whole(strings):
    """everything that is known about strings"""
    return [(s.key, s.context, [(k, v) for k, v in sorted(s._strings.items())], s.order, s.pluralized,
             s.developer_comment, s.character_limit, s.occurrences, s.flags, s.fuzzy, s.obsolete,
             s.tags, s.string_hash) for s in strings]


def attempt(function, *args, **kw):
    """-> the result or the message of the parse error"""
    try:
        return function(*args, **kw), None
    except ParseError as e:
        return None, str(e)


def history(ctx, kinds, events, x, t):
    """what a handler gives depends on the file, not on the files before"""
    kind = ctx.pick("kind", kinds)
    event = ctx.pick("event", events)
    before, after = DOCS[kind]
    # a file of customizable XML is compiled with all of its strings
    ctx.assume(kind != "xml" or event not in ("some", "none"))
    first, _ = fill(ctx, ctx.pick("first", before), dict(x=x))
    second, _ = fill(ctx, ctx.pick("second", after), dict(t=t))
    kw = options(kind)
    used = make(kind)
    fresh = make(kind)
    got, error = attempt(used.parse, first, **kw)
    if error is None:
        template, strings = got[0], list(got[1])
        if event == "compile":
            attempt(used.compile, template, strings, **kw)
        elif event == "some":
            attempt(used.compile, template, strings[1:], **kw)
        elif event == "none":
            attempt(used.compile, template, [], **kw)
    else:
        ctx.reach("rejected")
        ctx.assume(event == "parse")
    want, why = attempt(fresh.parse, second, **kw)
    got, error = attempt(used.parse, second, **kw)
    ctx.check_eq(error, why, "the same errors")
    if why is not None:
        return
    strings = list(want[1])
    again = list(got[1])
    ctx.observe("strings", whole(again))
    ctx.check_eq(got[0], want[0], "the same template")
    ctx.check_eq(whole(again), whole(strings), "the same strings")
    out = make(kind).compile(want[0], strings, **kw)
    ctx.check_eq(used.compile(got[0], again, **kw), out, "the same file")


def repeated(ctx, kinds, x, t):
    """compiling changes neither the strings nor what is compiled next"""
    kind = ctx.pick("kind", kinds)
    docs = [skel.replace("\xabx\xbb", "") for skel in DOCS[kind][0]] + DOCS[kind][1]
    source, _ = fill(ctx, ctx.pick("doc", docs), dict(t=t))
    kw = options(kind)
    handler = make(kind)
    got, error = attempt(handler.parse, source, **kw)
    ctx.assume(error is None)
    template, strings = got[0], list(got[1])
    ctx.assume(strings != [])
    at = ctx.choice("which", len(strings))
    new = ctx.string("new", *x)
    old = strings[at]
    value = dict((rule, new) for rule in old._strings) if old.pluralized else new
    given = [clone(s, value=value) if s is old else clone(s) for s in strings]
    known = whole(given)
    if ctx.flag("translated"):
        # into another language first
        other = [clone(s, value=dict((rule, "o") for rule in s._strings) if s.pluralized else "o") for s in strings]
        attempt(handler.compile, template, other, **kw)
        got, error = attempt(make(kind).parse, source, **kw)
        want = attempt(make(kind).compile, got[0], given, **kw)
        ctx.check_eq(attempt(handler.compile, template, given, **kw), want, "the same file as the first")
        if hasattr(handler, "sync_template") and kind != "po":
            want = attempt(make(kind).sync_template, got[0], given[1:])
            attempt(handler.sync_template, template, [], **kw)
            ctx.check_eq(attempt(handler.sync_template, template, given[1:]), want, "the same updated template")
        return
    out, error = attempt(handler.compile, template, given, **kw)
    ctx.check_eq(whole(given), known, "the strings stay as they are")
    more, why = attempt(handler.compile, template, given, **kw)
    ctx.check_eq((more, why), (out, error), "the same file again")
    part = [s for s in given if s is not given[at]]
    if kind != "xml":
        attempt(handler.compile, template, part, **kw)
    more, why = attempt(handler.compile, template, given, **kw)
    ctx.check_eq((more, why), (out, error), "the same file after another one")
    more, why = attempt(make(kind).compile, template, given, **kw)
    ctx.check_eq((more, why), (out, error), "the same file of another handler")


# the packages: runs (text, number of a link) of a paragraph, cells of a sheet, texts of a story
PACKAGES = {
    "docx": [[("a«x»", None), ("b", 0)], [("«x»", 0)], [("c", None), ("«x»", None)]],
    "xlsx": [[("s", ["a«x»"], None), ("i", ["b"], "u")], [("i", ["a", "b«x»"], "v"), ("s", ["c"], None)]],
    "indesign": [["a", "b«x»"], ["«x»", "1"]],
}
PACKAGES["pptx"] = PACKAGES["pptx2"] = PACKAGES["docx"]
PACKAGE_HANDLERS = dict(office_h.HANDLERS, xlsx=xlsx_h.XlsxUnstructuredHandler, indesign=indesign_h.InDesignHandler)


def build(ctx, kind, shape, hole, links, name):
    hole = dict(x=hole) if name == "S" else dict(t=hole)
    cache = {}

    def text_of(text):
        return fill(ctx, text if name == "S" else text.replace("\xabx", "\xabt"), hole, cache)[0]

    if kind == "indesign":
        made = [text_of(text) for text in shape]
        return indesign_h.package([(name, made), ("backing", ["d"])], [name], False)
    if kind == "xlsx":
        return xlsx_h.workbook([(name, [(a, [text_of(text) for text in texts], link) for a, texts, link in shape])])
    return office_h.package(kind, [[(text_of(text), link) for text, link in shape], [("z", None)]], links)


def packages(ctx, kinds, events, x, t):
    """the same for handlers of packages"""
    kind = ctx.pick("kind", kinds)
    event = ctx.pick("event", events)
    shapes = PACKAGES[kind]
    first = zipped(build(ctx, kind, ctx.pick("first", shapes), x, ["u"], "S"))
    second = zipped(build(ctx, kind, ctx.pick("second", shapes), t, ["w"], "T"))
    used = PACKAGE_HANDLERS[kind]()
    fresh = PACKAGE_HANDLERS[kind]()
    template, strings = used.parse(first)
    if event == "compile":
        used.compile(template, list(strings))
    elif event == "none":
        used.compile(template, [])
    want = fresh.parse(second)
    got = used.parse(second)
    strings = list(want[1])
    again = list(got[1])
    ctx.observe("strings", whole(again))
    ctx.check_eq(whole(again), whole(strings), "the same strings")
    ctx.check_eq(unzipped(got[0]), unzipped(want[0]), "the same template")
    out = unzipped(PACKAGE_HANDLERS[kind]().compile(want[0], strings))
    ctx.check_eq(unzipped(used.compile(got[0], again)), out, "the same file")
    ctx.check_eq(unzipped(used.compile(got[0], again)), out, "the same file again")
