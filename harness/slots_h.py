"""A translated file parses back to its translations (C35)."""
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from openformats.formats.customizable_xml import CustomizableXMLHandler
from openformats.formats.json import (ArbHandler, ChromeI18nHandler, ChromeI18nHandlerV3,
                                      JsonHandler, StructuredJsonHandler)
from openformats.formats.plaintext import PlaintextHandler
from openformats.formats.po import PoHandler
from openformats.formats.srt import SrtHandler
from openformats.formats.stringsdict import StringsDictHandler
from openformats.formats.vtt import VttHandler
from openformats.formats.yaml.yaml import YamlHandler
from openformats.formats.yaml.yaml_i18n import I18nYamlHandler

from harness.lib import *

HANDLERS = dict(json=JsonHandler, structured=StructuredJsonHandler, arb=ArbHandler,
                chrome=ChromeI18nHandler, chrome3=ChromeI18nHandlerV3, text=PlaintextHandler,
                po=PoHandler, srt=SrtHandler, vtt=VttHandler, yaml=YamlHandler,
                i18n=I18nYamlHandler, android=AndroidHandler, unescaped=AndroidUnescapedHandler,
                stringsdict=StringsDictHandler, xml=CustomizableXMLHandler)

# every document has strings next to each other and next to everything else the format has
DOCS = dict(
    json=['{"a": "b", "c": {"d.e": ["f", "g"], "h": 1}, "i":"j"}', '["a", ["b"], {"c": "d"}]',
          '{"a": "{n, plural, one {b} other {c}}", "d": "e"}'],
    structured=['{"a": {"string": "b", "context": "c", "developer_comment": "d"}, '
                '"e": {"f": {"string": "g", "character_limit": 5}, "h": "i"}, "j": {"string": "k"}}',
                '{"a": {"string": "b"}, "c": {"string": "{n, plural, one {b} other {c}}"}}'],
    arb=['{"@@locale": "en", "a": "b", "@a": {"description": "c", "context": "d"}, "e": "f"}',
         '{"a": "{n, plural, one {b} other {c}}", "d": "e", "@d": {}}'],
    chrome=['{"a": {"message": "b", "description": "c"}, "d": {"message": "e", "placeholders": '
            '{"f": {"content": "$1"}}}}', '{"a": {"message": "b"}, "c": {"message": "{n, plural, one {b} other {c}}"}}'],
    text=["a\n\n  b \nc", "a\n"],
    po=['msgid ""\nmsgstr ""\n"Language: el\\n"\n\n# c\nmsgid "a"\nmsgstr "b"\n\nmsgctxt "d"\nmsgid "a"\nmsgstr "c"\n',
        'msgid ""\nmsgstr ""\n"Language: el\\n"\n\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "c"\nmsgstr[1] "d"\n\nmsgid "e"\nmsgstr "f"\n'],
    srt=["1\n00:00:01,000 --> 00:00:02,000\na\n\n2\n00:00:02,000 --> 00:00:03,000\nb\nc\n\n3\n00:00:05,000 --> 00:00:06,000\nd"],
    vtt=["WEBVTT\n\nx\n00:01.000 --> 00:02.000\na\n\nNOTE n\n\n00:02.000 --> 00:03.000 align:left\nb\nc\n\n00:05.000 --> 00:06.000\nd"],
    yaml=["a: b\nc:\n  - d\n  - 'e'\nf: \"g\" # h\ni: |\n  j\nk: {l: m}\n", "- a\n- b: >-\n    c\n"],
    i18n=["en:\n  a: b\n  c:\n    one: d\n    other: \"e\"\n  f: 'g'\n"],
    android=['<?xml version="1.0"?>\n<resources>\n  <!-- c -->\n  <string name="a">b</string>\n  <string name="c">d<b>e</b></string>\n'
             '  <string-array name="f"><item>g</item><item>h</item></string-array>\n  <plurals name="i">\n    <item quantity="one">j</item>\n'
             '    <item quantity="other">k</item>\n  </plurals>\n  <string name="l" product="m">n</string>\n</resources>\n'],
    stringsdict=['<?xml version="1.0"?>\n<plist version="1.0">\n<dict>\n<key>a</key>\n<dict>\n<key>NSStringLocalizedFormatKey</key>\n<string>Look %#@b@ up</string>\n'
                 '<key>b</key>\n<dict>\n<key>NSStringFormatSpecTypeKey</key><string>s</string>\n<key>one</key>\n<string>c</string>\n<key>other</key>\n<string>d</string>\n'
                 '</dict>\n<key>e</key>\n<dict>\n<key>other</key>\n<string>f</string>\n</dict>\n</dict>\n</dict>\n</plist>\n'],
    xml=['<strings><section name="a"><string key="b"><base>c</base><variant context="d">e</variant></string>'
         '<string key="f"><base>g</base></string></section><section name="h"><string key="f"><base>i</base></string></section></strings>'],
)
DOCS["chrome3"] = DOCS["chrome"]
DOCS["unescaped"] = DOCS["android"]


def make(kind):
    handler = HANDLERS[kind]()
    if kind == "i18n":
        handler.set_plural_rules([1, 5])
    return handler


def escaped(kind, text):
    """a text as the format's own escaping puts it into a file"""
    if hasattr(HANDLERS[kind], "escape"):
        return HANDLERS[kind].escape(text)
    return text


def allowed(kind, text):
    """the texts a string of the format can have at all"""
    if text.strip() == "":
        return False
    if kind == "text":
        return text == text.strip() and "\n" not in text
    if kind in ("srt", "vtt"):
        return text == text.strip() and "\n\n" not in text
    return True


def slots(ctx, kinds, new, second, around=None):
    kind = ctx.pick("kind", kinds)
    doc = ctx.pick("doc", DOCS[kind])
    if ctx.flag("dos"):
        doc = doc.replace("\n", "\r\n")
    kw = {"is_source": False} if kind == "po" else {}
    template, strings = make(kind).parse(doc, **kw)
    strings = list(strings)
    spots = [(i, rule) for i, s in enumerate(strings) for rule in sorted(s._strings)]
    at = ctx.choice("which", len(spots))
    other = (at + 1) % len(spots)
    fresh = {}
    for spot, name, size in ((at, "new", new), (other, "second", second)):
        if size is None or spots[spot] in fresh:
            continue
        text = ctx.string(name, *size)
        if around is not None and name == "new":
            # it looks like the placeholder of a string
            text = text + strings[ctx.choice("placeholder", len(strings))].template_replacement + ctx.string("end", *around)
        ctx.assume(allowed(kind, text))
        fresh[spots[spot]] = escaped(kind, text)
    given = []
    for i, s in enumerate(strings):
        forms = dict([(rule, fresh.get((i, rule), text)) for rule, text in s._strings.items()])
        given.append(clone(s, value=forms if s.pluralized else forms[5]))
    out = make(kind).compile(template, given)
    ctx.observe("out", out)
    again = list(make(kind).parse(out, **kw)[1])
    ctx.check_eq(show(again), show(given), "the same keys, in order, with the new texts")
    ctx.check_eq([s.order for s in again], [s.order for s in given], "orders")
