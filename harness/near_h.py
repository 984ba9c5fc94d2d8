"""Words of a format with one character too many or too few mean nothing to it."""
import json

from openformats.exceptions import ParseError
from openformats.formats.customizable_xml import CustomizableXMLHandler
from openformats.formats.json import (ArbHandler, ChromeI18nHandler, ChromeI18nHandlerV3,
                                      StructuredJsonHandler)
from openformats.formats.po import PoHandler
from openformats.formats.stringsdict import StringsDictHandler
from openformats.formats.yaml import I18nYamlHandler, YamlHandler

from harness.jsongen import load
from harness.lib import *

HANDLERS = {"structured": StructuredJsonHandler, "arb": ArbHandler, "chrome": ChromeI18nHandler,
            "chrome3": ChromeI18nHandlerV3, "stringsdict": StringsDictHandler,
            "customxml": CustomizableXMLHandler, "po": PoHandler, "yaml": YamlHandler,
            "i18n": I18nYamlHandler}

OT = "<key>other</key><string>a</string>"
SD = "<dict><key>k</key><dict>%s</dict></dict>"
SV = "<key>v</key><dict>%s</dict>"
CXD = "<strings><section name=\"s\"><string key=\"k\">%s</string></section></strings>"
CXF = [("k", "a", "s"), ("k::v", "b", "s")]
PO1 = 'msgid ""\nmsgstr ""\n\n%s\nmsgid "z"\nmsgstr "y"\n'
# (text, ¤ where the word stands; the right word; what is read from it then: (key, text, context,
# comment, limit), missing ones empty; what is read otherwise, None if it is an error, ¤ is the word)
DOCS = {
    "structured": [
        ('{"a": {"¤": "x", "context": "c"}, "b": {"string": "y"}}', "string",
         [("a", "x", "c"), ("b", "y")], [("b", "y")]),
        ('{"a": {"string": "x", "¤": "c"}}', "context", [("a", "x", "c")], [("a", "x")]),
        ('{"a": {"¤": "c", "string": "x"}}', "developer_comment", [("a", "x", "", "c")], [("a", "x")]),
        ('{"a": {"string": "x", "¤": 7}}', "character_limit", [("a", "x", "", "", 7)], [("a", "x")])],
    "arb": [
        ('{"a": "x", "¤": "c"}', "@@locale", [("a", "x")], [("a", "x")]),
        ('{"a": "x", "@a": {"¤": "c"}}', "context", [("a", "x", "c")], [("a", "x")]),
        ('{"a": "x", "@a": {"¤": "c"}}', "description", [("a", "x", "", "c")], [("a", "x")]),
        ('{"a": "x", "b": "y", "@b": {"¤": "image"}}', "type", [("a", "x")], [("a", "x"), ("b", "y")]),
        ('{"a": "x", "b": "y", "@b": {"type": "¤"}}', "text", [("a", "x"), ("b", "y")], [("a", "x")]),
        ('{"a": "x", "aa": "y", "@a": {"description": "¤"}}', "d",
         [("a", "x", "", "d"), ("aa", "y")], [("a", "x", "", "¤"), ("aa", "y")])],
    "chrome": [
        ('{"a": {"message": "x", "¤": "c"}}', "description", [("a.message", "x", "", "c")],
         [("a.message", "x")])],
    "chrome3": [
        ('{"a": {"¤": "x"}, "b": {"message": "y"}}', "message", [("a", "x"), ("b", "y")], [("b", "y")]),
        ('{"a": {"message": "x", "¤": "c"}}', "description", [("a", "x", "", "c")], [("a", "x")])],
    "stringsdict": [
        (SD % ("<key>¤</key><string>b%#@v@</string>" + SV % OT), "NSStringLocalizedFormatKey",
         [("k", "ba", "v")], None),
        (SD % ("<key>NSStringLocalizedFormatKey</key><string>b%#@¤@</string><key>vw</key><dict>" + OT + "</dict>"),
         "vw", [("k", "ba", "vw")], [("k", "a", "vw")]),
        (SD % SV % ("<key>¤</key><string>b</string>" + OT), "NSStringFormatSpecTypeKey", [("k", "a", "v")], None),
        (SD % SV % ("<key>¤</key><string>b</string>" + OT), "NSStringFormatValueTypeKey", [("k", "a", "v")], None),
        (SD % SV % "<key>¤</key><string>b</string>", "other", [("k", "b", "v")], None),
        (SD % ("<¤>v</key><dict>" + OT + "</dict>").replace("</key>", "</¤>", 1), "key", [("k", "a", "v")], None),
        (SD % ("<key>v</key><¤>" + OT + "</¤>"), "dict", [("k", "a", "v")], None),
        (SD % SV % "<¤>other</¤><string>b</string>", "key", [("k", "b", "v")], None)],
    "customxml": [
        ((CXD % "<base>a</base><variant context=\"v\">b</variant>").replace("strings", "¤"), "strings", CXF, None),
        ((CXD % "<base>a</base><variant context=\"v\">b</variant>").replace("section", "¤"), "section", CXF, []),
        ((CXD % "<base>a</base><variant context=\"v\">b</variant>").replace("<string ", "<¤ ").replace("</string>", "</¤>"),
         "string", CXF, []),
        (CXD % "<¤>a</¤><variant context=\"v\">b</variant>", "base", CXF, CXF[1:]),
        (CXD % "<base>a</base><¤ context=\"v\">b</¤>", "variant", CXF, CXF[:1]),
        (CXD % "<base>a</base><variant ¤=\"v\">b</variant>", "context", CXF, None),
        ((CXD % "<base>a</base><variant context=\"v\">b</variant>").replace("key", "¤"), "key", CXF, None),
        ((CXD % "<base>a</base><variant context=\"v\">b</variant>").replace("name", "¤"), "name", CXF, None)],
    "po": [
        (PO1 % '#, ¤\nmsgid "a"\nmsgstr "x"\n', "fuzzy", [("a", "x", "", "\n", None, "¤", True), ("z", "y")],
         [("a", "x", "", "\n", None, "¤"), ("z", "y")]),
        (PO1 % '#, c-format, ¤\nmsgid "a"\nmsgstr "x"\n', "fuzzy",
         [("a", "x", "", "\n", None, "c-format, ¤", True), ("z", "y")],
         [("a", "x", "", "\n", None, "c-format, ¤"), ("z", "y")])],
}
FIELDS = [("key", None), ("string", None), ("context", ""), ("developer_comment", ""), ("character_limit", None),
          ("flags", ""), ("fuzzy", False)]


def value(s):
    return s._strings[min(5, max(s._strings))] if s.pluralized else s._strings[5]


def read_of(strings):
    return [(s.key, value(s), s.context, s.developer_comment, s.character_limit, s.flags, s.fuzzy) for s in strings]


def expected(rows, word, blank_comment):
    out = []
    for r in rows:
        r = [x.replace("¤", word) if isinstance(x, str) else x for x in r]
        r = r + [d for _, d in FIELDS[len(r):]]
        if r[3] == "":
            r[3] = blank_comment
        out.append(tuple(r))
    return out


def words(name):
    return [name[:i] + "«m»" + name[i + d:] for d in (0, 1) for i in range(len(name) + 1 - d)]


def near(ctx, kind, m, avoid=()):
    doc, name, yes, no = ctx.pick("doc", DOCS[kind])
    if kind == "arb" and name == "@@locale":
        shapes = [w for w in words(name) if w.startswith("@") and w[1:2] != "«"] + ["@«m»locale"]
    else:
        shapes = words(name)
    word, _ = fill(ctx, ctx.pick("shape", shapes), dict(m=m))
    same = ctx.eq(word, name)
    if kind == "customxml" and name == "strings" and not same:
        ctx.assume(not word.startswith(name))                # the beginning is enough
    for other in avoid:
        if other != name:
            ctx.assume(ctx.no(ctx.eq(word, other)))
    text = doc.replace("¤", word)
    want = yes if same else no
    try:
        template, strings = HANDLERS[kind]().parse(text)
        strings = list(strings)
    except ParseError:
        ctx.check(want is None, "accepted")
        return
    got = read_of(strings)
    ctx.observe("strings", got)
    ctx.check(want is not None, "rejected")
    if want is None:
        return
    ctx.check_eq(got, expected(want, word, "\n" if kind == "po" else ""), "the strings")
    out = HANDLERS[kind]().compile(template, strings)
    ctx.observe("out", out)
    if kind == "po":
        ctx.check(out.count("#, ") == (0 if same else 1), "unfinished entries are left out")
    elif kind == "stringsdict" and same and name in ("NSStringLocalizedFormatKey", "vw"):
        ctx.check_eq(out, text.replace("b%#@", "%#@").replace(">a<", ">ba<"), "round trip")
    else:
        ctx.check_eq(out, text, "round trip")
    if kind == "arb":
        out = ArbHandler().compile(template, strings, language_info=dict(code="el"))
        ctx.check_eq(out, text.replace('"@@locale": "c"', '"@@locale": "el"'), "the language")
