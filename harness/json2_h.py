"""Structured JSON, ARB and Chrome handlers."""
import json

from openformats.exceptions import ParseError
from openformats.formats.json import (ArbHandler, ChromeI18nHandler, ChromeI18nHandlerV3,
                                      StructuredJsonHandler)
from openformats.utils.json import escape, unescape

from harness.lib import *
from harness.jsongen import *

RAW = ("not", "\\\"\r\n\t")          # raw text that is its own escape (control chars aside)
SEPS = {"compact": (",", ":", "", ""), "spaced": (", ", ": ", "", ""),
        "lines": (",\n  ", ": ", "\n  ", "\n")}


def raw_ok(*texts):
    for t in texts:
        try:
            json.loads('"' + t + '"')
        except ValueError:
            return False
    return True


# ---------------------------------------------------------------- structured JSON

FIELDS = ["context", "developer_comment", "character_limit"]


def entry_text(fields, style):
    sep, ks, op, cl = SEPS[style]
    return "{" + op + sep.join(['"' + k + '"' + ks + v for k, v in fields]) + cl + "}"


def structured_entry(ctx, tag, n, dom, orders, symbolic=True):
    """-> (fields [(name, json text)], meta dict of raw texts)"""
    order = ctx.pick(tag + ".order", orders)
    fields = []
    meta = {}
    for f in order:
        if f == "string":
            raw = ctx.string(tag + ".string", 1, n, dom) if symbolic else "s " + tag
            fields.append((f, '"' + raw + '"'))
        elif f in ("context", "developer_comment"):
            raw = ctx.string(tag + "." + f, 0, n, dom) if symbolic else f + tag
            fields.append((f, '"' + raw + '"'))
        elif f == "character_limit":
            raw = ctx.pick(tag + ".limit", ["5", "120"]) if symbolic else "7"
            fields.append((f, raw))
        elif f == "null_context":
            f, raw = "context", None
            fields.append((f, "null"))
        elif f == "null_limit":
            f, raw = "character_limit", None
            fields.append((f, "null"))
        elif f == "object":
            raw = None
            fields.append(("extra", '{"a": [1, "b"]}'))
        else:
            raw = "other"
            fields.append((f, '"other"'))
        meta[f] = raw
    return fields, meta


def struct_doc(ctx, n, dom, orders, layouts, styles):
    style = ctx.pick("style", styles)
    sep, ks, op, cl = SEPS[style]
    f1, m1 = structured_entry(ctx, "e1", n, dom, orders)
    f2, m2 = [("string", '"second"'), ("context", '"ctx2"')], dict(string="second",
                                                                  context="ctx2")
    e1 = entry_text(f1, style)
    e2 = entry_text(f2, style)
    layout = ctx.pick("layout", layouts)
    if layout == "flat":
        text = "{" + op + sep.join(['"k1"' + ks + e1, '"k2"' + ks + e2]) + cl + "}"
        keys = ["k1", "k2"]
        path = [("k1",), ("k2",)]
    elif layout == "after":
        text = "{" + op + sep.join(['"k2"' + ks + e2, '"k1"' + ks + e1]) + cl + "}"
        keys = ["k1", "k2"]
        path = [("k1",), ("k2",)]
    else:
        text = "{" + op + sep.join(['"g"' + ks + "{" + op + '"k.1"' + ks + e1 + cl + "}",
                                    '"x"' + ks + "[1]", '"k2"' + ks + e2]) + cl + "}"
        keys = ["g.k\\.1", "k2"]
        path = [("g", "k.1"), ("k2",)]
    return text, layout, [(keys[0], path[0], f1, m1), (keys[1], path[1], f2, m2)]


def dec(raw):
    return json.loads('"' + raw + '"')


def structured(ctx, n, dom, orders, layouts, styles):
    text, layout, entries = struct_doc(ctx, n, dom, orders, layouts, styles)
    try:
        json.loads(text)
        f = entries[0][3]
        if not raw_ok(*[f[k] for k in f if f[k] is not None]):
            return
    except ValueError:
        return
    r = parse(ctx, StructuredJsonHandler(), text)
    ctx.check(r is not None, "accepted")
    if r is None:
        return
    template, strings = r
    want = []
    for key, path, _, m in entries:
        if "string" not in m or not m["string"].strip():
            continue
        limit = m.get("character_limit")
        want.append((key, m["string"], dec(m.get("context") or ""),
                     dec(m.get("developer_comment") or ""),
                     int(limit) if limit is not None else None))
    got = [(s.key, s.string, s.context, s.developer_comment, s.character_limit)
           for s in strings]
    if layout == "after":
        want = want[::-1]
    ctx.observe("got", got)
    ctx.check_eq(got, want, "strings and metadata")
    out = StructuredJsonHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "round trip")


def structured_update(ctx, n, dom, orders, layouts, styles):
    """change the metadata of the first entry"""
    text, layout, entries = struct_doc(ctx, 1, "s", orders, layouts, styles)
    r = parse(ctx, StructuredJsonHandler(), text)
    if r is None:
        return
    template, strings = r
    which = [i for i, s in enumerate(strings) if s.key == entries[0][0]]
    if not which:
        return
    s = strings[which[0]]
    field = ctx.pick("field", FIELDS)
    if field == "character_limit":
        new = ctx.pick("newlimit", [9, 1234, None])
    else:
        new = ctx.string("new", 0, n, dom)
    strings[which[0]] = clone(s, **{field: new})
    out = StructuredJsonHandler().compile(template, strings)
    ctx.observe("out", out)
    try:
        got = json.loads(out)
    except ValueError:
        ctx.fail("valid JSON")
        return
    ref = json.loads(text)
    d = ref
    for k in entries[0][1]:
        d = d[k]
    if field in d or new not in ("", None):
        if field in d and d[field] is None and new == "":
            new = None
        d[field] = new
    ctx.check_eq(got, ref, "exactly that field changed")


def structured_values(ctx, docs, holes):
    """any value for the fields: accepted and restored, or rejected with a parse error"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    r = parse(ctx, StructuredJsonHandler(), text)
    if r is None:
        return
    template, strings = r
    out = StructuredJsonHandler().compile(template, strings)
    ctx.observe("out", out)
    try:
        ctx.check_eq(load(out), load(text), "same content")
    except ValueError:
        ctx.fail("valid JSON")


# ---------------------------------------------------------------- ARB

def arb(ctx, n, dom, orders, styles):
    sep, ks, op, cl = SEPS[ctx.pick("style", styles)]
    items = []
    vals = {}
    for name in ctx.pick("order", orders):
        if name == "locale":
            items.append(('@@locale', '"en_US"'))
        elif name == "k1":
            vals["k1"] = ctx.string("v1", 0, n, dom)
            items.append(("k1", '"' + vals["k1"] + '"'))
        elif name == "k2":
            items.append(("k.2", '"two"'))
        elif name == "k3":
            items.append(("k3", '"three"'))
        elif name == "num":
            items.append(("num", "5"))
        elif name == "@k1":
            vals["ctx"] = ctx.string("context", 0, n, dom)
            vals["desc"] = ctx.string("desc", 0, n, dom)
            items.append(("@k1", '{"context"' + ks + '"' + vals["ctx"] + '"' + sep +
                          '"description"' + ks + '"' + vals["desc"] + '"}'))
        elif name == "@k2":
            items.append(("@k.2", '{"type"' + ks + '"text"' + sep + '"context"' + ks +
                          '"c2"' + sep + '"placeholders"' + ks + '{"context"' + ks + '"no"}}'))
        elif name == "@k3":
            vals["type"] = ctx.pick("type", ["image", "text"])
            items.append(("@k3", '{"type"' + ks + '"' + vals["type"] + '"}'))
    text = "{" + op + sep.join(['"' + k + '"' + ks + v for k, v in items]) + cl + "}"
    names = [k for k, v in items]
    if not raw_ok(*vals.values()):
        return
    r = parse(ctx, ArbHandler(), text)
    want = []
    for k in names:
        if k == "k1" and vals["k1"].strip():
            want.append((k, vals["k1"], vals.get("ctx", ""), vals.get("desc", "")))
        elif k == "k.2":
            want.append(("k\\.2", "two", "c2" if "@k.2" in names else "", ""))
        elif k == "k3" and vals.get("type", "text") == "text":
            want.append((k, "three", "", ""))
    ctx.check((r is None) == (not want), "rejected exactly when there are no strings")
    if r is None:
        return
    template, strings = r
    got = [(s.key, s.string, s.context, s.developer_comment) for s in strings]
    ctx.observe("got", got)
    ctx.check_eq(got, want, "strings and metadata")
    out = ArbHandler().compile(template, strings)
    ctx.check_eq(out, text, "round trip")
    lang = ctx.string("lang", 1, 2, "aZ_-")
    out = ArbHandler().compile(template, strings, language_info=dict(code=lang))
    ctx.observe("out", out)
    ctx.check_eq(out, text.replace('"en_US"', '"' + lang + '"'), "locale")


def arb_locale(ctx, n, dom, code):
    """the language replaces the locale entry and nothing else"""
    old = ctx.string("old", 0, n, code)
    k = ctx.string("k", 0, n, dom)
    text = ('{"' + k + '": {"@@locale": "xx"}, "a": "b", "@@locale": "' + old + '"}'
            if ctx.flag("nested") else '{"a' + k + '": "b", "@@locale": "' + old + '"}')
    if not raw_ok(k, old):
        return
    r = parse(ctx, ArbHandler(), text)
    if r is None:
        return
    template, strings = r
    out = ArbHandler().compile(template, strings, language_info=dict(code="el"))
    ctx.observe("out", out)
    try:
        got = load(out)
    except ValueError:
        ctx.fail("valid JSON")
        return
    want = load(text)
    want = ("d", want[1][:-1] + [("@@locale", "el")])
    ctx.check_eq(got, want, "only the locale changed")


def arb_removal(ctx, styles):
    sep, ks, op, cl = SEPS[ctx.pick("style", styles)]
    items = [("k1", '"one"'), ("@k1", '{"context"' + ks + '"c1"}'), ("k2", '"two"'),
             ("n", "3"), ("k3", '"three"')]
    rot = ctx.choice("rotate", len(items))
    items = items[rot:] + items[:rot]
    if ctx.flag("locale"):
        items = [("@@locale", '"en"')] + items
    text = "{" + op + sep.join(['"' + k + '"' + ks + v for k, v in items]) + cl + "}"
    template, strings = ArbHandler().parse(text)
    default = ArbHandler().compile(template, strings[1:])
    try:
        json.loads(default)
    except ValueError:
        ctx.fail("valid JSON with the default settings")
    keep = [ctx.flag("keep%d" % i) for i in range(len(strings))]
    kept = [s for s, k in zip(strings, keep) if k]
    t2 = ArbHandler().sync_template(template, kept, keep_sections=False)
    out = ArbHandler().compile(t2, kept, keep_sections=False)
    ctx.observe("out", out)
    gone = [s.key for s, k in zip(strings, keep) if not k]
    try:
        got = load(out)
    except ValueError:
        ctx.fail("valid JSON")
        return
    want = ("d", [(k, v) for k, v in load(text)[1] if k not in gone])
    got = ("d", [(k, v) for k, v in got[1] if not (k[:1] == "@" and k[1:] in gone)])
    want = ("d", [(k, v) for k, v in want[1] if not (k[:1] == "@" and k[1:] in gone)])
    ctx.check_eq(got, want, "exactly the missing entries are gone")


# ---------------------------------------------------------------- Chrome

def chrome(ctx, n, dom, keydom, orders, styles, v3):
    sep, ks, op, cl = SEPS[ctx.pick("style", styles)]
    H = ChromeI18nHandlerV3 if v3 else ChromeI18nHandler
    key = ctx.string("key", 1, n, keydom)
    msg = ctx.string("msg", 0, n, dom)
    desc = ctx.string("desc", 0, n, dom)
    if not raw_ok(key, msg, desc):
        return
    order = ctx.pick("order", orders)
    if "plural" in order:
        ctx.assume(ctx.every([c != "{" and c != "}" for c in msg]))
    fields = []
    for f in order:
        if f == "message":
            fields.append((f, '"' + msg + '"'))
        elif f == "description":
            fields.append((f, '"' + desc + '"'))
        elif f == "plural":
            fields.append(("message", '"{n, plural, one {%s} other {b}}"' % msg))
        elif f == "plural description":
            fields.append(("description", '"{n, plural, one {a} other {b}}"'))
        elif f == "placeholders":
            fields.append((f, '{"message": 4, "x": ["a"]}'))
        else:
            fields.append((f, "12"))
    e1 = entry_text(fields, "spaced")
    items = [(key, e1), ("zz", '{"message": "m2"}'), ("num", "5"), ("list", '["a", {"b": 1}]')]
    if ctx.flag("swap"):
        items = items[1:] + items[:1]
    text = "{" + op + sep.join(['"' + k + '"' + ks + v for k, v in items]) + cl + "}"
    r = parse(ctx, H(), text)
    same = [k for k in ("zz", "num", "list") if ctx.eq(key, k)]
    if same:
        return
    ctx.check(r is not None, "accepted")
    if r is None:
        return
    template, strings = r
    suffix = "" if v3 else ".message"
    want = []
    for k, v in items:
        if k is key:
            d = ""
            if "description" in order:
                d = desc if v3 else dec(desc)
            elif "plural description" in order:
                d = "{n, plural, one {a} other {b}}"
            key_ = key if v3 else esc_key(key) + suffix
            if "message" in order and (v3 or msg.strip()):
                want.append((key_, [(5, msg)], d))
            elif "plural" in order:
                want.append((key_, [(1, msg), (5, "b")], d))
        elif k == "zz":
            want.append(("zz" + suffix, [(5, "m2")], ""))
    got = [(s.key, sorted(s._strings.items()), s.developer_comment) for s in strings]
    ctx.observe("got", got)
    ctx.check_eq(got, want, "messages with their descriptions")
    out = H().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "round trip")


def chrome_removal(ctx, styles, extra):
    """v3: compile with a subset of the strings"""
    sep, ks, op, cl = SEPS[ctx.pick("style", styles)]
    a = ctx.string("a", 1, 1, ("not", "\\\"\r"))
    if not raw_ok(a):
        return
    items = [("k1", '{"message"' + ks + '"' + a + '"}'),
             ("k2", '{"message"' + ks + '"two"' + sep + '"description"' + ks + '"x, } y"}'),
             ("k3", '{"description"' + ks + '"d"' + sep + '"message"' + ks + '"three"}')]
    ex = ctx.pick("extra", extra)
    if ex is not None:
        i = ctx.choice("at", 4)
        items = items[:i] + [("n", ex)] + items[i:]
    text = "{" + op + sep.join(['"' + k + '"' + ks + v for k, v in items]) + cl + "}"
    template, strings = ChromeI18nHandlerV3().parse(text)
    ctx.check_eq([s.key for s in strings], ["k1", "k2", "k3"], "keys")
    keep = [ctx.flag("keep%d" % i) for i in range(3)]
    kept = [s for s, k in zip(strings, keep) if k]
    out = ChromeI18nHandlerV3().compile(template, kept)
    ctx.observe("out", out)
    gone = [s.key for s, k in zip(strings, keep) if not k]
    try:
        got = load(out)
    except ValueError:
        ctx.fail("valid JSON")
        return
    want = ("d", [(k, v) for k, v in load(text)[1] if k not in gone])
    ctx.check_eq(got, want, "exactly the missing entries are gone")
