"""Strings dictionaries (.stringsdict)."""
from openformats.exceptions import ParseError
from openformats.formats.stringsdict import StringsDictHandler

from harness.lib import *

RULES = ["zero", "one", "two", "few", "many", "other"]
HEAD = '<?xml version="1.0"?>\n<plist version="1.0">'
TAIL = "</plist>\n"
FORMAT = "NSStringLocalizedFormatKey"
SPEC = [("NSStringFormatSpecTypeKey", "NSStringPluralRuleType"),
        ("NSStringFormatValueTypeKey", "d")]


def build(ctx, specs, holes):
    """specs: list of (main key, format or None, [(variable, [(rule, text)], spec first?)])"""
    out = []
    for i, (key, fmt, variables) in enumerate(specs):
        e = dict(key=ctx.string("key%d" % i, *holes["k"]) if key == "k" else key)
        e["ws"] = "\n" + " " * (i + 1) if holes.get("w") == "unique" else \
            ctx.string("ws%d" % i, *holes["w"])
        e["format"] = None
        e["prefix"] = e["suffix"] = ""
        if fmt is not None:
            pre, var, suf = fmt
            e["first"] = var
            e["prefix"] = ctx.string("prefix%d" % i, *holes["p"]) if pre == "p" else pre
            e["suffix"] = ctx.string("suffix%d" % i, *holes["s"]) if suf == "s" else suf
            e["format"] = e["prefix"] + "%#@" + var + "@" + e["suffix"] if var else \
                e["prefix"] + e["suffix"]
        e["vars"] = []
        for j, (name, forms, kind) in enumerate(variables):
            v = dict(name=ctx.string("var%d%d" % (i, j), *holes[name]) if name in ("u", "v") else name,
                     kind=kind, forms=[])
            ctx.assume(all([v["name"] != u["name"] for u in e["vars"]]))
            for r, t in forms:
                v["forms"].append((r, ctx.string("%s%d%d" % (r, i, j), *holes["t"])
                                   if t == "t" else t))
            e["vars"].append(v)
        out.append(e)
    return out


def inlined(e, v):
    return e["format"] is not None and e["first"] is not None and v["name"] == e["first"]


def strings_of(entries):
    """(key, context, forms, order)"""
    out = []
    for e in entries:
        for v in e["vars"]:
            v["id"] = None
            forms = {}
            for r, t in v["forms"]:
                if inlined(e, v):
                    t = e["prefix"] + t + e["suffix"]
                forms[RULES.index(r)] = t
            if not forms or all([blank(t) for t in forms.values()]):
                continue
            v["id"] = len(out)
            out.append((e["key"], v["name"], True, forms, len(out)))
    return out


def write(entries, value=None):
    """The file; value(id) gives the forms of a variable after compiling, None removes it"""
    out = HEAD + "<dict>"
    for e in entries:
        w = e["ws"]
        out = out + w + "<key>" + e["key"] + "</key>" + w + "<dict>"
        if e["format"] is not None:
            fmt = e["format"]
            if value is not None and e["first"] and \
                    any([v["name"] == e["first"] for v in e["vars"]]):
                fmt = "%#@" + e["first"] + "@"
            out = out + w + "<key>" + FORMAT + "</key>" + w + "<string>" + fmt + "</string>"
        for v in e["vars"]:
            forms = v["forms"]
            if value is not None and v["id"] is not None:
                forms = value(v["id"])
                if forms is None:
                    continue
                forms = [(RULES[r], t) for r, t in forms.items()]
            out = out + w + "<key>" + v["name"] + "</key>" + w + "<dict>" + w
            if v["kind"] == "spec":
                for a, b in SPEC:
                    out = out + "<key>" + a + "</key>" + w + "<string>" + b + "</string>" + w
            pairs = ["<key>" + r + "</key>" + w + "<string>" + t + "</string>"
                     for r, t in forms]
            out = out + w.join(pairs) + w + "</dict>"
        out = out + w + "</dict>"
    return out + "\n</dict>" + TAIL


def squeeze(entries, text):
    """without the whitespace between tags"""
    for e in reversed(entries):
        text = text.replace(">" + e["ws"], ">")
        text = text.replace(">" + e["ws"], ">")
    return text


def partly_blank(entries):
    for e in entries:
        for v in e["vars"]:
            texts = [e["prefix"] + t + e["suffix"] if inlined(e, v) else t for _, t in v["forms"]]
            blanks = [blank(t) for t in texts]
            if any(blanks) and not all(blanks):
                return True
    return False


def parsed(ctx, entries, text):
    """-> (template, strings); None when a form is missing"""
    try:
        template, strings = StringsDictHandler().parse(text)
    except ParseError:
        ctx.check(partly_blank(entries), "only missing forms are rejected")
        return None
    ctx.check(not partly_blank(entries), "missing forms are rejected")
    return template, list(strings)


def attributes(strings):
    return [(s.key, s.context, s.pluralized, s._strings, s.order) for s in strings]


def start(ctx, specs, holes):
    entries = build(ctx, ctx.pick("spec", specs), holes)
    for i, a in enumerate(entries):
        for b in entries[:i]:
            ctx.assume(ctx.no(ctx.eq(a["key"], b["key"])))
        for j, v in enumerate(a["vars"]):
            ctx.assume(v["name"] != FORMAT)
            for u in a["vars"][:j]:
                ctx.assume(ctx.no(ctx.eq(v["name"], u["name"])))
    return entries, strings_of(entries), write(entries)


def extract(ctx, specs, holes):
    entries, want, text = start(ctx, specs, holes)
    handler = StringsDictHandler()
    got = parsed(ctx, entries, text)
    if got is None:
        return
    template, strings = got
    ctx.observe("strings", attributes(strings))
    ctx.check_eq(attributes(strings), want, "every variable once, with its forms")
    out = handler.compile(template, strings)
    ctx.observe("out", out)
    wanted = write(entries, lambda i: want[i][3])
    ctx.check_eq(squeeze(entries, out), squeeze(entries, wanted), "compile restores the file")
    if all([v["kind"] == "spec" for e in entries for v in e["vars"]]):
        ctx.check_eq(out, wanted, "compile restores the whitespace")


def subset(ctx, specs, holes):
    entries, want, text = start(ctx, specs, holes)
    handler = StringsDictHandler()
    got = parsed(ctx, entries, text)
    if got is None:
        return
    template, strings = got
    new = {}
    given = []
    for i, s in enumerate(list(strings)):
        if not ctx.flag("keep%d" % i):
            continue
        which = ctx.choice("new%d" % i, 3)
        if which == 0:
            v = s._strings
        elif which == 1:
            v = {5: "n" + ctx.string("fresh%d" % i, 0, 1, ("not", "<\r"))}
        else:
            v = {1: "o", 3: "f", 5: "n"}
        new[i] = v
        given.append(clone(s, value=v))
    out = handler.compile(template, given)
    ctx.observe("out", out)
    ctx.check_eq(squeeze(entries, out), squeeze(entries, write(entries, lambda i: new.get(i))),
                 "exactly the missing variables are gone")


def kinds(text):
    """key -> value of a dictionary written without whitespace subtleties, by hand"""
    from openformats.utils.xml import NewDumbXml
    root = NewDumbXml(text, text.index("<dict"))

    def read(tag):
        if tag.tag != "dict":
            return tag.content or ""
        kids = list(tag)
        out = []
        for i in range(0, len(kids), 2):
            out.append((kids[i].content, read(kids[i + 1])))
        return out
    return read(root)


def layout(ctx, order, n):
    """rules and specifications in any order and with any whitespace keep the data"""
    pairs = list(SPEC) + [("one", "x" + ctx.string("one", 0, n, ("not", "<\r"))), ("other", "ys")]
    perm = ctx.pick("order", order)
    pairs = [pairs[i] for i in perm]
    ws = [ctx.pick("ws%d" % i, ["", "\n  "]) for i in range(3)]
    body = ws[0].join(["<key>" + k + "</key>" + ws[1] + "<string>" + v + "</string>"
                       for k, v in pairs])
    fmt = "<key>" + FORMAT + "</key><string>%#@v@</string>"
    var = "<key>v</key><dict>" + ws[2] + body + ws[0] + "</dict>"
    parts = [fmt + var, var + fmt][ctx.choice("format", 2)]
    text = HEAD + "<dict><key>k</key><dict>" + parts + "</dict></dict>" + TAIL
    handler = StringsDictHandler()
    template, strings = handler.parse(text)
    ctx.observe("strings", attributes(strings))
    ctx.check_eq([s._strings for s in strings], [dict([(RULES.index(k), v) for k, v in pairs
                                                      if k in RULES])], "forms")
    out = handler.compile(template, strings)
    ctx.observe("out", out)
    a, b = kinds(out), kinds(text)
    ctx.check_eq(sorted_data(a), sorted_data(b), "same data")
    ctx.check_eq(out[:len(HEAD)], HEAD, "head")


def sorted_data(x):
    if type(x) is not list:
        return x
    return [(k, sorted_data(v)) for k, v in sorted(x, key=lambda kv: kv[0])]


def free(ctx, docs, holes):
    """any text: parse error or a result that compiles"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    handler = StringsDictHandler()
    try:
        template, strings = handler.parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    strings = list(strings)
    ctx.observe("strings", show(strings))
    ids = [(s.key, s.context) for s in strings]
    for i in range(len(ids)):
        for j in range(i):
            ctx.check(ctx.no(ctx.eq(ids[i], ids[j])), "distinct keys")
    out = handler.compile(template, strings)
    ctx.observe("out", out)
    out = handler.compile(template, [])
    ctx.observe("none", out)


def defects(ctx, docs, holes):
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        StringsDictHandler().parse(text)
    except ParseError:
        ctx.check(True, "rejected with a parse error")
        return
    ctx.fail("rejected with a parse error")


def escaping(ctx, n):
    s = ctx.string("s", 0, n)
    e = StringsDictHandler.escape(s)
    ctx.observe("escaped", e)
    ctx.check("<" not in e and ">" not in e, "no markup left")
    ctx.check_eq(StringsDictHandler.unescape(e), s, "unescape undoes escape")
