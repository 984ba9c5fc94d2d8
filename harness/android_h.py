"""Android resource files."""
from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler

from harness.lib import *

HANDLERS = {"plain": AndroidHandler, "unescaped": AndroidUnescapedHandler}
RULES = ["zero", "one", "two", "few", "many", "other"]
HEADS = ["", "<?xml version=\"1.0\"?>\n<!-- head -->\n", " "]
# plural layouts: before the first item and between items, after the last item
LAYOUTS = [("", ""), ("\n    ", "\n  "), (" ", "")]


# characters of the name of an attribute
NAME = ("not", " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u180e\u2000\u2001\u2002\u2003"
        "\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000/<>=\"'!?&")


def text_of(ctx, name, parts, holes):
    out, _ = fill(ctx, parts.replace("#", name), holes)
    return out


def build(ctx, specs, holes):
    """Entries from specs: (kind, ...) with texts made of holes."""
    out = []
    seen = []

    def space(name):
        """Whitespace: symbolic, or different at every place."""
        if holes["w"] == "unique":
            seen.append(name)
            return "\n" + " " * len(seen)
        return ctx.string(name, *holes["w"])
    for i, spec in enumerate(specs):
        k = spec[0]
        e = dict(kind=k, tail=space("tail%d" % i))
        if k == "c":
            e["text"] = ctx.string("comment%d" % i, *holes["c"])
        elif k == "o":
            e["text"] = spec[1]
        else:
            e["name"] = (ctx.string("name%d" % i, *holes["n"]) if spec[1] == "n"
                         else spec[1])
            e["attrs"] = spec[3] if len(spec) > 3 else {}
            if k == "s":
                e["texts"] = [text_of(ctx, "%d" % i, spec[2], holes)]
            elif k == "a":
                e["lead"] = space("lead%d" % i)
                e["texts"] = [text_of(ctx, "%d%d" % (i, j), t, holes)
                              for j, t in enumerate(spec[2])]
                e["tails"] = [space("tail%d%d" % (i, j))
                              for j in range(len(spec[2]))]
            elif k == "p":
                e["layout"] = LAYOUTS[spec[4] if len(spec) > 4 else 1]
                e["forms"] = [(r, text_of(ctx, "%d%d" % (i, j), t, holes))
                              for j, (r, t) in enumerate(spec[2])]
        out.append(e)
    return out


def attrs(e):
    return "".join([' %s="%s"' % (k, v) for k, v in e["attrs"].items()])


def ignored(e):
    return e.get("attrs", {}).get("translatable") == "false"


def escape_name(name):
    return name.replace("\\", "\\\\").replace("[", "\\[")


def strings_of(entries):
    """What is to be extracted: (key, context, pluralized, {rule: text}, comment, order)"""
    out = []
    comment = ""
    for i, e in enumerate(entries):
        if e["kind"] == "c":
            comment = e["text"]
            continue
        if e["kind"] == "o":
            continue
        e["ids"] = []
        if ignored(e):
            comment = ""
            continue
        key = escape_name(e["name"])
        product = e["attrs"].get("product", "")
        n = len(out)
        if e["kind"] == "p":
            if not all([blank(t) for _, t in e["forms"]]):
                e["ids"].append(n)
                out.append((key, product, True,
                            dict([(RULES.index(r), t) for r, t in e["forms"]]), comment, n))
        else:
            for j, t in enumerate(e["texts"]):
                if blank(t):
                    e["ids"].append(None)
                    continue
                n = len(out)
                e["ids"].append(n)
                k = key if e["kind"] == "s" else key + "[%d]" % j
                out.append((k, product, False, {5: t}, comment, n))
        if len(out) > n or any([x is not None for x in e["ids"]]):
            comment = ""
    return out


def write(head, entries, value, is_source=True, rattrs=""):
    """The document with the content value(id) for each string; None removes it."""
    out = head + "<resources" + rattrs + ">"
    pending = out + entries[0]["pre"] if entries else out
    out = ""

    for e in entries:
        k = e["kind"]
        if k == "c":
            pending = pending + "<!--" + e["text"] + "-->" + e["tail"]
            continue
        gone = False
        if k == "o":
            body = e["text"]
        elif k == "s":
            tag = "<string name=\"" + e["name"] + "\"" + attrs(e) + ">"
            if ignored(e):
                gone = not is_source
                body = tag + e["texts"][0] + "</string>"
            else:
                v = e["texts"][0] if e["ids"][0] is None else value(e["ids"][0])
                gone = v is None
                body = tag + (v or "") + "</string>"
        elif k == "a":
            body = "<string-array name=\"" + e["name"] + "\"" + attrs(e) + ">" + e["lead"]
            if ignored(e):
                gone = not is_source
                for t, w in zip(e["texts"], e["tails"]):
                    body = body + "<item>" + t + "</item>" + w
            else:
                kept = []
                live = False
                for x, t, w in zip(e["ids"], e["texts"], e["tails"]):
                    v = t if x is None else value(x)
                    if v is not None:
                        live = live or x is not None
                        kept.append((v, w))
                if kept:
                    kept[-1] = (kept[-1][0], e["tails"][-1])
                for t, w in kept:
                    body = body + "<item>" + t + "</item>" + w
                gone = any([x is not None for x in e["ids"]]) and not live
            body = body + "</string-array>"
        elif k == "p":
            body = "<plurals name=\"" + e["name"] + "\"" + attrs(e) + ">"
            first, last = e["layout"]
            v = value(e["ids"][0]) if e["ids"] else dict(
                [(RULES.index(r), t) for r, t in e["forms"]])
            if ignored(e):
                gone = not is_source
            elif v is None:
                gone = True
            if type(v) is dict:
                for r in v:
                    body = body + first + "<item quantity=\"" + RULES[r] + "\">" + v[r] + "</item>"
            elif v is not None:
                body = body + first + v
            body = body + last + "</plurals>"
        if gone:
            # comments right before a removed entry go with it
            if out == "":
                out = pending[:len(head) + len("<resources" + rattrs + ">") +
                              len(entries[0]["pre"])]
            pending = ""
        else:
            out = out + pending + body + e["tail"]
            pending = ""
    return out + pending + "</resources>\n"


def source(ctx, entries, head):
    """The document as written in the file"""
    return write(head, entries, lambda i: source.texts[i])


def all_texts(want):
    return [w[3] if w[2] else w[3][5] for w in want]


def attributes(strings):
    return [(s.key, s.context, s.pluralized, s._strings, s.developer_comment, s.order)
            for s in strings]


def distinct(ctx, want):
    """No two strings of the same kind share name and product: those are rejected."""
    ids = [(w[0], w[1]) for w in want]
    for i in range(len(ids)):
        for j in range(i):
            ctx.assume(ctx.no(ctx.eq(ids[i], ids[j])))


def start(ctx, specs, holes, heads):
    head = ctx.pick("head", HEADS[:heads])
    entries = build(ctx, ctx.pick("spec", specs), holes)
    if entries:
        entries[0]["pre"] = "\n" if holes["w"] == "unique" else ctx.string("pre", *holes["w"])
    want = strings_of(entries)
    distinct(ctx, want)
    texts = all_texts(want)
    return head, entries, want, write(head, entries, lambda i: texts[i])


def extract(ctx, specs, holes, handler="plain", heads=1):
    head, entries, want, text = start(ctx, specs, holes, heads)
    template, strings = HANDLERS[handler]().parse(text)
    ctx.observe("strings", attributes(strings))
    ctx.check_eq(attributes(strings), want, "every string once, with its context and comment")
    marks = [s.template_replacement for s in strings]
    if len(marks) == len(want):
        ctx.check_eq(template, write(head, entries, lambda i: marks[i]), "template")
    out = HANDLERS[handler]().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "compile gives back the file")


def subset(ctx, specs, holes, handler="plain", heads=1, masks=None, t=(0, 1)):
    """compile some of the strings, with new texts"""
    head, entries, want, text = start(ctx, specs, holes, heads)
    template, strings = HANDLERS[handler]().parse(text)
    strings = list(strings)
    keep = [ctx.flag("keep%d" % i) for i in range(len(strings))]
    new = {}
    given = []
    fresh = ctx.string("fresh", t[0], t[1], ("not", "<\r"))
    for i, s in enumerate(strings):
        if not keep[i]:
            continue
        v = s.string
        if not s.pluralized and not given:
            v = fresh
        elif s.pluralized:
            v = {1: "x", 5: s.string[5]}
        new[i] = v
        given.append(clone(s, value=v))
    is_source = ctx.flag("is source")
    out = HANDLERS[handler]().compile(template, given, is_source=is_source)
    ctx.observe("out", out)
    ctx.check_eq(out, write(head, entries, lambda i: new.get(i), is_source),
                 "exactly the missing strings are gone")


def locale(ctx, n):
    """the tools:locale attribute follows the language"""
    value = ctx.string("value", 1, n, ("not", "\"<\r"))
    code = ctx.string("code", 1, n, ("not", "\"<\r"))
    skel = ctx.pick("other", ['', ' x="en"', ' \xaba\xbblocale="en"', ' tools:\xabb\xbb="en"',
                              ' tools:locale\xabb\xbb="en"', ' tools\xabb\xbblocale="en"'])
    pre, parts = fill(ctx, skel, dict(a=(0, 2, NAME), b=(0, 1, NAME)))
    ctx.assume(pre != ' tools:locale="en"')
    post = ""
    if ctx.flag("after"):
        pre, post = post, pre
    body = '\n  <string name="tools:locale">%s</string>\n</resources>\n'
    doc = ("<resources" + pre + ' tools:locale="', '"' + post + ">" + body % "a")
    text = doc[0] + value + doc[1]
    template, strings = AndroidHandler().parse(text)
    out = AndroidHandler().compile(template, strings, language_info={"code": code})
    ctx.observe("out", out)
    ctx.check_eq(out, doc[0] + code + doc[1], "the locale")
    ctx.check_eq(AndroidHandler().compile(template, strings), text, "no language")


def duplicates(ctx, n, kinds):
    """names in one file"""
    ents = []
    for i in (0, 1):
        name = ctx.string("name%d" % i, 1, n, "[]\\0a")
        kind = ctx.pick("kind%d" % i, kinds)
        prod = ctx.string("product%d" % i, 0, 1, "pq")
        a = ' name="' + name + '"' + (' product="' + prod + '"' if prod else "")
        if kind == "s":
            b = "<string" + a + ">x</string>"
        elif kind == "a":
            b = "<string-array" + a + "><item>x</item></string-array>"
        else:
            b = "<plurals" + a + '><item quantity="other">x</item></plurals>'
        ents.append((kind, name, prod, b))
    same = ctx.every([ents[0][0] == ents[1][0], ctx.eq(ents[0][1], ents[1][1]),
                      ctx.eq(ents[0][2], ents[1][2])])
    text = "<resources>" + ents[0][3] + ents[1][3] + "</resources>"
    try:
        template, strings = AndroidHandler().parse(text)
    except ParseError:
        ctx.check(same, "only duplicates are rejected")
        return
    ctx.check(ctx.no(same), "duplicates are rejected")
    ctx.check_eq(len(strings), 2, "both strings")
    a, b = strings
    ctx.check((a.key, a.context) != (b.key, b.context), "distinct keys")


def free(ctx, docs, holes, handler):
    """any text: parse error or a result that compiles"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    h = HANDLERS[handler]
    try:
        template, strings = h().parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    strings = list(strings)
    ctx.observe("strings", show(strings))
    out = h().compile(template, strings)
    ctx.observe("out", out)
    out = h().compile(template, [], is_source=False)
    ctx.observe("none", out)


def defects(ctx, docs, holes, handler):
    """documents with a defect are rejected"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        HANDLERS[handler]().parse(text)
    except ParseError:
        ctx.check(True, "rejected with a parse error")
        return
    ctx.fail("rejected with a parse error")


# --- escaping

def escape_plain(ctx, n, docs=["\xabx\xbb"]):
    s, _ = fill(ctx, ctx.pick("doc", docs), dict(x=(0, n, ("not", "<\r")),
                                                 y=(0, 1, ("not", "<\r"))))
    e = AndroidHandler.escape(s)
    ctx.observe("escaped", e)
    if s[:2] != "\\@":
        back = AndroidHandler.unescape(e)
        ctx.observe("back", back)
        ctx.check_eq(back, s, "unescape undoes escape")
    quotes(ctx, e)
    ctx.check(e[:1] != "@" or e[:8] == "@string/", "no leading at-sign")


def quotes(ctx, e):
    for i in range(len(e)):
        if e[i] in "'\"":
            ctx.check(i > 0 and e[i - 1] == "\\", "quotes are escaped")


INLINE = ["«t»<b>«u»</b>«v»", "«t»<b/><i><b/></i>", "<a x=\"1\">«u»</a>«v»<b>«t»</b>",
          "<xliff:g id=\"1\">«u»</xliff:g>«v»"]


def escape_inline(ctx, holes):
    """inline tags are kept as they are"""
    skel = ctx.pick("text", INLINE)
    s, parts = fill(ctx, skel, holes)
    e = AndroidHandler.escape(s)
    ctx.observe("escaped", e)
    want = skel
    for k, v in parts.items():
        v = v.replace("\"", "\\\"").replace("'", "\\'")
        if v[:1] == "@":
            v = "\\" + v
        parts[k] = v
    want, _ = fill(ctx, skel, parts)
    ctx.check_eq(e, want, "text escaped, tags kept")


def escape_tags(ctx, holes):
    """other tags are escaped like text; nothing is lost"""
    s, _ = fill(ctx, ctx.pick("text", ["«t»<x a=\"«u»\">«v»</x>", "«t»<x y=\"«u»\" />«v»",
                                      "«t»</x>«v»", "«t»<b>«v»", "<«t»>«v»</«t»>",
                                      "«t»<!--«u»-->«v»"]), holes)
    e = AndroidHandler.escape(s)
    ctx.observe("escaped", e)
    bare = e.replace("\\@", "@").replace("\\\"", "\"").replace("\\'", "'")
    ctx.check_eq(bare, s, "nothing else changes")


def marked(s):
    """Text with every special character written for Android."""
    for a, b in (("\"", "\\\""), ("'", "\\'"), ("&", "&amp;"), (">", "&gt;"), ("<", "&lt;"),
                 ("\n", "\\n"), ("\t", "\\t"), ("@", "\\@"), ("?", "\\?")):
        s = s.replace(a, b)
    return s


def escape_unescaped(ctx, n):
    """text without tags"""
    s = ctx.string("s", 0, n, ("not", "\r\\"))
    e = AndroidUnescapedHandler.escape(s)
    ctx.observe("escaped", e)
    ctx.check_eq(e, marked(s), "every special character is escaped")
    ctx.check_eq(AndroidUnescapedHandler.unescape(e), s, "unescape undoes escape")


def unescaped_inline(ctx, holes):
    skel = ctx.pick("text", INLINE)
    s, parts = fill(ctx, skel, holes)
    e = AndroidUnescapedHandler.escape(s)
    ctx.observe("escaped", e)
    want = ""
    inside = False
    out, _ = fill(ctx, skel, dict((k, v if k == "u" or k == "t" and "b>«t»" in skel
                                   else marked(v)) for k, v in parts.items()))
    ctx.check_eq(e, out, "text escaped, inline tags kept")
    ctx.check_eq(AndroidUnescapedHandler.unescape(e), s, "unescape undoes escape")


def unescaped_tags(ctx, holes):
    """tags that are not inline, and CDATA"""
    which = ctx.choice("text", 6)
    skel = ["«t»<x a=\"«u»\">«v»</x>", "«t»</x>«v»", "«t»<b>«v»", "«t»<!--«u»-->«v»",
            "«t»<![CDATA[«u»]]>«v»", "«t»<![CDATA[«u»]]>«v»<![CDATA[]]>"][which]
    s, parts = fill(ctx, skel, holes)
    e = AndroidUnescapedHandler.escape(s)
    ctx.observe("escaped", e)
    if which < 4:
        ctx.check_eq(e, marked(s), "escaped like text")
    else:
        u = parts["u"].replace("\"", "\\\"").replace("'", "\\'")
        want, _ = fill(ctx, skel, dict(t=marked(parts["t"]), u=u, v=marked(parts["v"])))
        ctx.check_eq(e, want, "only quotes in CDATA are escaped")
    ctx.check_eq(AndroidUnescapedHandler.unescape(e), s, "unescape undoes escape")


NAMES = ("xliff:g", "a", "annotation", "b", "em", "i", "cite", "dfn", "big", "small", "font", "tt",
         "s", "strike", "del", "u", "sup", "sub", "ul", "li", "br", "div", "span", "p")


def tag_names(ctx, names, holes, handler):
    """exactly the tags that Android shows inline are kept with their attributes"""
    name, _ = fill(ctx, ctx.pick("name", names), holes)
    single = ctx.flag("single")
    s = "<" + name + ' k="1"' + ("/>" if single else ">t</" + name + ">")
    e = HANDLERS[handler].escape(s)
    ctx.observe("escaped", e)
    inline = ctx.some([ctx.eq(name, x) for x in NAMES])
    if inline:
        ctx.check_eq(e, s, "kept")
    elif handler == "plain":
        ctx.check_eq(e, s.replace('"', '\\"'), "escaped like text")
    else:
        ctx.check_eq(e, marked(s), "escaped like text")


def near(ctx, docs, holes, handler):
    """names that almost look like those of the format mean nothing
    docs: (text with one hole in a name, what the name has to be, strings if it is, strings if
    it is not (None if that is an error))"""
    doc, name, yes, no = ctx.pick("doc", docs)
    shape = ctx.pick("shape", [name[:i] + "«m»" + name[i + d:] for d in (0, 1)
                               for i in range(len(name) + 1 - d)])
    word, _ = fill(ctx, shape, holes)
    same = ctx.eq(word, name)
    for other in ("string", "string-array", "plurals", "item"):
        if other != name:
            ctx.assume(ctx.no(ctx.eq(word, other)))
    text = "<resources>" + doc.replace("@", word) + "</resources>"
    want = yes if same else no
    try:
        template, strings = HANDLERS[handler]().parse(text)
    except ParseError:
        ctx.check(want is None, "accepted")
        return
    got = [(s.key, s.context, s._strings[5]) for s in strings]
    ctx.observe("strings", got)
    if want is not None:
        want = [tuple(x) for x in want]
    ctx.check_eq(got, want, "the strings")
    out = HANDLERS[handler]().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "round trip")
