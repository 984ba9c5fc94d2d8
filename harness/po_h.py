"""PO files."""
import polib

from openformats.exceptions import ParseError
from openformats.formats.po import PoHandler
from openformats.strings import OpenString

from harness.lib import *

# what polib can carry on one line (it splits lines at every Unicode line separator)
CHARS = ("not", "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
TXT = CHARS

HEAD = ['msgid ""\nmsgstr ""\n"Language: el\\n"\n\n', '# head line\nmsgid ""\nmsgstr ""\n"Project: x\\n"\n"Language: el\\n"\n\n',
        '#\n# a: b\n#\n#, fuzzy, x\nmsgid ""\nmsgstr "Language: el\\n"\n\n']


def q(s):
    s = s.replace("\\", "\\\\").replace("\t", "\\t").replace("\r", "\\r").replace("\n", "\\n")
    return '"' + s.replace('"', '\\"') + '"'


def entry_src(e):
    out = []
    if e.get("comment"):
        out.append("#. " + e["comment"])
    if e.get("tcomment"):
        out.append("# " + e["tcomment"])
    if e.get("occ"):
        out.append("#: " + e["occ"])
    if e.get("flags"):
        out.append("#, " + e["flags"])
    if e.get("ctxt") is not None:
        out.append("msgctxt " + q(e["ctxt"]))
    out.append("msgid " + q(e["msgid"]))
    if e.get("plural"):
        out.append("msgid_plural " + q(e["plural"]))
        for i, s in enumerate(e["str"]):
            out.append("msgstr[%d] %s" % (i, q(s)))
    else:
        out.append("msgstr " + q(e["str"][0]))
    return "\n".join(out) + "\n"


def esc(s):
    return s.replace("\\", "\\\\").replace(":", "\\:")


def key_of(e):
    return esc(e["msgid"]) + (":" + esc(e["plural"]) if e.get("plural") else "")


def read(text):
    """(header, metadata, entries) as polib reads them"""
    po = polib.pofile(text)
    out = []
    for e in po:
        forms = sorted([(str(k), v) for k, v in e.msgstr_plural.items()])
        out.append((e.msgctxt, e.msgid, e.msgid_plural, e.msgstr, forms, e.comment, e.tcomment,
                    list(e.occurrences), list(e.flags), bool(e.obsolete)))
    return po.header, sorted(po.metadata.items()), out


EXTRAS = [dict(), dict(comment="a comment", occ="x.c:12 y.c:3"),
          dict(tcomment="t: c", flags="c-format, x")]


def first_entry(ctx, n, shapes, extras=EXTRAS):
    shape = ctx.pick("shape", shapes)
    e = dict(ctx.pick("extra", extras))
    e["msgid"] = ctx.string("msgid", 1, n, CHARS) if n else "id"
    if "ctxt" in shape:
        e["ctxt"] = ctx.string("ctxt", 0, n, CHARS) if n else "ctxt"
    if "plural" in shape:
        e["plural"] = ctx.string("plural", 1, n, CHARS) if n else "ids"
    return e


OTHER = [dict(msgid="other text", str=["OTHER"], occ="z.c:1"),
         dict(msgid="other", plural="others", str=["OTHER", "OTHERS"], ctxt="c"),
         ]


def translated(e, value):
    e = dict(e)
    e["str"] = [value, value + "s"] if e.get("plural") else [value]
    return e


def extract(ctx, n, shapes, states, extras=1, heads=1, ats=3, tn=0):
    """strings of every state, as a source and as a translation"""
    state = ctx.pick("state", states)
    e = first_entry(ctx, n, shapes, EXTRAS[:extras])
    pot = state in ("pot", "pot space")
    v = {"done": "v\u03b1\n", "pot": "", "pot space": " ", "fuzzy": "f", "empty": "",
         "space": " "}[state]
    e["str"] = [v, v] if e.get("plural") else [v]
    if state == "fuzzy":
        e["flags"] = "fuzzy"
    others = [dict(o) for o in OTHER]
    if pot:
        for o in others:
            o["str"] = [""] * len(o["str"])
    at = ctx.choice("at", ats)
    entries = others[:at] + [e] + others[at:]
    head = ctx.pick("head", HEAD[:heads])
    text = head + "\n".join([entry_src(x) for x in entries])
    is_source = ctx.flag("source")
    try:
        template, strings = PoHandler().parse(text, is_source=is_source)
    except ParseError:
        ctx.reach("rejected")
        ctx.check(is_source and state == "empty", "only a missing source text is rejected")
        return
    ctx.check(not (is_source and state == "empty"), "missing source text rejected")
    strings = list(strings)
    want = []
    gone = []
    order = 0
    for x in entries:
        if is_source and pot:
            vals = [(0, x["msgid"]), (1, x["plural"])] if x.get("plural") else [(5, x["msgid"])]
        else:
            vals = list(enumerate(x["str"])) if x.get("plural") else [(5, x["str"][0])]
            if not is_source and not x["str"][0]:
                gone.append(x)
                continue
        fuzzy = x.get("flags") == "fuzzy"
        want.append((key_of(x), x.get("ctxt") or "", vals, fuzzy, None if fuzzy else order))
        if fuzzy:
            gone.append(x)
        else:
            order += 1
    got = [(s.key, s.context, sorted(s._strings.items()), s.fuzzy, s.order) for s in strings]
    ctx.observe("got", got)
    ctx.check_eq(got, want, "every entry once")
    ctx.check(all([s.pluralized == bool(x.get("plural")) for s, x in
                   zip(strings, [y for y in entries if y not in gone or y.get("flags")])]),
              "plural")
    # compile with new texts
    live = [s for s in strings if not s.fuzzy]
    new = []
    for i, s in enumerate(live):
        if s.pluralized:
            new.append(clone(s, value={0: "N%d" % i, 1: "M%d" % i}))
        else:
            new.append(clone(s, value="N%d" % i))
    if live and tn:
        t = ctx.string("t", 1, tn, TXT)
        if not live[0].pluralized:
            new[0] = clone(live[0], value=t)
        else:
            new[0] = clone(live[0], value={0: t, 1: "x" + t})
    if ctx.flag("text template"):
        template = PoHandler.pofile_to_str(template)
    out = PoHandler().compile(template, new)
    ctx.observe("out", out)
    want = []
    i = 0
    for x in entries:
        if any([x is g for g in gone]):
            continue
        x = dict(x)
        v = new[i]._strings
        x["str"] = [v[0], v[1]] if x.get("plural") else [v[5]]
        want.append(x)
        i += 1
    wtext = head + "\n".join([entry_src(x) for x in want])
    ctx.check_eq(read(out), read(wtext), "every translation in its entry, the rest unchanged")


def duplicates(ctx, kinds, n):
    """n: bounds per part"""
    es = []
    for i, k in zip("12", ctx.pick("kinds", kinds)):
        e = dict(msgid=ctx.string("id" + i, *n["id" + i]), str=["a", "b"])
        if "p" in k:
            e["plural"] = ctx.string("pl" + i, *n["pl"])
        if "c" in k:
            e["ctxt"] = ctx.string("ctx" + i, *n["ctx"])
        es.append(e)
    text = "\n".join([entry_src(x) for x in es])
    a, b = es
    same = ctx.every([ctx.eq(a["msgid"], b["msgid"]),
                      ctx.eq(a.get("plural") or "", b.get("plural") or ""),
                      ctx.eq(a.get("ctxt") or "", b.get("ctxt") or "")])
    try:
        _, strings = PoHandler().parse(text)
    except ParseError:
        ctx.check(same, "only duplicates are rejected")
        return
    ctx.check(ctx.no(same), "duplicates are rejected")
    keys = [(s.key, s.context) for s in strings]
    ctx.observe("keys", keys)
    ctx.check_eq(keys, [(key_of(e), e.get("ctxt") or "") for e in es], "keys")


def split_key(ctx, n):
    """the key determines the texts"""
    a = ctx.string("a", 1, n)
    b = ctx.string("b", 0, n)
    key = key_of(dict(msgid=a, plural=b))
    got = PoHandler()._split_key_to_msgids(key)
    ctx.observe("got", got)
    ctx.check_eq(tuple(got), (a, b), "texts from the key")


def sync(ctx, n, shapes, keeps=8, added=(0, 1, 2), rots=3, heads=2, extras=3):
    """keep a subset, add a new one"""
    a = dict(msgid="first", str=["F"], occ="a.c:1", tcomment="tc")
    b = dict(msgid="second", plural="seconds", str=["S", "SS"], ctxt="cc")
    c = dict(msgid="third", str=["T"], flags="c-format")
    rot = ctx.choice("rot", rots)
    entries = [a, b, c][rot:] + [a, b, c][:rot]
    head = ctx.pick("head", HEAD[:heads])
    template, strings = PoHandler().parse(head + "\n".join([entry_src(x) for x in entries]))
    mask = ctx.pick("keep", [7, 0, 5, 2, 1, 3, 4, 6][:keeps])
    keep = [mask >> i & 1 for i in range(3)]
    kept = [s for s, f in zip(strings, keep) if f]
    want = [e for e, f in zip(entries, keep) if f]
    new = []
    for j in range(ctx.pick("added", added)):
        if j == 0:
            e = first_entry(ctx, n, shapes, EXTRAS[:extras])
        else:
            e = dict(msgid="new:one", plural="new\\ones")
        e = translated(e, "added%d" % j)
        s = OpenString(key_of(e), {0: e["str"][0], 1: e["str"][1]} if e.get("plural")
                       else e["str"][0], context=e.get("ctxt") or "",
                       pluralized=bool(e.get("plural")), flags=e.get("flags") or "",
                       developer_comment=e.get("comment") or "",
                       occurrences=", ".join(e["occ"].split()) if e.get("occ") else None)
        new.append(s)
        e.pop("tcomment", None)
        if not e.get("ctxt"):
            e.pop("ctxt", None)
        want.append(e)
    full = kept + new
    if not ctx.flag("object"):
        template = PoHandler.pofile_to_str(template)
    t2 = PoHandler().sync_template(template, full)
    ctx.observe("template", t2)
    ph = [e.msgstr_plural.get("0") or e.msgstr for e in polib.pofile(t2)]
    ctx.check_eq(ph, [s.template_replacement for s in full], "exactly the listed placeholders")
    out = PoHandler().compile(t2, full)
    ctx.observe("out", out)
    wtext = head + "\n".join([entry_src(x) for x in want])
    ctx.check_eq(read(out), read(wtext), "exactly the listed entries")


def free(ctx, docs, holes):
    """any text: parse error or a result that compiles"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    if not text or ctx.some([ctx.eq(text, x) for x in (".", "..", "/")]):
        return
    src = ctx.flag("source")
    try:
        template, strings = PoHandler().parse(text, is_source=src)
    except ParseError:
        return
    strings = list(strings)
    ctx.observe("got", show(strings))
    ctx.check_eq(len(set([(s.key, s.context) for s in strings])), len(strings), "distinct keys")
    out = PoHandler().compile(template, [s for s in strings if not s.fuzzy])
    ctx.observe("out", out)


def moved(ctx, shapes, n, dom):
    """the strings of one document added to another one: the same entries"""
    shape = ctx.pick("shape", shapes)
    e = dict(msgid=ctx.string("msgid", 1, n, dom), str=["x", "y"] if "plural" in shape else ["x"])
    if "plural" in shape:
        e["plural"] = ctx.string("plural", 1, n, dom)
    if "ctxt" in shape:
        e["ctxt"] = ctx.string("ctxt", 1, 1, dom)
    b = dict(msgid="second:s", plural="a\\b", str=["S", "SS"], ctxt="cc")
    _, strings = PoHandler().parse(HEAD[0] + entry_src(e) + "\n" + entry_src(b))
    strings = list(strings)
    ctx.check(strings[0].key != strings[1].key, "distinct keys")
    old = dict(msgid="old", str=["O"])
    template, oldies = PoHandler().parse(HEAD[0] + entry_src(old))
    keep = ctx.flag("keep")
    full = (list(oldies) if keep else []) + strings
    t2 = PoHandler().sync_template(PoHandler.pofile_to_str(template), full)
    ctx.observe("template", t2)
    out = PoHandler().compile(t2, full)
    ctx.observe("out", out)
    wtext = HEAD[0] + "\n".join([entry_src(x) for x in ([old] if keep else []) + [e, b]])
    ctx.check_eq(read(out), read(wtext), "the same entries")
