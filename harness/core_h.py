"""Line endings, the transcriber, string identity, plural rules."""
from openformats.exceptions import ParseError, RuleError
from openformats.handlers import Handler
from openformats.strings import OpenString
from openformats.transcribers import Transcriber
from openformats.utils.newlines import find_newline_type, force_newline_type

from harness.lib import *


# ---------------------------------------------------------------- C11

def make(name):
    import importlib
    mod, cls = name.split(":")
    return getattr(importlib.import_module("openformats.formats." + mod), cls)()


def endings(ctx, docs, holes):
    handler, skel = ctx.pick("doc", docs)
    unix, _ = fill(ctx, skel, holes)
    dos = unix.replace("\n", "\r\n")
    try:
        t1, s1 = make(handler).parse(unix)
        s1 = list(s1)
    except ParseError:
        try:
            make(handler).parse(dos)
        except ParseError:
            return
        ctx.fail("rejected in one form only")
        return
    t2, s2 = make(handler).parse(dos)
    s2 = list(s2)
    got1 = [(s.key, s.context, s.string, s.string_hash, s.order, s.developer_comment) for s in s1]
    got2 = [(s.key, s.context, s.string, s.string_hash, s.order, s.developer_comment) for s in s2]
    ctx.observe("strings", [g[:3] for g in got1])
    ctx.check_eq(got2, got1, "same strings")
    # a translation that adds a line
    if s1 and ctx.flag("longer"):
        s1[0] = clone(s1[0], value="new\nline") if not s1[0].pluralized else s1[0]
        s2[0] = clone(s2[0], value="new\nline") if not s2[0].pluralized else s2[0]
    o1 = make(handler).compile(t1, s1)
    o2 = make(handler).compile(t2, s2)
    ctx.observe("out", o2)
    ctx.check("\r" not in t1 and "\r" not in o1, "no carriage returns in UNIX files")
    if "\n" in unix:
        ctx.check_eq(o2, o1.replace("\n", "\r\n"), "same output with DOS endings")
    else:
        ctx.check_eq(o2, o1, "same output")


def newline_functions(ctx, n):
    text = ctx.string("x", 0, n, ("or", "\r\nab", ("range", 0x2028, 0x2029)))
    kind = find_newline_type(text)
    i = text.find("\n")
    ctx.check_eq(kind, "DOS" if i > 0 and text[i - 1] == "\r" else "UNIX", "kind of first ending")
    unix = force_newline_type(text, "UNIX")
    dos = force_newline_type(text, "DOS")
    ctx.observe("both", [unix, dos])
    ctx.check("\r\n" not in unix or "\r\r\n" in text, "no DOS ending left")
    ctx.check_eq(unix, text.replace("\r\n", "\n"), "to UNIX")
    ctx.check_eq(dos, unix.replace("\n", "\r\n"), "to DOS")
    if "\r\r\n" not in text:
        ctx.check_eq(force_newline_type(dos, "UNIX"), unix, "there and back")
        ctx.check_eq(force_newline_type(dos, "DOS"), dos, "idempotent")


def transcriber_endings(ctx, n):
    """source and additions of any ending: output uses the source's"""
    text = ctx.string("x", 0, n, "a\n")
    if ctx.flag("dos"):
        text = text.replace("\n", "\r\n")
    add = ctx.pick("add", ["", "\n", "\r\n", "x\ny\r\n"])
    t = Transcriber(text)
    half = ctx.choice("half", 3)
    t.copy(half)
    t.add(add)
    t.copy_to_end()
    body = text.replace("\r\n", "\n")
    want = body[:half] + add + body[half:]
    force = ctx.pick("force", [None, "DOS"])
    out = t.get_destination(enforce_newline_type=force) if force else t.get_destination()
    ctx.observe("out", out)
    if force == "DOS" or "\r\n" in text:
        want = want.replace("\r\n", "\n").replace("\n", "\r\n")
    ctx.check_eq(out, want, "one kind of ending")


# ---------------------------------------------------------------- C12

OPS = ["copy", "copy_until", "skip", "skip_until", "add", "copy_to_end"]


def steps(ctx, n, k, nmax):
    text = ctx.string("src", n, n, ("or", "\nab"))
    if ctx.flag("dos"):
        text = text.replace("\n", "\r\n")
    src = text.replace("\r\n", "\n")
    dos = "\r\n" in text
    t = Transcriber(text)
    out = []
    ptr = 0
    passed = 0
    for i in range(k):
        op = ctx.pick("op%d" % i, OPS)
        if op == "add":
            a = ctx.string("add%d" % i, 0, 1, "x\n")
            t.add(a)
            out.append(a)
            continue
        if op == "copy_to_end":
            t.copy_to_end()
            end = len(src)
            a = True
        else:
            m = ctx.choice("n%d" % i, nmax + 1)
            end = ptr + m
            if end > len(src):
                return
            getattr(t, op)(m if op in ("copy", "skip") else end)
            a = op.startswith("copy")
        if a:
            out.append(src[ptr:end])
        passed += src[ptr:end].count("\n")
        ptr = end
        ctx.check_eq(t.ptr, ptr, "position")
        ctx.check_eq(t.line_number, passed + 1, "line number")
    got = t.get_destination()
    ctx.observe("out", got)
    want = "".join(out)
    ctx.check_eq(got, want.replace("\n", "\r\n") if dos else want, "concatenation")


def sections(ctx, k):
    """pieces of text, section marks and removals, nested or in a row"""
    src = ctx.string("src", k, k, ("or", "\nab"))
    t = Transcriber(src)
    stack = []         # open sections: index in out
    out = []
    spans = []
    for i in range(k):
        op = ctx.pick("op%d" % i, ["copy", "copy", "start", "end", "drop"])
        if op == "copy":
            out.append(src[t.ptr:t.ptr + 1])
            t.copy(1)
        elif op == "start":
            t.mark_section_start()
            stack.append(len(out))
        elif op in ("end", "drop"):
            if not stack:
                return
            a = stack.pop()
            t.mark_section_end()
            # only the innermost section that is still marked can be dropped
            if op == "drop":
                if any(b >= a for b in spans):
                    return
                t.remove_section()
                for j in range(a, len(out)):
                    out[j] = ""
            else:
                spans.append(a)
    ctx.check_eq(t.get_destination(), "".join(out), "exactly the section is gone")
    ctx.observe("out", t.get_destination())


def section_place(ctx, k):
    """sections in a row; the place-th from the end is removed"""
    src = ctx.string("src", 3 * k + 1, 3 * k + 1, "ab\n")
    t = Transcriber(src)
    ends = [ctx.flag("end%d" % i) for i in range(k)]
    want = []
    for i in range(k):
        t.copy(1)
        want.append([src[3 * i]])
        t.mark_section_start()
        t.copy(1)
        want[i].append(src[3 * i + 1])
        t.mark_section_end()
        t.copy(1)
        want[i].append(src[3 * i + 2])
    t.copy_to_end()
    for r in range(2):
        alive = [i for i in range(k) if len(want[i]) == 3]
        place = ctx.choice("place%d" % r, len(alive))
        t.remove_section(place)
        del want[alive[len(alive) - 1 - place]][1]
    ctx.check_eq(t.get_destination(), "".join(["".join(w) for w in want]) + src[3 * k],
                 "exactly that section is gone")


# ---------------------------------------------------------------- C13

def identity(ctx, n, dom):
    k1 = ctx.string("k1", 0, n, dom)
    k2 = ctx.string("k2", 0, n, dom)
    c1 = ctx.string("c1", 0, n, dom)
    c2 = ctx.string("c2", 0, n, dom)
    a = OpenString(k1, "v1", context=c1, order=1, developer_comment="d", tags=["x"], flags="f",
                   character_limit=4, occurrences="o", fuzzy=True)
    b = OpenString(k2, {1: "a", 5: "v2"}, context=c2, order=7)
    same = ctx.every([ctx.eq(k1, k2), ctx.eq(c1, c2)])
    if ctx.eq(a.string_hash, b.string_hash):
        ctx.observe("equal", 1)
        if not same:
            ctx.known("hash-join", ctx.eq(k1 + ":" + c1, k2 + ":" + c2))
        ctx.check(same, "different identities have different hashes")
    else:
        ctx.observe("equal", 0)
        ctx.check(ctx.no(same), "same identity has the same hash")
    ctx.check(a.template_replacement == a.string_hash + "_tr", "plain placeholder")
    ctx.check(b.template_replacement == b.string_hash + "_pl", "plural placeholder")


def attributes(ctx):
    k = ctx.string("k", 0, 2)
    forms = {5: "x"}
    for i in range(5):
        if ctx.flag("form%d" % i):
            forms[i] = "f%d" % i
    how = ctx.pick("plural", [None, True, False])
    kw = {} if how is None else dict(pluralized=how)
    s = OpenString(k, dict(forms), **kw)
    ctx.check(s.pluralized == (len(forms) > 1 if how is None else how), "pluralised")
    ctx.check_eq(s.string, forms if s.pluralized else "x", "value")
    base = OpenString(k, "y").string_hash
    ctx.check_eq(s.string_hash, base, "hash only from the key")
    for name, v in [("order", 3), ("developer_comment", "c"), ("occurrences", "1"), ("tags", ["t"]),
                    ("flags", "f"), ("fuzzy", True), ("obsolete", True), ("character_limit", 5)]:
        o = OpenString(k, "z", **{name: v})
        ctx.check_eq(getattr(o, name), v, "attribute kept")
        ctx.check_eq(o.string_hash, base, "hash only from the key")
    ctx.check_eq(OpenString(k, "z", context=None).string_hash, base, "no context")
    ctx.check(s.template_replacement == base + ("_pl" if s.pluralized else "_tr"), "placeholder")


# ---------------------------------------------------------------- C14

NAMES = ["zero", "one", "two", "few", "many", "other"]


def rule_names(ctx, n):
    name = ctx.string("name", 0, n)
    try:
        got = Handler.get_rule_number(name)
    except RuleError:
        ctx.check(ctx.no(ctx.some([ctx.eq(name, x) for x in NAMES])), "only other names rejected")
        return
    ctx.observe("got", got)
    ctx.check(ctx.some([ctx.eq(name, x) for x in NAMES]), "other names are rejected")
    ctx.check(0 <= got <= 5, "range")
    ctx.check_eq(NAMES[got], name, "number of the name")
    ctx.check_eq(Handler.get_rule_string(got), name, "inverse")


def rule_numbers(ctx, lo, hi):
    x = ctx.integer("x", lo, hi)
    try:
        got = Handler.get_rule_string(x)
    except RuleError:
        ctx.check(ctx.no(ctx.every([x >= 0, x <= 5])), "only other numbers rejected")
        return
    ctx.observe("got", got)
    ctx.check(ctx.every([x >= 0, x <= 5]), "other numbers are rejected")
    ctx.check(got in NAMES, "known name")
    ctx.check_eq(Handler.get_rule_number(got), x, "inverse")
