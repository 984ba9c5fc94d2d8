import json

from openformats.exceptions import ParseError
from openformats.formats.json import JsonHandler
from openformats.utils.json import DumbJson, escape, unescape

from harness.lib import *
from harness.jsongen import *


# ---------------------------------------------------------------- C01

def roundtrip(ctx, docs, holes, dos=True):
    skel = ctx.pick("doc", docs)
    text, cache = fill(ctx, skel, holes)
    if dos:
        text = crlf(ctx, text)
    _roundtrip(ctx, text)


def roundtrip_shapes(ctx, depth, width, styles):
    g = Gen(ctx, lambda i: ctx.string("v%d" % i, 1, 1, "a\\\" ") + "v%d" % i,
            lambda i: "k%d" % i, literals=["-1.5e3", "null"], blanks=["", "  "])
    node = g.root(depth, width)
    text = emit(node, ctx.pick("style", styles))
    _roundtrip(ctx, text)


def _roundtrip(ctx, text):
    h = JsonHandler()
    r = parse(ctx, h, text)
    if r is None:
        return
    template, strings = r
    ctx.observe("strings", show(strings))
    plain = [s for s in strings if not s.pluralized]
    out = JsonHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "round trip")
    if len(plain) == len(strings):
        ctx.check_eq(put_back(ctx, template, strings), text.replace("\r\n", "\n")
                     if "\r\n" not in template and "\r\n" in text else text,
                     "template is the source with placeholders")


# ---------------------------------------------------------------- C02

def tree(d):
    if d.type == dict:
        return ("d", [(k, tree(v) if isinstance(v, DumbJson) else v, kp, vp)
                      for k, kp, v, vp in d])
    return [(tree(v) if isinstance(v, DumbJson) else v, vp) for v, vp in d]


def same(ctx, got, want, src):
    """got: tree() with raw strings and positions; want: load() with decoded values"""
    if isinstance(want, tuple):
        ctx.check(isinstance(got, tuple) and len(got[1]) == len(want[1]), "same entries")
        if not (isinstance(got, tuple) and len(got[1]) == len(want[1])):
            return
        for (k, v, kp, vp), (wk, wv) in zip(got[1], want[1]):
            ctx.check_eq(json.loads('"' + k + '"'), wk, "key")
            ctx.check_eq(src[kp - 1:kp + len(k) + 1], '"' + k + '"', "key position")
            value(ctx, v, vp, wv, src)
    else:
        ctx.check(isinstance(got, list) and len(got) == len(want), "same items")
        if not (isinstance(got, list) and len(got) == len(want)):
            return
        for (v, vp), wv in zip(got, want):
            value(ctx, v, vp, wv, src)


def value(ctx, v, vp, want, src):
    if isinstance(want, str):
        ok = isinstance(v, str)
        ctx.check(ok, "string value")
        if ok:
            ctx.check_eq(json.loads('"' + v + '"'), want, "string content")
            ctx.check_eq(src[vp - 1:vp + len(v) + 1], '"' + v + '"', "string position")
    elif isinstance(want, (tuple, list)):
        ctx.check(src[vp] == ("{" if isinstance(want, tuple) else "["), "container position")
        same(ctx, v, want, src)
    else:
        ctx.check(type(v) is type(want) and (v == want or v != v), "literal value")
        rest = src[vp:vp + 9]
        if want is None or want is True or want is False:
            ctx.check(rest.startswith({None: "null", True: "true", False: "false"}[want]),
                      "literal position")
        else:
            ctx.check(rest[:1] in "-0123456789NI", "number position")
            ctx.check(vp == 0 or src[vp - 1] not in "-0123456789.eE", "number start")


def tokenizer(ctx, docs, holes):
    skel = ctx.pick("doc", docs)
    text, _ = fill(ctx, skel, holes)
    try:
        want = load(text)
    except ValueError:
        ctx.reach("invalid JSON")
        want = None
    if want is None or not isinstance(want, (tuple, list)):
        try:
            JsonHandler().parse(text)
            ctx.fail("invalid JSON accepted")
        except ParseError:
            ctx.reach("parse error")
            ctx.check(True, "invalid JSON is a parse error")
        return
    d = DumbJson(text)
    got = tree(d)
    ctx.observe("tree", got)
    same(ctx, got, want, text)
    end = text.rstrip()
    ctx.check_eq(d.end, len(end) - 1, "end of container")
    ctx.check(text[d.start] in "{[" and not text[:d.start].strip(), "start of container")


def tokenizer_shapes(ctx, depth, width, styles):
    g = Gen(ctx, lambda i: ctx.string("v%d" % i, 1, 1, "a\\{") + "x",
            lambda i: "k%d" % i, literals=["-1.5e3", "null", "12"])
    node = g.root(depth, width)
    text = emit(node, ctx.pick("style", styles))
    try:
        want = load(text)
    except ValueError:
        return
    got = tree(DumbJson(text))
    ctx.observe("tree", got)
    same(ctx, got, want, text)


def find_children(ctx):
    """lookup by key agrees with iteration, from any embedding position"""
    pre = ctx.string("pre", 0, 1, " [")
    k1 = ctx.string("k1", 0, 2, ("not", "\r"))
    k2 = ctx.string("k2", 0, 1, ("not", "\r"))
    q = ctx.string("q", 0, 2, ("not", "\r"))
    text = '{"' + k1 + '": "x", "' + k2 + '": [{}, 3]}'
    try:
        d = load(text)
    except ValueError:
        return
    if ctx.eq(k1, "zz") or ctx.eq(k2, "zz"):
        return
    full = pre + text
    res = DumbJson(full, len(pre)).find_children(q, "zz")
    ctx.check(len(res) == 2, "one answer per key")
    if ctx.eq(q, "zz"):
        return
    ctx.check(res[1] == (None, None), "absent key")
    v, p = res[0]
    off = len(pre)
    if q == k2:
        ctx.check(isinstance(v, DumbJson) and v.start == p and full[p] == "[", "second entry")
    elif q == k1:
        ctx.check(v == "x" and p == off + 6 + len(k1), "first entry")
    else:
        ctx.check(v is None and p is None, "absent entry")


# ---------------------------------------------------------------- C03

def escaping(ctx, n):
    s = ctx.string("s", 0, n)
    e = escape(s)
    ctx.observe("escaped", e)
    try:
        back = json.loads('"' + e + '"')
    except ValueError:
        ctx.fail("escaped text is a JSON string body")
        return
    ctx.check_eq(back, s, "escaped text decodes to the text")
    ctx.check_eq(unescape(e), s, "unescape undoes escape")


def unescaping(ctx, docs, holes):
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        want = json.loads('"' + text + '"')
    except ValueError:
        ctx.reach("not a literal")
        return
    got = unescape(text)
    ctx.observe("got", got)
    ctx.check_eq(got, want, "unescape agrees with JSON")


# ---------------------------------------------------------------- C04

def extraction(ctx, depth, width, styles, keydom, keys, valdom, vals):
    """keys/vals: how many of them are symbolic"""
    left = [keys, vals]

    def key(i):
        key.n += 1
        if left[0]:
            left[0] -= 1
            return ctx.string("key%d" % key.n, 0, 2, keydom)
        return "k%d" % i
    key.n = 0

    def leaf(i):
        if left[1]:
            left[1] -= 1
            return ctx.string("v%d" % i, 0, 2, valdom)
        return "v%d" % i
    node = Gen(ctx, leaf, key, literals=["null"]).root(depth, width)
    text = emit(node, ctx.pick("style", styles))
    check_extraction(ctx, node, text)


def check_extraction(ctx, node, text):
    try:
        load(text)
        data(node)
    except ValueError:
        ctx.reach("not JSON")
        return
    paths = keypaths(node)
    dup = False
    for i in range(len(paths)):
        for j in range(i):
            if paths[i] == paths[j]:
                dup = True
    r = parse(ctx, JsonHandler(), text)
    ctx.check((r is None) == dup, "rejected exactly when a key is duplicated")
    if r is None or dup:
        return
    _, strings = r
    want = [(p, raw) for p, raw in leaves(node) if raw.strip()]
    got = [(s.key, s.string) for s in strings]
    ctx.observe("got", got)
    ctx.check_eq(got, want, "strings with their paths")
    ctx.check([s.order for s in strings] == list(range(len(strings))), "order")


def duplicates(ctx):
    """two keys at the same or different nesting"""
    k1 = ctx.string("k1", 0, 2, ("not", "\r"))
    k2 = ctx.string("k2", 0, 2, ("not", "\r"))
    shape = ctx.choice("shape", 5)
    v = ("s", "v")
    node = [
        ("d", [(k1, v), (k2, v)]),
        ("d", [("a", ("d", [(k1, v)])), ("b", ("d", [(k2, v)]))]),
        ("d", [(k1, v), ("a", ("a", [("d", [(k2, v)])]))]),
        ("a", [("d", [(k1, v)]), ("d", [(k2, v)])]),
        ("d", [(k1, ("d", [("x", v)])), (k2, ("d", [("x", ("l", "1"))]))]),
    ][shape]
    check_extraction(ctx, node, emit(node, "compact"))


def key_clash(ctx):
    """keys that spell parts of other paths"""
    k1 = ctx.string("k1", 1, 3, "a.\\0")
    k2 = ctx.string("k2", 1, 2, "a.\\0")
    k3 = ctx.string("k3", 1, 2, "a.\\0")
    v = ("s", "v")
    inner = ctx.pick("in", [("d", [(k2, v)]), ("a", [v])])
    node = ("d", [(k1, inner), (k3, v)])
    check_extraction(ctx, node, emit(node, "compact"))


# ---------------------------------------------------------------- C05 / C06

def make_doc(ctx, depth, width, styles, symbolic=None, keys=None, literals=("1",), blanks=("", " ")):
    def leaf(i):
        return "v%d" % i

    def key(i):
        key.n += 1
        if keys is not None and key.n == 1:
            return ctx.string("key", keys[0], keys[1], keys[2])
        return "k%d" % i
    key.n = 0
    g = Gen(ctx, leaf, key, literals=literals, blanks=blanks)
    node = g.root(depth, width)
    text = emit(node, ctx.pick("style", styles))
    try:
        load(text)
    except ValueError:
        return None
    r = parse(ctx, JsonHandler(), text)
    if r is None:
        return None
    return node, text, r[0], r[1]


def subset(ctx, strings):
    keep = [ctx.flag("keep%d" % i) for i in range(len(strings))]
    return keep, [s for s, k in zip(strings, keep) if k]


def removal(ctx, depth, width, styles, keys=None, dos=False):
    d = make_doc(ctx, depth, width, styles, keys=keys)
    if d is None:
        return
    node, text, template, strings = d
    keep, kept = subset(ctx, strings)
    h = JsonHandler()
    t2 = h.remove_strings_from_template(template, list(kept))
    ctx.observe("template", t2)
    new = [ctx.string("new%d" % i, 1, 1, ("not", "\\\"\r")) if i == 0 else "n%d" % i
           for i in range(len(kept))]
    out = JsonHandler().compile(t2, [clone(s, value=v) for s, v in zip(kept, new)])
    ctx.observe("out", out)
    want = prune_root(node, keep)
    try:
        got = load(out)
        ref = data(want, new)
    except ValueError:
        if new:
            try:
                json.loads('"' + new[0] + '"')
            except ValueError:
                return
        ctx.fail("valid JSON after removal")
        return
    ctx.check_eq(got, ref, "exactly the missing entries are gone")
    if all(keep):
        ctx.check_eq(t2, template, "nothing to remove: template unchanged")


def sync(ctx, depth, width, styles, nnew, keydom, blanks=("", " ")):
    d = make_doc(ctx, depth, width, styles, blanks=blanks)
    if d is None:
        return
    node, text, template, strings = d
    keep, kept = subset(ctx, strings)
    n = ctx.choice("nnew", nnew + 1)
    added = []
    for i in range(n):
        k = ctx.string("newkey%d" % i, 1, 2, keydom) if i == 0 else "zz%d" % i
        raw = escape(k)
        added.append((k, OpenString(esc_key(raw), "new%d" % i, order=100 + i)))
    if node[0] == "d":
        for a, b in node[1]:
            for k, s in added:
                ctx.assume(ctx.no(ctx.eq(k, a)))
    final = kept + [s for _, s in added]
    t2 = JsonHandler().sync_template(template, list(final))
    ctx.observe("template", t2)
    try:
        load(t2)
    except ValueError:
        ctx.fail("synced template is valid JSON")
        return
    for s in final:
        ctx.check(t2.count(s.template_replacement) == 1, "placeholder once")
    for s, kp in zip(strings, keep):
        if not kp:
            ctx.check(s.template_replacement not in t2, "removed placeholder")
    out = JsonHandler().compile(t2, final)
    ctx.observe("out", out)
    want = prune_root(node, keep)
    if want[0] == "d":
        ref = ("d", data(want)[1] + [(k, s.string) for k, s in added])
    else:
        ref = data(want) + [("d", [(k, s.string)]) for k, s in added]
    try:
        got = load(out)
    except ValueError:
        ctx.fail("compiled sync is valid JSON")
        return
    ctx.check_eq(got, ref, "listed strings and nothing else")
