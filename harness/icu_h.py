from openformats.exceptions import ParseError
from openformats.formats.json import JsonHandler
from openformats.utils.icu import ICUParser, ICUCompiler

from harness.lib import *
from harness.jsongen import load

RULES = ["zero", "one", "two", "few", "many", "other"]
WS = " "
PLAIN = ("not", "{}\\\"\r\n\t=")


def well_formed(ctx, nforms, n, shapes, wsn):
    """{var, plural, rule {text} ...} with balanced texts"""
    # the name of the variable may look like the keyword and like rules
    var, _ = fill(ctx, ctx.pick("var", ["<v>", "plural<v>", "zeroonetwofewmany<v>other", "one"]),
                  dict(v=(1, 1, ("or", ("range", 48, 57), ("range", 65, 90), ("range", 97, 122),
                                 "-_"))))
    k = 1 + ctx.choice("nforms", nforms)
    start = ctx.choice("first", 6)
    rules = [RULES[(start + i * 2 + (i // 3)) % 6] for i in range(k)]
    forms = []
    for i in range(k):
        if i == 0:
            sk = ctx.pick("shape", shapes)
            t, _ = fill(ctx, sk, dict(t=(0, n, PLAIN)))
        else:
            t = "f%d {x} y" % i
        forms.append(t)
    w = ctx.pick("ws", [["", "", "", ""], [" ", " ", "  ", " "], [" ", "", " ", ""]])
    body = " ".join(["%s%s{%s}" % (r, w[0] if i == 0 else " ", f)
                     for i, (r, f) in enumerate(zip(rules, forms))])
    head = w[1] + "{" + var + " ,plural," + w[2]
    value = head + body + w[3] + "}"
    want = {}
    for r, f in zip(rules, forms):
        want[RULES.index(r)] = f
    for numeric in (False, True):
        icu = ICUParser(allow_numeric_plural_values=numeric).parse("k", value)
        ctx.check(icu is not None, "recognised")
        if icu is None:
            return
        got = icu.strings_by_rule
        ctx.observe("forms", [(a, b) for a, b in got.items()])
        ctx.check_eq(sorted(got.keys()), sorted(want.keys()), "rules")
        for r in want:
            if r in got:
                ctx.check_eq(got[r], want[r], "form")
        p = icu.current_position
        ctx.check_eq(value[:p], head, "text before the forms")
        ctx.check_eq(value[p:p + len(icu.string_to_replace)], icu.string_to_replace,
                     "replaced text is where it is said to be")
        ctx.check_eq(icu.string_to_replace, body, "replaced text")
    # and through the handler
    doc = '{"k": "' + value + '"}'
    try:
        load(doc)
    except ValueError:
        return
    template, strings = JsonHandler().parse(doc)
    s, = strings
    ctx.check(s.pluralized, "pluralised")
    ctx.check_eq(template, '{"k": "' + head + s.template_replacement + w[3] + '}"}', "template")
    # new forms under every rule, in any order
    new = {r: "new%d {v}" % r for r in ([5, 1, 3] if ctx.flag("set") else [0, 1, 2, 3, 4, 5])}
    out = JsonHandler().compile(template, [clone(s, value=new)])
    ctx.observe("out", out)
    ctx.check_eq(out, '{"k": "' + head + " ".join(
        ["%s {%s}" % (RULES[r], t) for r, t in new.items()]) + w[3] + '}"}', "compiled forms")
    _, again = JsonHandler().parse(out)
    ctx.check(again[0].pluralized and again[0].string == new, "compiled forms parse again")


def brace_items(body):
    """reference reading of 'rule {text} rule {text} ...': [(rule, text)] or None"""
    items = []
    i = 0
    n = len(body)
    while True:
        while i < n and body[i].isspace():
            i += 1
        if i >= n:
            return items
        j = i
        while j < n and body[j].isalpha() and body[j] < "\x80":
            j += 1
        word = body[i:j]
        found = None
        for r in RULES:
            if len(r) == len(word) and word == r:
                found = r
        if found is None:
            return None
        while j < n and body[j] == " ":
            j += 1
        if j >= n or body[j] != "{":
            return None
        depth = 0
        k = j
        while k < n:
            if body[k] == "{":
                depth += 1
            elif body[k] == "}":
                depth -= 1
                if depth == 0:
                    break
            k += 1
        if k >= n:
            return None
        items.append((found, body[j + 1:k]))
        i = k + 1


def free(ctx, docs, holes):
    """anything at one place of a plural value: pluralised only when it reads as one"""
    body, _ = fill(ctx, ctx.pick("doc", docs), holes)
    value = "{n, plural, " + body + "}"
    items = brace_items(body)
    if "=" in body:
        return
    try:
        icu = ICUParser(allow_numeric_plural_values=False).parse("k", value)
    except ParseError:
        ctx.check(items is None or not items, "a well-formed plural is not rejected")
        return
    ctx.observe("icu", None if icu is None else [(a, b) for a, b in icu.strings_by_rule.items()])
    if items:
        ctx.check(icu is not None, "a well-formed plural is recognised")
        if icu is not None:
            got = icu.strings_by_rule
            want = {RULES.index(r): t for r, t in items}
            ctx.check_eq(sorted(got), sorted(want), "rules")
            for r in want:
                if r in got:
                    ctx.check_eq(got[r], want[r], "form")
    else:
        ctx.check(icu is None, "anything else is not a plural")


def other_values(ctx, docs, holes):
    """values that are not plurals at all stay ordinary strings"""
    value, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        icu = ICUParser().parse("k", value)
    except ParseError:
        ctx.check("plural" in value, "only plural-looking values are rejected")
        return
    if icu is not None:
        ctx.check("plural" in value and "{" in value, "ordinary string")
        ctx.check(icu.pluralized, "pluralised")
        for k, v in icu.strings_by_rule.items():
            ctx.check_eq(v in value, True, "forms come from the value")
    ctx.check(True, "no other exception")
