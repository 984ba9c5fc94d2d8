"""Android resource files, read by the earlier handler."""
from openformats.formats.beta_android import BetaAndroidHandler

from harness.android_h import HEADS, RULES, all_texts, attributes, attrs, build, ignored
from harness.lib import *


def strings_of(entries):
    """What is to be extracted; sets the ids of the entries"""
    out = []
    comment = ""
    for e in entries:
        if e["kind"] == "c":
            comment = e["text"]
            continue
        if e["kind"] == "o":
            continue
        e["ids"] = []
        if not ignored(e):
            product = e["attrs"].get("product", "")
            if e["kind"] == "p":
                if not any([blank(t) for _, t in e["forms"]]):
                    e["ids"].append(len(out))
                    out.append((e["name"], product, True,
                                dict([(RULES.index(r), t) for r, t in e["forms"]]), comment, len(out)))
                else:
                    e["ids"].append(None)
            else:
                for j, t in enumerate(e["texts"]):
                    if blank(t):
                        e["ids"].append(None)
                        continue
                    e["ids"].append(len(out))
                    key = e["name"] if e["kind"] == "s" else e["name"] + "[%d]" % j
                    out.append((key, product, False, {5: t}, comment, len(out)))
        comment = ""
    return out


def write(head, entries, value, template=False):
    """The document with the content value(id) for each string; None removes its element, as
    those without text are"""
    out = head + "<resources>" + (entries[0]["pre"] if entries else "")
    for e in entries:
        k = e["kind"]
        body = ""
        if k == "c":
            body = "<!--" + e["text"] + "-->"
        elif k == "o":
            body = e["text"]
        elif k == "s":
            text = e["texts"][0]
            if not ignored(e) and e["ids"][0] is not None:
                text = value(e["ids"][0])
            elif not ignored(e) and not template:
                text = None
            if text is not None:
                body = "<string name=\"" + e["name"] + "\"" + attrs(e) + ">" + text + "</string>"
        elif k == "a":
            body = e["lead"]
            live = False
            for j, (t, w) in enumerate(zip(e["texts"], e["tails"])):
                if not ignored(e) and e["ids"][j] is not None:
                    t = value(e["ids"][j])
                elif not ignored(e) and not template:
                    t = None
                if t is not None:
                    live = True
                    body += "<item>" + t + "</item>"
                body += w
            if live or body == "":
                body = "<string-array name=\"" + e["name"] + "\"" + attrs(e) + ">" + body + "</string-array>"
            else:
                body = ""
        elif k == "p":
            first, last = e["layout"]
            forms = dict([(RULES.index(r), t) for r, t in e["forms"]])
            if not ignored(e) and e["ids"][0] is not None:
                forms = value(e["ids"][0])
            elif not ignored(e) and not template:
                forms = None
            if type(forms) is dict:
                # the first indentation is used for all of them, on lines of their own
                between = first if "\n" in first else ""
                body = ""
                for n, r in enumerate(forms):
                    body += (between if n else first) + "<item quantity=\"" + RULES[r] + "\">" + forms[r] + "</item>"
            elif forms is not None:
                body = first + forms
            if forms is not None:
                body = "<plurals name=\"" + e["name"] + "\"" + attrs(e) + ">" + body + last + "</plurals>"
        out = out + body + e["tail"]
    return out + "</resources>\n"


def read(ctx, specs, holes, heads=1):
    head = ctx.pick("head", HEADS[:heads])
    entries = build(ctx, ctx.pick("spec", specs), holes)
    if entries:
        entries[0]["pre"] = "\n" if holes["w"] == "unique" else ctx.string("pre", *holes["w"])
    want = strings_of(entries)
    texts = all_texts(want)
    text = crlf(ctx, write(head, entries, lambda i: texts[i], True), "crlf")
    template, strings = BetaAndroidHandler().parse(text)
    strings = list(strings)
    ctx.observe("strings", attributes(strings))
    ctx.check_eq(attributes(strings), want, "every string once, with its context and comment")
    return head, entries, want, template, strings, texts


def extract(ctx, specs, holes, heads=1):
    head, entries, want, template, strings, texts = read(ctx, specs, holes, heads)
    marks = [s.template_replacement for s in strings]
    if len(marks) == len(want):
        ctx.check_eq(template.replace("\r\n", "\n"), write(head, entries, lambda i: marks[i], True), "template")
    out = BetaAndroidHandler().compile(template, strings)
    ctx.observe("out", out)
    expected = write(head, entries, lambda i: texts[i])
    ctx.check_eq(out, expected.replace("\n", "\r\n") if "\r\n" in template else expected, "compile gives back the file")


def subset(ctx, specs, holes, t=(0, 1)):
    """compile some of the strings, with new texts"""
    head, entries, want, template, strings, texts = read(ctx, specs, holes)
    keep = [ctx.flag("keep%d" % i) for i in range(len(strings))]
    new = {}
    given = []
    fresh = ctx.string("fresh", t[0], t[1], ("not", "<\r"))
    for i, s in enumerate(strings):
        if not keep[i]:
            continue
        v = s.string
        if not s.pluralized and not given:
            v = fresh
        elif s.pluralized:
            v = {1: "x", 5: s.string[5]}
        new[i] = v
        given.append(clone(s, value=v))
    out = BetaAndroidHandler().compile(template, given)
    ctx.observe("out", out)
    expected = write(head, entries, lambda i: new.get(i))
    ctx.check_eq(out, expected.replace("\n", "\r\n") if "\r\n" in template else expected,
                 "exactly the missing strings are gone")


def shapes(ctx, docs, holes):
    """documents whose strings are known: compiled to the same"""
    doc, keys = ctx.pick("doc", docs)
    doc, cache = fill(ctx, doc, holes)
    if "x" in cache:
        ctx.assume(not blank(cache["x"]))
    doc = "<resources>\n" + doc + "<string name=\"last\">end</string>\n</resources>\n"
    template, strings = BetaAndroidHandler().parse(doc)
    strings = list(strings)
    ctx.observe("strings", attributes(strings))
    ctx.check_eq([(s.key, s._strings) for s in strings],
                 [(k, dict([(r, fill(ctx, x, holes, cache)[0]) for r, x in v])) for k, v in keys] + [("last", {5: "end"})],
                 "every string once")
    out = BetaAndroidHandler().compile(template, strings)
    ctx.observe("out", out)
    # entries without a text are removed
    ctx.check_eq(out, doc.replace('<plurals name="p"></plurals>', ""), "compile gives back the file")
