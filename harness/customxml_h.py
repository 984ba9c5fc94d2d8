"""Customizable XML files."""
from openformats.exceptions import ParseError
from openformats.formats.customizable_xml import CustomizableXMLHandler

from harness.lib import *

NAMES = [({}, ("strings", "section", "name", "string", "key", "base", "variant", "context")),
         (dict(root_name="r", section_name="group", section_id_name="id", string_name="str",
               string_key_name="id", base_string_name="s", variant_string_name="alt",
               variant_string_id_name="info"),
          ("r", "group", "id", "str", "id", "s", "alt", "info"))]


def build(ctx, spec, names, holes):
    """spec: list of sections (or raw text), each a list of strings (or raw text), each a list
    of ("b"|"v", content) (or raw text) -> [piece], [(key, context, string, order)]
    A piece that is a number stands for the string of that order."""
    root, section, sid, string, key, base, variant, vid = names
    pieces = []
    want = []

    def text(t, name):
        return fill(ctx, t.replace("#", name), holes)[0]
    pieces.append("<" + root + ">")
    for i, sec in enumerate(spec):
        if not isinstance(sec, list):
            pieces.append(text(sec, "9%d" % i))
            continue
        sname = ctx.string("section%d" % i, *holes["n"])
        pieces.append("<" + section + " " + sid + '="' + sname + '">')
        for j, st in enumerate(sec):
            if not isinstance(st, list):
                pieces.append(text(st, "9%d%d" % (i, j)))
                continue
            k = ctx.string("key%d%d" % (i, j), *holes["n"])
            pieces.append("<" + string + ' x="1" ' + key + '="' + k + '">')
            for n, t in enumerate(st):
                if isinstance(t, str):
                    pieces.append(text(t, "9%d%d%d" % (i, j, n)))
                    continue
                kind, body = t
                body = text(body, "%d%d%d" % (i, j, n))
                if kind == "b":
                    tag, full = base, k
                    pieces.append("<" + base + ">")
                else:
                    v = ctx.string("variant%d%d%d" % (i, j, n), *holes["n"])
                    tag, full = variant, k + "::" + v
                    pieces.append("<" + variant + " " + vid + '="' + v + '">')
                if body != "":
                    pieces.append(len(want))
                    want.append((full, sname, body, len(want)))
                pieces.append("</" + tag + ">" + ctx.string("ws%d%d%d" % (i, j, n), *holes["w"]))
            pieces.append("</" + string + ">")
        pieces.append("</" + section + ">")
    pieces.append("</" + root + ">")
    return pieces, want


def write(pieces, value):
    out = ""
    for p in pieces:
        out = out + (value(p) if isinstance(p, int) else p)
    return out


def roundtrip(ctx, specs, holes, heads, new=(1, 1)):
    kwargs, names = ctx.pick("names", NAMES)
    pieces, want = build(ctx, ctx.pick("spec", specs), names, holes)
    head = ctx.pick("head", heads)
    end = ctx.pick("end", ["", "\n"])
    src = head + write(pieces, lambda i: want[i][2]) + end
    h = CustomizableXMLHandler(**kwargs)
    template, strings = h.parse(src)
    ctx.observe("strings", show(strings))
    ctx.check_eq([(s.key, s.context, s.string, s.order) for s in strings], want,
                 "every text once")
    ctx.check_eq(template, head + write(pieces, lambda i: strings[i].template_replacement) + end,
                 "template")
    out = CustomizableXMLHandler(**kwargs).compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, src, "round trip")
    if not strings:
        return
    at = ctx.choice("changed", len(strings))
    fresh = ctx.string("fresh", new[0], new[1], ("not", "\r"))
    given = [clone(s, value=fresh if s.order == at else s.string) for s in strings]
    out = CustomizableXMLHandler(**kwargs).compile(template, given)
    ctx.check_eq(out, head + write(pieces, lambda i: fresh if i == at else want[i][2]) + end,
                 "only that text changes")


def free(ctx, docs, holes):
    """any text: a parse error or a round trip"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        template, strings = CustomizableXMLHandler().parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    ctx.observe("strings", show(strings))
    out = CustomizableXMLHandler().compile(template, strings)
    ctx.check_eq(out, text, "round trip")


def defects(ctx, docs, holes):
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        CustomizableXMLHandler().parse(text)
    except ParseError:
        ctx.check(True, "rejected with a parse error")
        return
    ctx.fail("rejected with a parse error")


def endings(ctx, holes):
    """DOS line endings before and inside of the root"""
    text, _ = fill(ctx, "<?xml version=\"1.0\"?>\n«w»<strings>\n<section name=\"a\">«w1»<string "
                   "key=\"k\"><base>«t»</base>\n</string></section>«w2»</strings>\n", holes)
    dos = text.replace("\n", "\r\n")
    t1, s1 = CustomizableXMLHandler().parse(text)
    t2, s2 = CustomizableXMLHandler().parse(dos)
    ctx.check_eq(show(s2), show(s1), "same strings")
    ctx.check_eq(t2, t1.replace("\n", "\r\n"), "same template")
    ctx.check_eq(CustomizableXMLHandler().compile(t2, s2), dos, "same endings")
