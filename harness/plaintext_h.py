from openformats.formats.plaintext import PlaintextHandler

from harness.lib import *


def roundtrip(ctx, n, skel):
    text, _ = fill(ctx, ctx.pick("skel", skel), dict(x=(0, n, ("not", "\r")), y=(0, 1, " \n\tz")))
    dos = ctx.flag("dos")
    src = text.replace("\n", "\r\n") if dos else text
    template, strings = PlaintextHandler().parse(src)
    strings = list(strings)
    ctx.observe("strings", [s.string for s in strings])
    want = [line.strip() for line in text.split("\n") if line.strip()]
    ctx.check_eq([s.string for s in strings], want, "every non-blank line, stripped, in order")
    ctx.check([s.order for s in strings] == list(range(len(strings))), "order")
    out = PlaintextHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, src, "round trip")


def replace(ctx, n, skel):
    """changing one line's text"""
    text, _ = fill(ctx, ctx.pick("skel", skel), dict(x=(0, n, ("not", "\r\n")),
                                                     s=(0, 1, " \t")))
    dos = ctx.flag("dos")
    src = text.replace("\n", "\r\n") if dos else text
    template, strings = PlaintextHandler().parse(src)
    strings = list(strings)
    if not strings:
        return
    i = ctx.choice("which", len(strings))
    new = ctx.string("new", 1, 2, ("not", "\r\n"))
    strings[i] = clone(strings[i], value=new)
    out = PlaintextHandler().compile(template, strings)
    ctx.observe("out", out)
    want = []
    j = 0
    for line in text.split("\n"):
        body = line.strip()
        if body:
            if j == i:
                a = line.find(body)
                line = line[:a] + new + line[a + len(body):]
            j += 1
        want.append(line)
    want = "\n".join(want)
    ctx.check_eq(out, want.replace("\n", "\r\n") if dos else want, "only that line changed")


def any_endings(ctx, n, skel):
    """carriage returns anywhere: only those before line feeds are part of the endings"""
    src, _ = fill(ctx, ctx.pick("skel", skel), dict(x=(0, n), e=(0, 1, "\r\nz ")))
    template, strings = PlaintextHandler().parse(src)
    strings = list(strings)
    ctx.observe("strings", [s.string for s in strings])
    first = src.find("\n")
    dos = first > 0 and src[first - 1] == "\r"
    lines = src.split("\n")
    kinds = [line.endswith("\r") for line in lines[:-1]]
    ctx.assume(all(k == dos for k in kinds))
    ctx.assume("\r\r\n" not in src)    # such an ending loses one of its carriage returns
    want = [line.strip() for line in lines if line.strip()]
    ctx.check_eq([s.string for s in strings], want, "every non-blank line, stripped, in order")
    out = PlaintextHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, src, "round trip")
