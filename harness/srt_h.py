"""SRT and WebVTT."""
from openformats.exceptions import ParseError
from openformats.formats.srt import SrtHandler
from openformats.formats.vtt import VttHandler

from harness.lib import *

TIMES = ["00:00:01,000 --> 00:00:02,5", "1:2:3 --> 01:02:04,05 X1:40 Y", "00:00:05,1   -->\t00:00:06"]
NORM = ["00:00:01.000,00:00:02.500", "01:02:03.000,01:02:04.050", "00:00:05.100,00:00:06.000"]
VTIMES = ["00:01.000 --> 00:02.5", "1:2:3 --> 01:02:04.05 align:left x", "00:00:05.1   -->\t00:06"]
VNORM = ["00:01.000,00:02.500", "01:02:03.000,01:02:04.050", "00:00:05.100,00:06.000"]
LINE = ("not", "\r\n")


def subtitles(ctx, n, k, texts, ids):
    """k subtitles -> [(id, timing index, text)]"""
    out = []
    first = ctx.choice("first", 3)
    for i in range(k):
        if i == 0:
            text, _ = fill(ctx, ctx.pick("text", texts), dict(t=(0, n, LINE), u=(1, n, LINE)))
        else:
            text = "text %d\n- <i>b</i>" % i
        out.append((ids[i], (first + i) % 3, text))
    return out


def text_ok(ctx, text):
    """a block without blank lines"""
    ok = True
    for i, line in enumerate(text.split("\n")):
        ok = ok and bool(line.strip())
    return ok


def srt_roundtrip(ctx, n, texts, k=3):
    idsets = [["1", "2", "3"], [" 7", "10 ", "100"], ["01", "002", "+3"]]
    ids = ctx.pick("ids", idsets)
    subs = subtitles(ctx, n, k, texts, ids)
    if not text_ok(ctx, subs[0][2]):
        return
    gap = ctx.pick("gap", ["\n\n", "\n\n\n", " \n\n\n\n "])
    lead = ctx.pick("lead", ["", "\n\n", " \n"])
    tail = ctx.pick("tail", ["", "\n", "\n \n\n"])
    text = lead + gap.join([i + "\n" + TIMES[t] + "\n" + x for i, t, x in subs]) + tail
    src = crlf(ctx, text)
    r = parse(ctx, SrtHandler(), src)
    ctx.check(r is not None, "accepted")
    if r is None:
        return
    template, strings = r
    got = [(s.key, s.order, s.string, s.occurrences) for s in strings]
    ctx.observe("got", got)
    want = []
    for j, (i, t, x) in enumerate(subs):
        # the file's blank ends and the section's surrounding space aren't part of the text
        want.append((i.strip(), int(i), x.rstrip(), NORM[t]))
    ctx.check_eq(got, want, "every subtitle once")
    out = SrtHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, src, "round trip")


def srt_subset(ctx, gaps, k=3):
    ids = ["1", "2", "3", "4"][:k]
    txt = ctx.string("t", 1, 1, LINE)
    if not txt.strip():
        return
    gap = ctx.pick("gap", gaps)
    blocks = [i + "\n" + TIMES[j % 3] + "\n" + (txt if j == 1 else "text\n" + i)
              for j, i in enumerate(ids)]
    text = gap.join(blocks) + "\n"
    src = crlf(ctx, text)
    template, strings = SrtHandler().parse(src)
    keep = [ctx.flag("keep%d" % i) for i in range(k)]
    kept = [s for s, f in zip(strings, keep) if f]
    out = SrtHandler().compile(template, kept)
    ctx.observe("out", out)
    want = gap.join([b if f else "" for b, f in zip(blocks, keep)]) + "\n"
    if "\r\n" in src:
        want = want.replace("\n", "\r\n")
    # the text keeps what surrounds it, only the block goes
    ctx.check_eq("\n".join(out.split()), "\n".join(want.split()), "exactly the missing ones go")
    if kept:
        _, again = SrtHandler().parse(out)
        ctx.check_eq([(s.key, s.string, s.occurrences) for s in again],
                     [(s.key, s.string, s.occurrences) for s in kept], "parses to the kept ones")


def srt_free(ctx, docs, holes, vtt=False):
    """whatever the text: a parse error or an exact round trip, twice"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    H = VttHandler if vtt else SrtHandler
    r = parse(ctx, H(), text)
    if r is None:
        return
    template, strings = r
    ctx.observe("got", [(s.key, s.string, s.occurrences) for s in strings])
    out = H().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, text, "round trip")
    if len(set([s.key for s in strings])) == len(strings):
        ctx.check_eq(put_back(ctx, template, strings), text,
                     "template is the source with placeholders")


def number(part):
    try:
        return int(part)
    except ValueError:
        return None


def timing_ref(t, sep, hours):
    """reference reading of a timing -> normal form or None"""
    if t.count(sep) == 1:
        rest, ms = t.split(sep)
        while len(ms) < 3:
            ms = ms + "0"
        ms = number(ms)
    else:
        rest, ms = t, 0
    parts = [number(p) for p in rest.split(":")]
    if len(parts) not in hours or ms is None or None in parts:
        return None
    return ":".join(["%02d" % p for p in parts]) + "." + "%03d" % ms


def timings(ctx, docs, n, vtt, dom):
    t, _ = fill(ctx, ctx.pick("t", docs), dict(x=(0, n, dom)))
    H = VttHandler if vtt else SrtHandler
    sep = "." if vtt else ","
    want = timing_ref(t, sep, (2, 3) if vtt else (3,))
    other = "00:00:01"
    first = ctx.flag("first")
    line = (t + " --> " + other) if first else (other + " --> " + t)
    ident = "1\n" if not vtt or ctx.flag("ident") else ""
    src = ("WEBVTT\n\n" if vtt else "\n") + ident + line + "\ntext\n"
    lineno = src[:src.find(line)].count("\n") + 1
    try:
        _, strings = H().parse(src)
    except ParseError as e:
        ctx.reach("rejected")
        msg = str(e)
        ctx.check(want is None, "valid timing accepted")
        if not msg.startswith("Unexpected timing format"):
            ctx.check(" line %d" % lineno in msg, "line named")
        return
    ctx.check(want is not None, "malformed timing rejected")
    if want is None:
        return
    ctx.check_eq(len(strings), 1, "one string")
    o = "00:00:01.000"
    ctx.observe("occ", strings[0].occurrences)
    ctx.check_eq(strings[0].occurrences, (want + "," + o) if first else (o + "," + want),
                 "normalised")


def arrow(ctx, n, dom, vtt):
    """the line with the timings: two timings around an arrow, and maybe more"""
    gap = ctx.string("gap", 0, 2, " \t")
    arrow = ctx.string("arrow", 0, n, dom)
    gap2 = ctx.string("gap2", 0, 1, " \t")
    more = ctx.string("more", 0, 2, " x>-")
    line = "00:00:01" + gap + arrow + gap2 + "00:00:02" + more
    H = VttHandler if vtt else SrtHandler
    src = ("WEBVTT\n\n" if vtt else "") + "1\n" + line + "\ntext\n"
    ok = gap != "" and arrow == "-->" and gap2 != "" and (more.strip() == "" or more[:1] == " ")
    try:
        template, strings = H().parse(src)
    except ParseError:
        ctx.check(not ok, "valid timings accepted")
        return
    ctx.check(ok, "malformed timings rejected")
    ctx.check_eq([s.occurrences for s in strings], ["00:00:01.000,00:00:02.000"], "timings")
    ctx.check_eq(strings[0].string.strip(), "text", "text")


def numbers(ctx, n, dom):
    """order numbers: positive and increasing"""
    a = ctx.string("a", 1, n, dom)
    b = ctx.string("b", 1, n, dom)
    body = "\n00:00:01,000 --> 00:00:02,000\nx"
    gap = ctx.pick("gap", ["\n\n", "\n\n\n"])
    src = a + body + gap + b + body
    x, y = number(a.strip()), number(b.strip())
    bad = None
    if not a.strip() or x is None or x <= 0:
        bad = 1
    elif not b.strip() or y is None or y <= 0 or y <= x:
        bad = 3 + len(gap)
    if not a.strip() or not b.strip():
        return
    try:
        _, strings = SrtHandler().parse(src)
    except ParseError as e:
        ctx.reach("rejected")
        ctx.check(bad is not None, "valid numbers accepted")
        ctx.check("line %d " % (bad or 0) in str(e), "line named")
        return
    ctx.check(bad is None, "bad number rejected")
    ctx.check_eq([s.key for s in strings], [a.strip(), b.strip()], "keys")


def truncated(ctx, n):
    """missing parts"""
    what = ctx.pick("what", ["1\n<t>", "1", "<t>\n00:00:01,000 --> 00:00:02,000",
                             "1\n00:00:01,000 <t> 00:00:02,000\nx",
                             "1\n00:00:01,000 --><t>\nx"])
    bad, c = fill(ctx, what, dict(t=(0, n, LINE)))
    lead = ctx.pick("lead", ["", "\n\n", "1\n00:00:01,000 --> 00:00:02,000\nx\n\n"])
    if "1\n0" in lead:
        bad = bad.replace("1\n", "2\n", 1)
    src = lead + bad + ctx.pick("tail", ["", "\n", "\n\n"])
    arrow = True
    if "00:00:01,000 <t> 00" in what:
        arrow = ctx.eq(c["t"].strip(), "-->")
        if not arrow and len(c["t"].split()) > 1:
            return
    elif "--><t>" in what:
        arrow = False
        if c["t"][:1].isspace():
            return
    if "<t> 00" in what and arrow:
        return
    try:
        SrtHandler().parse(src)
    except ParseError as e:
        m = " line "
        s = str(e)
        base = lead.count("\n") + 1
        j = 0
        while bad[j:j + 1].isspace():
            if bad[j] == "\n":
                base += 1
            j += 1
        i = s.find(m)
        ctx.check(i >= 0, "line named")
        num = s[i + len(m):].split(" ")[0].rstrip(":.")
        ctx.check_eq(num, str(base + (0 if "Not enough" in s or "Order" in s else 1)), "line number")
        return
    ctx.fail("malformed file rejected")


# ---------------------------------------------------------------- WebVTT

EXTRA = ["NOTE a comment\nof two lines", "STYLE\n::cue { color: red }", "REGION\nid:fred",
         "NOTE", "7\n00:00:09.000 --> 00:00:10.000"]


def vtt_doc(ctx, n, k, texts, idsets, extra):
    ids = ctx.pick("ids", idsets)
    subs = subtitles(ctx, n, k, texts, ids)
    if not text_ok(ctx, subs[0][2]) or "-->" in subs[0][2]:
        return None
    header = ctx.pick("header", ["WEBVTT", "WEBVTT - title\nKind: captions"])
    blocks = [(None, header)]
    ex = ctx.pick("extra", extra)
    at = ctx.choice("at", k + 1) if ex is not None else -1
    for j in range(k + 1):
        if j == at:
            blocks.append((None, ex))
        if j < k:
            i, t, x = subs[j]
            blocks.append((j, (i + "\n" if i else "") + VTIMES[t] + "\n" + x))
    return subs, blocks


def vtt_roundtrip(ctx, n, texts, extra, k=3):
    d = vtt_doc(ctx, n, k, texts, [["", "", ""], ["1", "ab c", "1"], ["two\nlines", "", "x"]],
                extra)
    if d is None:
        return
    subs, blocks = d
    gap = ctx.pick("gap", ["\n\n", "\n\n\n"])
    text = gap.join([b for _, b in blocks]) + ctx.pick("tail", ["", "\n", "\n\n"])
    src = crlf(ctx, text)
    r = parse(ctx, VttHandler(), src)
    ctx.check(r is not None, "accepted")
    if r is None:
        return
    template, strings = r
    got = [(s.key, s.order, s.string, s.occurrences) for s in strings]
    ctx.observe("got", got)
    want = []
    for j, (i, t, x) in enumerate(subs):
        want.append((VTIMES[t], j, x.rstrip(), VNORM[t]))
    ctx.check_eq(got, want, "every cue once")
    out = VttHandler().compile(template, strings)
    ctx.observe("out", out)
    ctx.check_eq(out, src, "round trip")


def vtt_subset(ctx, extra, k=3):
    d = vtt_doc(ctx, 1, k, ["<u>", "a\n<u>"], [["", "", ""], ["1", "ab c", "1"],
                                              ["two\nlines", "", "x"]], extra)
    if d is None:
        return
    subs, blocks = d
    text = "\n\n".join([b for _, b in blocks]) + "\n"
    src = crlf(ctx, text)
    template, strings = VttHandler().parse(src)
    keep = [ctx.flag("keep%d" % i) for i in range(k)]
    kept = [s for s, f in zip(strings, keep) if f]
    out = VttHandler().compile(template, kept)
    ctx.observe("out", out)
    want = "\n\n".join([b if j is None or keep[j] else "" for j, b in blocks]) + "\n"
    ctx.check_eq("\n".join(out.split()), "\n".join(want.split()), "exactly the missing ones go")
    if kept:
        _, again = VttHandler().parse(out)
        ctx.check_eq([(s.key, s.string, s.occurrences) for s in again],
                     [(s.key, s.string, s.occurrences) for s in kept], "parses to the kept ones")


def vtt_twins(ctx):
    """two cues shown at the same time"""
    t = "00:01.000 --> 00:02.000"
    text = "WEBVTT\n\nfirst\n" + t + "\none\n\nsecond\n" + t + "\ntwo\n"
    template, strings = VttHandler().parse(text)
    keep = [ctx.flag("keep%d" % i) for i in range(2)]
    kept = [s for s, f in zip(strings, keep) if f]
    out = VttHandler().compile(template, kept)
    ctx.observe("out", out)
    want = "WEBVTT"
    for i, b in enumerate(["first\n" + t + "\none", "second\n" + t + "\ntwo"]):
        if keep[i]:
            want += "\n\n" + b
    ctx.known("vtt-same-timing", not keep[0] and keep[1])
    ctx.check_eq("\n".join(out.split()), "\n".join(want.split()), "exactly the missing ones go")
