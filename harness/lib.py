"""Shared pieces of the harnesses.  Runs both instrumented (symbolic) and plain (replay)."""
import json
import re

from openformats.exceptions import ParseError
from openformats.strings import OpenString

_TOK = re.compile(r"<(\w+)>")
_TOKX = re.compile(r"\xab(\w+)\xbb")


def fill(ctx, skel, holes, cache=None):
    """Replace each <name> of the skeleton by a symbolic string: holes[name] = (lo, hi, dom) or a
    ready value.  The same name gives the same text everywhere.  Skeletons that contain angle
    brackets use guillemets around the names."""
    cache = {} if cache is None else cache
    out = []
    parts = (_TOKX if "\xab" in skel else _TOK).split(skel)
    for i, p in enumerate(parts):
        if i % 2 == 0:
            out.append(p)
            continue
        if p not in cache:
            if p not in holes and p.rstrip("0123456789") not in holes:
                out.append("<" + p + ">")
                continue
            h = holes[p] if p in holes else holes[p.rstrip("0123456789")]
            if isinstance(h, (tuple, list)):
                cache[p] = ctx.string(p, h[0], h[1], h[2] if len(h) > 2 else None)
            else:
                cache[p] = h
        out.append(cache[p])
    return "".join(out), cache


def crlf(ctx, text, name="crlf"):
    """Pick a line ending convention for a text written with \\n."""
    if ctx.flag(name):
        return text.replace("\n", "\r\n")
    return text


def parse(ctx, handler, text, **kw):
    """-> (template, [strings]) or None when rejected with a parse error."""
    try:
        template, strings = handler.parse(text, **kw)
    except ParseError:
        ctx.reach("rejected")
        return None
    ctx.reach("accepted")
    return template, list(strings)


def clone(s, **kw):
    """A copy of an extracted string with some attributes changed."""
    args = dict(key=s.key, order=s.order, context=s.context, pluralized=s.pluralized,
                developer_comment=s.developer_comment, character_limit=s.character_limit,
                occurrences=s.occurrences, flags=s.flags, fuzzy=s.fuzzy, obsolete=s.obsolete,
                tags=s.tags)
    value = s._strings
    if not s.pluralized:
        value = s._strings[5]
    value = kw.pop("value", value)
    args.update(kw)
    key = args.pop("key")
    return OpenString(key, value, **args)


def show(strings):
    return [(s.key, s.context, [(k, v) for k, v in sorted(s._strings.items())])
            for s in strings]


def put_back(ctx, template, strings):
    """The template with every placeholder replaced by the raw value: must be the source.  Each
    placeholder must occur exactly once, in order."""
    out = []
    pos = 0
    for s in strings:
        ph = s.template_replacement
        i = template.find(ph)
        ctx.check(i >= pos, "placeholders in order")
        if i < pos:
            return None
        ctx.check(template.find(ph, i + 1) < 0, "placeholder once")
        out.append(template[pos:i])
        out.append(s.string)
        pos = i + len(ph)
    out.append(template[pos:])
    return "".join(out)


def blank(s):
    return not s.strip()
