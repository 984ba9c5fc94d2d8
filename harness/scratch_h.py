"""The files that the handlers of office documents use (C42)."""
import zipfile

from harness import office_h, xlsx_h
from harness.lib import *
from symex.zips import scratch, unzipped, zipped

HANDLERS = dict(office_h.HANDLERS, xlsx=xlsx_h.XlsxUnstructuredHandler)


def document(kind):
    if kind == "xlsx":
        return xlsx_h.workbook([("S", [("s", ["a"], None), ("i", ["b"], "u")])])
    return office_h.package(kind, [[("a", None), ("b", 0)], [("c", None)]], ["u"])


def attempt(function, *args, **kw):
    """-> the result, or the fact that there is none"""
    try:
        return function(*args, **kw)
    except (ParseError, LookupError, OSError, TypeError, ValueError, AttributeError, StopIteration,
            zipfile.BadZipFile):
        return None


def kept(ctx, s, name):
    """all of it is in a folder of its own, which is gone"""
    paths = s.touched()
    ctx.check_eq([path for path in paths if path[:1] == "/"], [], name + ": files of the folder for temporary files")
    ctx.check(len(set([path.split("/")[0] for path in paths])) <= 1, name + ": files of a folder of its own")
    ctx.check_eq(s.left(), [], name + ": nothing is left")


def steps(ctx, kind, parts, fault, step):
    handler = HANDLERS[kind]()
    content = zipped(parts)
    template = None
    if step == "compile":
        template, strings = handler.parse(content)
    with scratch() as s:
        if fault is not None:
            s.fail(*fault)
        if step == "compile":
            result = attempt(handler.compile, template, strings)
        else:
            result = attempt(handler.parse, content)
        kept(ctx, s, step)
    ctx.reach("rejected" if result is None else "accepted")
    return result


def names(ctx, kinds, places, x):
    """whatever a package says about its files"""
    kind = ctx.pick("kind", kinds)
    parts = document(kind)
    place = ctx.pick("place", places)
    text = fill(ctx, place[-1], dict(x=x))[0]
    # entries that end in a slash are folders
    ctx.assume(text != "" and text[-1] != "/" or place[0] != "entry")
    if place[0] == "entry":
        # one more file, or a file of another name
        at = ctx.choice("at", len(parts) + 1)
        if at == len(parts):
            parts.append((text, "z"))
        else:
            parts[at] = (text, parts[at][1])
    else:
        # a file it refers to
        at = [n for n, (name, data) in enumerate(parts) if place[1] in data]
        ctx.assume(at != [])
        name, data = parts[at[0]]
        parts[at[0]] = (name, data.replace(place[1], text))
    steps(ctx, kind, parts, None, "parse")


def faults(ctx, kinds):
    """whatever cannot be read or written"""
    kind = ctx.pick("kind", kinds)
    step = ctx.pick("step", ["parse", "compile"])
    parts = document(kind)
    ends = ["/" + name for name, data in parts] + ["/in." + kind[:4], "/out." + kind[:4]]
    end = ctx.pick("end", ends)
    mode = ctx.pick("mode", ["r", "w"])
    steps(ctx, kind, parts, (end, mode), step)


def broken(ctx, kinds, x):
    """packages without one of their files, with another one, or with another text"""
    kind = ctx.pick("kind", kinds)
    parts = document(kind)
    at = ctx.choice("at", len(parts))
    if ctx.flag("missing"):
        del parts[at]
    else:
        name, data = parts[at]
        # or without something in it
        word = ctx.pick("word", [None, "Target=", "Id=", "PartName=", "ContentType=", "Type=", "officeDocument",
                                 "External", "a:t", "w:t", "a:p", "w:r", "name=", "Relationship", "t="])
        if word is None:
            data = ctx.pick("text", ["", " ", "<a/>", "<a> <b c='d'/></a>"])
        else:
            ctx.assume(word in data)
            data = data.replace(word, word.replace(word.strip("<=>"), ctx.string("x", *x)))
        parts[at] = (name, data)
    steps(ctx, kind, parts, None, "parse")
