"""InDesign packages (with a stand-in for the library that reads their container, see stubs)."""
import os
import re
import sys
import unicodedata

try:
    import ucf  # noqa
except ImportError:
    sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"))

from openformats.formats.indesign import InDesignHandler

from harness.lib import *
from symex.zips import unzipped, zipped

ACE = re.compile(r"<\?ACE \d+\?>")
NUMBER = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?")
ENTITY = re.compile(r"&(lt|gt|amp|apos|quot|#\d+|#x[0-9a-fA-F]+);")


def story(contents, dos):
    """contents: the texts of its elements; None is an element without any"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<idPkg:Story xmlns:idPkg="urn:p" DOMVersion="8.0">\n<Story Self="u1">\n']
    for n, text in enumerate(contents):
        out.append('  <CharacterStyleRange Name="%d">\n' % n)
        out.append("    <Content/>\n" if text is None else "    <Content>%s</Content>\n" % text)
        out.append("    <Br/>\n  </CharacterStyleRange>\n")
    out.append("</Story></idPkg:Story>\n")
    text = "".join(out)
    return text.replace("\n", "\r\n") if dos else text


def package(stories, listed, dos):
    parts = [("mimetype", "application/vnd.adobe.indesign-idml-package"),
             ("designmap.xml", '<Document StoryList="%s"/>' % " ".join(listed)),
             ("Resources/Fonts.xml", "<Fonts><Content>Font a</Content></Fonts>")]
    for name, contents in stories:
        parts.append((part_of(name), story(contents, dos)))
    return parts


def part_of(name):
    return "XML/BackingStory.xml" if name == "backing" else "Stories/Story_%s.xml" % name


def text_of(content):
    """the string of an element, if it has one"""
    if content is None:
        return None
    text = content.strip()
    if "\n" in text:
        return None
    rest = ACE.sub("", text).replace("<Br/>;", "").strip()
    if rest == "" or NUMBER.fullmatch(text):
        return None
    for c in rest:
        if unicodedata.category(c)[0] in "LPS":
            return text
    return None


def escaped(text):
    """what a reader of the XML sees as the text, with the marks of InDesign kept"""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == "&" and not ENTITY.match(text, i):
            c = "&amp;"
        elif c == "<" and not ACE.match(text, i) and text[i:i + 5] != "<Br/>":
            c = "&lt;"
        elif c == ">" and text[max(i - 2, 0):i] == "]]":
            c = "&gt;"
        out.append(c)
        i += 1
    return "".join(out)


def stories(ctx, layouts, holes, given="all", new=None):
    """every text once, in the order of the stories; compiled to the same package"""
    layout, listed = ctx.pick("layout", layouts)
    dos = ctx.flag("dos")
    cache = {}
    made = []
    for name, contents in layout:
        made.append((name, [None if x is None else fill(ctx, x, holes, cache)[0] for x in contents]))
    source = package(made, listed, dos)
    template, strings = InDesignHandler().parse(zipped(source))
    ctx.observe("strings", show(strings))
    by_name = dict(made)
    order = [x for x in listed if x in by_name]
    first = [(name, n) for name in order for n, x in enumerate(by_name[name]) if text_of(x) is not None]
    rest = [(name, n) for name, contents in made if name not in listed
            for n, x in enumerate(contents) if text_of(x) is not None]
    wanted = [text_of(by_name[name][n]) for name, n in first]
    ctx.check_eq([s.string for s in strings][:len(wanted)], wanted, "the texts of the listed stories")
    # the others follow in some order
    places = list(first)
    others = [text_of(by_name[name][n]) for name, n in rest]
    ctx.check_eq(len(strings), len(wanted) + len(others), "every text once")
    names = [name for name, contents in made if name not in listed]
    if others:
        found = [s.string for s in strings][len(wanted):]
        same = None
        for names in (names, names[::-1], sorted(names)):
            slots = [(name, n) for name in names for n, x in enumerate(by_name[name]) if text_of(x) is not None]
            if same is None and found == [text_of(by_name[name][n]) for name, n in slots]:
                same = slots
        ctx.check(same is not None, "the texts of the other stories")
        places += same
    ctx.check_eq([s.order for s in strings], list(range(len(strings))), "the orders")
    ctx.check_eq(len(set(s.string_hash for s in strings)), len(strings), "keys differ")
    out = list(strings)
    if given == "none":
        out = []
        for name, n in places:
            change(by_name, name, n, "")
    elif given == "some":
        ctx.assume(len(strings) > 0)
        at = ctx.choice("dropped", len(strings))
        del out[at]
        change(by_name, places[at][0], places[at][1], "")
    if new is not None:
        at = ctx.choice("which", len(strings))
        fresh = fill(ctx, ctx.pick("translation", new), holes)[0]
        out[at] = clone(strings[at], value=fresh)
        out[at].string_hash  # noqa
        change(by_name, places[at][0], places[at][1], escaped(fresh))
    expected = package([(name, by_name[name]) for name, contents in made], listed, dos)
    result = unzipped(InDesignHandler().compile(template, out))
    ctx.check_eq(result, expected, "the package")


def change(by_name, name, n, text):
    old = by_name[name][n]
    start = len(old) - len(old.lstrip())
    end = len(old.rstrip())
    by_name[name] = list(by_name[name])
    by_name[name][n] = old[:start] + text + old[end:]
