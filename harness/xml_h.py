"""The position-tracking XML tokenizer."""
from openformats.utils.xml import DumbXmlSyntaxError, NewDumbXml

from harness.lib import *

NAME = ("not", " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u180e\u2000\u2001\u2002\u2003\u2004"
        "\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000/<>=\"'!?&")
TEXT = ("not", "<\r")
SP = " \t\n"


class Doc(object):
    """Writes a document and remembers what is where."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.src = ""
        self.n = 0

    def put(self, s):
        at = len(self.src)
        self.src = self.src + s
        return at

    def name(self, kind):
        self.n += 1
        return "%s%d" % (kind, self.n)

    def text(self, parts, holes):
        """Text made of plain text holes 't' and CDATA holes 'c'; -> (position, text)"""
        at = len(self.src)
        for p in parts:
            if p == "c":
                cdata = self.ctx.string(self.name("cdata"), *holes["c"])
                self.ctx.assume("]]>" not in cdata + "]]")
                self.put("<![CDATA[" + cdata + "]]>")
            elif p == "t":
                self.put(self.ctx.string(self.name("text"), *holes["t"]))
            else:
                self.put(p)
        return at, self.src[at:]

    def node(self, spec, holes):
        """spec: (name, attrs, text, children, tail, single), or (comment, tail)"""
        d = {}
        if spec[0] == "!--":
            d["tag"] = "!--"
            d["position"] = self.put("<!--")
            d["text_position"] = len(self.src)
            d["text"] = self.ctx.string(self.name("comment"), *holes["k"])
            self.ctx.assume("-->" not in d["text"] + "--")
            self.put(d["text"])
            d["content_end"] = self.put("-->")
            d["tail_position"], d["tail"] = self.text(spec[1], holes)
            d["end"] = len(self.src)
            d["children"] = []
            d["attributes"] = []
            return d
        name, attrs, text, children, tail = spec
        if name == "n":
            name = self.ctx.string(self.name("name"), *holes["n"])
        d["tag"] = name
        d["position"] = self.put("<")
        self.put(name)
        d["attributes"] = []
        for quote in attrs:
            self.put(self.ctx.string(self.name("space"), 1, 1, SP))
            key = self.ctx.string(self.name("key"), *holes["n"])
            dom = holes["v"][2]
            value = self.ctx.string(self.name("value"), holes["v"][0], holes["v"][1],
                                    ("not", dom[1] + quote))
            kp = self.put(key)
            self.put(self.ctx.string(self.name("space"), *holes.get("e", (0, 0, SP))) + "=")
            self.put(self.ctx.string(self.name("space"), *holes.get("e", (0, 0, SP))) + quote)
            vp = self.put(value)
            self.put(quote)
            d["attributes"].append((kp, key, vp, value))
        self.put(self.ctx.string(self.name("space"), *holes.get("s", (0, 1, SP))))
        if text is None:
            self.put("/>")
            d["text_position"] = d["text"] = d["content_end"] = None
            d["children"] = []
        else:
            self.put(">")
            d["text_position"], d["text"] = self.text(text, holes)
            d["children"] = [self.node(c, holes) for c in children]
            d["content_end"] = self.put("</")
            self.put(name)
            self.put(self.ctx.string(self.name("space"), *holes.get("s", (0, 1, SP))))
            self.put(">")
        d["tail_position"], d["tail"] = self.text(tail, holes)
        d["end"] = len(self.src)
        return d


ATTRS = ["position", "tag", "attributes", "text_position", "text", "content_end",
         "tail_position", "tail", "end"]


def measure(node, order):
    """Everything the tokenizer says, asked for in a given order."""
    d = {}
    for a in order:
        d[a] = getattr(node, a)
    d["children"] = [measure(c, order) for c in node]
    return d


def positions(ctx, specs, holes):
    doc = Doc(ctx)
    pre = doc.put(ctx.pick("before", ["", "x > "]))
    want = doc.node(ctx.pick("spec", specs), holes)
    order = list(ATTRS)
    if ctx.flag("backwards"):
        order.reverse()
    got = measure(NewDumbXml(doc.src), order)
    for a in ATTRS:
        ctx.observe(a, got[a])
    compare(ctx, got, want)
    root = NewDumbXml(doc.src)
    keys = [k for _, k, _, _ in want["attributes"]]
    if len(keys) == 1:
        ctx.check_eq(root.attrib, {keys[0]: want["attributes"][0][3]}, "attrib")
    if want["tag"] != "!--" and want["text"] is not None:
        ctx.check_eq(root.content, doc.src[want["text_position"]:want["content_end"]], "content")
    tags = [c["tag"] for c in want["children"]]
    ctx.check_eq([c.tag for c in root.find_children("b", "!--")],
                 [t for t in tags if t in ("b", "!--")], "children by tag")
    deep = [d["position"] for d in descend(want) if d["tag"] == "b"]
    ctx.check_eq([c.position for c in root.find_descendants("b")], deep, "descendants by tag")


def descend(d):
    out = []
    for c in d["children"]:
        out.append(c)
        out.extend(descend(c))
    return out


def compare(ctx, got, want):
    for a in ATTRS:
        ctx.check_eq(got[a], want[a], a)
    ctx.check_eq(len(got["children"]), len(want["children"]), "every child")
    for g, w in zip(got["children"], want["children"]):
        compare(ctx, g, w)


def rebuild(src, node):
    """The raw text of a node and its tail, from the reported pieces."""
    if node.tag == "!--":
        return "<!--" + node.text + "-->" + node.tail
    if node.text_position is None:
        return src[node.position:node.tail_position] + node.tail
    out = src[node.position:node.text_position] + node.text
    for c in node:
        out = out + rebuild(src, c)
    return out + src[node.content_end:node.tail_position] + node.tail


def robust(ctx, docs, holes):
    """any text: syntax error, or pieces that put the source back together"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        root = NewDumbXml(text)
        again = rebuild(text, root)
        attrs = root.attributes
    except DumbXmlSyntaxError:
        ctx.reach("rejected")
        return
    ctx.observe("again", again)
    ctx.check_eq(text[:root.position] + again, text[:root.end], "pieces rebuild the source")
    ctx.check(len(text[:root.position]) == root.position, "position")
    for kp, k, vp, v in attrs:
        ctx.check(text[kp:kp + len(k)] == k and text[vp:vp + len(v)] == v, "attributes")


def closing(ctx, n):
    """only the right closing tag is accepted"""
    name = ctx.string("name", 1, n, ("not", NAME[1] + "-"))
    end = ctx.string("end", 0, n + 1, ("not", "<"))
    depth = ctx.choice("depth", 2)
    text = "<" + name + ">x</" + end
    if depth:
        text = "<r>" + text + "</r>"
    try:
        root = NewDumbXml(text)
        root.end
    except DumbXmlSyntaxError:
        ok = end[:len(name)] == name and end[len(name):].strip()[:1] == ">"
        ctx.check(not ok, "only wrong closing tags are rejected")
        return
    if depth:
        root = list(root)[0]
    ctx.check_eq(end[:len(name)], name, "wrong closing tags are rejected")
    rest = end[len(name):].lstrip()
    ctx.check(rest[:1] == ">", "closing tags end")
    ctx.check_eq(root.tail, rest[1:], "tail")


def broken(ctx, docs):
    """cut anywhere before the end: rejected"""
    doc = ctx.pick("doc", docs)
    text, _ = fill(ctx, doc, dict(t=(0, 1, ("not", "<\r")), v=(0, 1, ("not", "\"\r")),
                                  k=(0, 1, ("not", "-\r"))))
    cut = ctx.choice("cut", len(text))
    part = text[:cut]
    try:
        NewDumbXml(part).end
    except DumbXmlSyntaxError:
        ctx.check(True, "truncated documents are rejected")
        return
    ctx.fail("truncated documents are rejected")
