"""Generator of JSON documents (shape by choice, text symbolic) and reference semantics on trees.

A node is ("s", raw) | ("l", literal text) | ("d", [(rawkey, node)]) | ("a", [node])."""
import json

STYLES = {
    # open, close, item separator, key separator; {i} = indentation
    "compact": ("", "", ",", ":"),
    "spaced": (" ", " ", ", ", ": "),
    "lines": ("\n{i}", "\n{o}", ",\n{i}", ": "),
    "odd": ("\n\t", " \n", " ,\n ", " :\t"),
}


def emit(node, style, level=0):
    k = node[0]
    if k == "s":
        return '"' + node[1] + '"'
    if k == "l":
        return node[1]
    op, cl, sep, ks = [x.replace("{i}", "  " * (level + 1)).replace("{o}", "  " * level)
                       for x in STYLES[style]]
    if k == "d":
        if not node[1]:
            return "{}" if style != "odd" else "{\n}"
        return "{" + op + sep.join(
            ['"' + a + '"' + ks + emit(b, style, level + 1) for a, b in node[1]]) + cl + "}"
    if not node[1]:
        return "[]" if style != "odd" else "[\n ]"
    return "[" + op + sep.join([emit(b, style, level + 1) for b in node[1]]) + cl + "]"


class Gen(object):
    def __init__(self, ctx, leaf, key, literals=("1",), blanks=()):
        self.ctx = ctx
        self.leaf = leaf
        self.key = key
        self.n = 0
        self.kinds = ["s"] + [("l", x) for x in literals] + [("s", x) for x in blanks]

    def node(self, depth, width):
        """leaf or container"""
        c = self.ctx
        self.n += 1
        me = "n%d" % self.n
        opts = list(self.kinds)
        if depth > 0:
            opts += ["d", "a"]
        k = c.pick(me, opts)
        if k == "s":
            return ("s", self.leaf(self.n))
        if k in ("d", "a"):
            return self.container(k, depth, width, me)
        return k

    def container(self, k, depth, width, me):
        n = self.ctx.choice(me + ".w", width + 1)
        if k == "d":
            return ("d", [(self.key(i), self.node(depth - 1, width)) for i in range(n)])
        return ("a", [self.node(depth - 1, width) for i in range(n)])

    def root(self, depth, width):
        k = self.ctx.pick("root", ["d", "a"])
        return self.container(k, depth, width, "root")


def esc_key(k):
    """dots and backslashes of a key are preceded by a backslash"""
    out = []
    for ch in k:
        if ch == "\\" or ch == ".":
            out.append("\\")
        out.append(ch)
    return "".join(out)


def leaves(node, path=None):
    """(path, raw) of every string leaf in document order"""
    k = node[0]
    out = []
    if k == "s":
        out.append((path, node[1]))
    elif k == "d":
        for a, b in node[1]:
            p = esc_key(a)
            out += leaves(b, p if path is None else path + "." + p)
    elif k == "a":
        for i, b in enumerate(node[1]):
            p = "..%d.." % i
            out += leaves(b, p if path is None else path + p)
    return out


def keypaths(node, path=None):
    """the path of every dictionary entry"""
    k = node[0]
    out = []
    if k == "d":
        for a, b in node[1]:
            p = esc_key(a)
            p = p if path is None else path + "." + p
            out.append(p)
            out += keypaths(b, p)
    elif k == "a":
        for i, b in enumerate(node[1]):
            p = "..%d.." % i
            out += keypaths(b, p if path is None else path + p)
    return out


def prune(node, keep, counter):
    """Reference removal: drop the string leaves that are not kept and the containers that become
    empty because of it.  keep: list of bool per non-blank string leaf.  Returns node or None."""
    k = node[0]
    if k == "s":
        if not node[1].strip():
            return node
        i = counter[0]
        counter[0] += 1
        return node if keep[i] else None
    if k == "l":
        return node
    if not node[1]:
        return node
    if k == "d":
        items = [(a, prune(b, keep, counter)) for a, b in node[1]]
        items = [(a, b) for a, b in items if b is not None]
    else:
        items = [prune(b, keep, counter) for b in node[1]]
        items = [b for b in items if b is not None]
    if not items:
        return None
    return (k, items)


def prune_root(node, keep):
    r = prune(node, keep, [0])
    return (node[0], []) if r is None else r


def data(node, sub=None):
    """What a JSON reader sees: ("d", [(key, value)]) | list | scalar.  sub maps the i-th
    non-blank leaf to its new raw text."""
    c = [0]

    def go(n):
        if n[0] == "s":
            raw = n[1]
            if raw.strip():
                i = c[0]
                c[0] += 1
                if sub is not None:
                    raw = sub[i]
            return json.loads('"' + raw + '"')
        if n[0] == "l":
            return json.loads(n[1])
        if n[0] == "d":
            return ("d", [(json.loads('"' + a + '"'), go(b)) for a, b in n[1]])
        return [go(b) for b in n[1]]
    return go(node)


def load(text):
    return json.loads(text, object_pairs_hook=lambda ps: ("d", [(a, b) for a, b in ps]))
