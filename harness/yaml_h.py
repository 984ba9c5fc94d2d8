"""YAML files.

The oracle reads files with the YAML library's own composer: a file is a tree of tagged nodes."""
import yaml
from yaml.composer import ComposerError

from openformats.exceptions import ParseError
from openformats.formats.yaml import YamlHandler, I18nYamlHandler
from openformats.strings import OpenString

from harness.lib import *

STR = "tag:yaml.org,2002:str"
OTHER = ["tag:yaml.org,2002:" + x for x in "null bool int float timestamp binary".split()]
KNOWN = OTHER + [STR, "tag:yaml.org,2002:map", "tag:yaml.org,2002:seq", "alias"]
CUSTOM = re.compile(r"![a-zA-Z0-9_:.\-]*")


class Composer(yaml.SafeLoader):
    """Aliases stay aliases, anchors are noted"""

    def compose_node(self, parent, index):
        if self.check_event(yaml.events.AliasEvent):
            event = self.get_event()
            node = yaml.nodes.ScalarNode("alias", event.anchor, event.start_mark, event.end_mark)
            node.anchor = None
            return node
        anchor = self.peek_event().anchor
        node = yaml.SafeLoader.compose_node(self, parent, index)
        node.anchor = anchor
        return node


def compose(text):
    loader = Composer(text)
    try:
        return loader.get_single_node()
    finally:
        loader.dispose()


def tree(node):
    if node is None:
        return None
    if isinstance(node, yaml.ScalarNode):
        return [kind(node.tag), node.value, node.anchor]
    if isinstance(node, yaml.SequenceNode):
        return [node.tag, [tree(x) for x in node.value], node.anchor]
    return [node.tag, [[tree(k), tree(v)] for k, v in node.value], node.anchor]


def kind(tag):
    """A tag; the ones which are not documented make texts"""
    if tag[:1] == "!" and not CUSTOM.fullmatch(tag) or tag[:1] != "!" and tag not in KNOWN:
        return STR
    return tag


class Unclear(Exception):
    """The reference does not say what happens with this"""


def part(node, text):
    """the text of a key in a path"""
    if node.tag == STR or node.tag == "alias" or node.tag[:1] == "!":
        key = node.value if node.tag != "alias" else ""
    elif node.tag == "tag:yaml.org,2002:bool":
        key = text[node.start_mark.index:node.end_mark.index]
    elif node.tag == "tag:yaml.org,2002:int" and node.value.isdigit() and node.value[0] != "0":
        key = "<" + node.value + ">"
    else:
        raise Unclear
    return key.replace(".", "<TX_DOT>")


def walk(node, path, text, out):
    """every string of a file: (path, tag, text, node)"""
    if isinstance(node, yaml.MappingNode):
        for k, v in node.value:
            if not isinstance(k, yaml.ScalarNode):
                raise Unclear
            visit(v, path + [part(k, text)], text, out)
    elif isinstance(node, yaml.SequenceNode):
        n = 0
        for v in node.value:
            if visit(v, path + ["[%d]" % n], text, out):
                n += 1


def visit(node, path, text, out):
    """whether the node counts as an item of its list"""
    if isinstance(node, yaml.ScalarNode):
        if node.tag == "alias":
            return True
        if kind(node.tag) != STR and node.tag[:1] != "!":
            if node.tag not in OTHER:
                raise Unclear
            return False
        if node.value != "":
            at = node.start_mark.index
            tagged = CUSTOM.fullmatch(node.tag) and text[at:at + 1] == "!" and (
                node.anchor is None or "&" not in text[at:node.end_mark.index])
            if node.anchor is not None:
                tagged = CUSTOM.fullmatch(node.tag) and text[at:at + 1] == "&"
            out.append((".".join(path), node.tag[1:] if tagged else "", node.value, node))
        return True
    if node.tag not in ("tag:yaml.org,2002:map", "tag:yaml.org,2002:seq"):
        raise Unclear
    walk(node, path, text, out)
    return True


def plain_keys(node):
    """no keys that are numbers with a fraction or dates: nothing is said about their names"""
    if node is None or isinstance(node, yaml.ScalarNode):
        return True
    if isinstance(node, yaml.SequenceNode):
        return all([plain_keys(x) for x in node.value])
    return all([k.tag not in (OTHER[3], OTHER[4]) and plain_keys(v) for k, v in node.value])


def reference(text):
    """-> root, strings or None when it is not clear what they are"""
    root = compose(text)
    out = []
    try:
        if root is not None and not isinstance(root, yaml.ScalarNode):
            if root.tag not in ("tag:yaml.org,2002:map", "tag:yaml.org,2002:seq"):
                raise Unclear
            walk(root, [], text, out)
    except Unclear:
        return root, None
    return root, out


def compiled(ctx, template, strings, handler=YamlHandler):
    out = handler().compile(template, strings)
    ctx.observe("out", out)
    return out


def free(ctx, docs, holes):
    """any text at a place of a document: a parse error, or every string is reported and the
    compiled file has the same data as the source"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        root, want = reference(text)
    except yaml.YAMLError:
        root = want = None
    ctx.assume(plain_keys(root))
    try:
        template, strings = YamlHandler().parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    ctx.observe("strings", show(strings))
    if want is not None:
        ctx.check_eq([(s.key, s.context, s.string) for s in strings], [w[:3] for w in want],
                     "every text once")
    out = compiled(ctx, template, strings)
    ctx.check_eq(tree(compose(out)), tree(root), "same data")


def translated(ctx, docs, holes, new, pick=True):
    """any translation of one string of a document"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    dos = ctx.flag("dos") if "\n" in text else False
    if dos:
        text = text.replace("\n", "\r\n")
    template, strings = YamlHandler().parse(text)
    root, want = reference(text)
    ctx.check_eq([(s.key, s.context, s.string) for s in strings], [w[:3] for w in want],
                 "every text once")
    at = ctx.choice("which", len(strings))
    fresh = ctx.string("new", *new)
    given = [clone(s, value=fresh if n == at else s.string) for n, s in enumerate(strings)]
    out = compiled(ctx, template, given)
    want[at][3].value = fresh
    ctx.check_eq(tree(compose(out)), tree(root), "only that value changes")


# ---------------------------------------------------------------- C29

def names(ctx, docs, holes):
    """the key of every string spells its path, and only its path"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        root, want = reference(text)
    except yaml.YAMLError:
        root = want = None
    ctx.assume(plain_keys(root))
    try:
        template, strings = YamlHandler().parse(text)
    except ParseError:
        ctx.reach("rejected")
        if want is not None and unique_keys(root):
            ids = [w[:2] for w in want]
            ctx.check(any([ctx.eq(a, b) for n, a in enumerate(ids) for b in ids[:n]]),
                      "only keys that look the same are rejected")
        return
    ctx.observe("strings", show(strings))
    if want is None:
        return
    ctx.check_eq([s.key for s in strings], [w[0] for w in want], "the key is the path")
    for n, s in enumerate(strings):
        for o in strings[:n]:
            ctx.check(ctx.no(ctx.every([ctx.eq(s.key, o.key), ctx.eq(s.context, o.context)])),
                      "different keys")
    for s, path in zip(strings, paths(root, [])):
        ctx.check_eq([YamlHandler.unescape_dots(p) for p in s.key.split(".")], path,
                     "the key splits into the path")


def unique_keys(node):
    """whether no mapping has two keys that are written or read alike"""
    if node is None or isinstance(node, yaml.ScalarNode):
        return True
    if isinstance(node, yaml.SequenceNode):
        return all([unique_keys(x) for x in node.value])
    seen = []
    for k, v in node.value:
        me = (k.tag, k.value)
        if k.tag not in (STR, OTHER[2]) or me in seen or not unique_keys(v):
            return False
        seen.append(me)
    return True


def paths(node, path):
    """the keys to every text"""
    out = []
    if isinstance(node, yaml.MappingNode):
        for k, v in node.value:
            name = "" if k.tag == "alias" else k.value
            if k.tag == OTHER[2]:
                name = "<" + name + ">"
            out += paths(v, path + [name])
    elif isinstance(node, yaml.SequenceNode):
        n = 0
        for v in node.value:
            if not isinstance(v, yaml.ScalarNode) or v.tag == "alias" or kind(v.tag) == STR or (
                    v.tag[:1] == "!"):
                out += paths(v, path + ["[%d]" % n])
                n += 1
    elif node is not None and (kind(node.tag) == STR or node.tag[:1] == "!") and node.value:
        out.append(path)
    return out


def pruned(node, keep):
    """the tree of the strings to keep (a list of flags in order), without tags and anchors"""
    if isinstance(node, yaml.ScalarNode):
        if kind(node.tag) != STR and node.tag[:1] != "!" or node.value == "":
            return None
        return [STR, node.value, None] if keep.pop(0) else None
    if isinstance(node, yaml.SequenceNode):
        items = [pruned(x, keep) for x in node.value]
        items = [x for x in items if x is not None]
        return ["tag:yaml.org,2002:seq", items, None] if items else None
    items = []
    for k, v in node.value:
        v = pruned(v, keep)
        if v is not None:
            tag = k.tag if k.tag == OTHER[2] else STR
            items.append([[tag, k.value, None], v])
    return ["tag:yaml.org,2002:map", items, None] if items else None


def subset(ctx, docs, holes):
    """compiling some of the strings without the template"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        root, want = reference(text)
    except yaml.YAMLError:
        root = want = None
    ctx.assume(want is not None and plain_keys(root) and unique_keys(root))
    ctx.assume(not special(root))
    try:
        template, strings = YamlHandler().parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    keep = [ctx.flag("keep%d" % n) for n in range(len(strings))]
    handler = YamlHandler()
    handler.should_use_template = False
    out = handler.compile(template, [s for s, k in zip(strings, keep) if k])
    ctx.observe("out", out)
    got = compose(out)
    rest = pruned(root, list(keep))
    if rest is None:
        ctx.check_eq(tree(got), ["tag:yaml.org,2002:map", [], None], "nothing is left")
    else:
        ctx.check_eq(tree(got), rest, "exactly the strings that were kept")


def special(node):
    """keys that look like the ones of list items and numbers"""
    if isinstance(node, yaml.ScalarNode):
        return False
    if isinstance(node, yaml.SequenceNode):
        return any([special(x) for x in node.value])
    return any([k.tag == STR and k.value[:1] in ("[", "<") or special(v) for k, v in node.value])


# ---------------------------------------------------------------- C36

RULES = ["zero", "one", "two", "few", "many", "other"]


def i18n():
    h = I18nYamlHandler()
    h.set_plural_rules([1, 5])
    h.set_lang_code("en")
    return h


def is_plural(node):
    """a mapping of nothing but plural forms, with the ones of the language"""
    if not isinstance(node, yaml.MappingNode):
        return False
    found = []
    for k, v in node.value:
        if not isinstance(v, yaml.ScalarNode):
            return False
        if kind(v.tag) != STR and v.tag != "alias" and v.tag[:1] != "!":
            continue
        if k.tag != STR or k.value not in RULES:
            return False
        found.append(k.value)
    return "one" in found and "other" in found


def i18n_strings(node, path, text):
    """[key, context, value, nodes by rule or node] of every string"""
    out = []
    if isinstance(node, yaml.SequenceNode):
        pairs = [("[%d]" % n, v) for n, v in enumerate(node.value)]
    else:
        pairs = [(part(k, text), v) for k, v in node.value]
    for name, v in pairs:
        here = path + [name]
        if is_plural(v) and isinstance(node, yaml.MappingNode):
            forms = dict([(k.value, x) for k, x in v.value if k.value in ("one", "other")])
            if all([f.value != "" and f.tag != "alias" for f in forms.values()]):
                nodes = {1: forms["one"], 5: forms["other"]}
                out.append([".".join(here), "", {1: nodes[1].value, 5: nodes[5].value}, nodes, v])
        elif isinstance(v, yaml.ScalarNode):
            found = []
            visit(v, here, text, found)
            out += [[f[0], f[1], f[2], f[3], None] for f in found]
        else:
            out += i18n_strings(v, here, text)
    return out


def i18n_values(strings):
    return [[s.key, s.context, dict(s.string) if s.pluralized else s.string] for s in strings]


def i18n_doc(ctx, docs, holes, change, new=(0, 1), rules=((1, 5), (0, 1, 3, 5)), dos=False):
    """plural forms and texts of internationalization files"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    if dos and ctx.flag("dos"):
        text = text.replace("\n", "\r\n")
    try:
        root = compose(text)
    except yaml.YAMLError:
        root = None
    ctx.assume(plain_keys(root))
    handler = i18n()
    try:
        template, strings = handler.parse(text)
    except ParseError:
        ctx.reach("rejected")
        ctx.check(not change, "these files are accepted")
        return
    ctx.observe("strings", i18n_values(strings))
    if root is None or isinstance(root, yaml.ScalarNode):
        ctx.check_eq(len(strings), 0, "there is nothing to translate")
        return
    ctx.check(isinstance(root, yaml.MappingNode) and len(
        [v for k, v in root.value if kept(k, v)]) <= 1, "one root")
    want = None
    try:
        top = [v for k, v in root.value if kept(k, v)]
        want = i18n_strings(top[0], [], text) if top and not isinstance(
            top[0], yaml.ScalarNode) else []
        ctx.check_eq(i18n_values(strings), [w[:3] for w in want], "every text and plural once")
    except Unclear:
        pass
    given = list(strings)
    if change:
        at = ctx.choice("which", len(strings))
        fresh = ctx.string("new", *new)
        s = strings[at]
        if s.pluralized:
            # a new text for one of the forms, perhaps more forms than the source has
            forms = ctx.pick("rules", rules)
            one = ctx.pick("form", forms)
            value = dict([(r, fresh if r == one else "F%d" % r) for r in forms])
            ctx.assume(ctx.no(ctx.eq(fresh, "")))
            given[at] = clone(s, value=value)
        else:
            given[at] = clone(s, value=fresh)
        if want[at][4] is None:
            want[at][3].value = fresh
    out = handler.compile(template, given)
    ctx.observe("out", out)
    if want is None:
        return
    for n, w in enumerate(want):
        if w[4] is not None:
            value = given[n].string
            w[4].value = [(scalar(RULES[r]), scalar(value[r])) for r in value]
    ctx.check_eq(tree(compose(out)), tree(root), "the same data but for the change")


def scalar(text):
    node = yaml.ScalarNode(STR, text)
    node.anchor = None
    return node


def kept(k, v):
    """whether the loader keeps the value"""
    return isinstance(k, yaml.ScalarNode) and k.tag != "tag:yaml.org,2002:binary" and (
        not isinstance(v, yaml.ScalarNode) or v.tag == "alias" or kind(v.tag) == STR or (
            v.tag[:1] == "!"))


# ---------------------------------------------------------------- C40

def comment_of(lines, first, node):
    """the comment lines above the line of a text; a text on a line of its own belongs to the line
    above.  first: the first line that is not the one of an earlier text"""
    n = node.start_mark.line
    if n < first:
        return ""
    if lines[n][:node.start_mark.column].strip() == "":
        # the line of its key
        k = n - 1
        while k >= first and lines[k].strip() == "":
            k -= 1
        if k >= first and lines[k].strip()[:1] != "#":
            n = k
    found = []
    for k in range(n - 1, first - 1, -1):
        line = lines[k].strip()
        if line == "":
            continue
        if line[:1] != "#":
            break
        found.append(line[1:].strip())
    return " ".join(found[::-1])


def comments(ctx, docs, holes):
    """every text has the comment lines directly above it as its comment"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    try:
        root, want = reference(text)
    except yaml.YAMLError:
        root = want = None
    try:
        template, strings = YamlHandler().parse(text)
    except ParseError:
        ctx.reach("rejected")
        return
    got = [(s.key, s.developer_comment) for s in strings]
    ctx.observe("comments", got)
    ctx.assume(want is not None)
    lines = text.split("\n")
    expected = []
    first = 0
    for w in want:
        expected.append((w[0], comment_of(lines, first, w[3])))
        end = w[3].end_mark
        first = end.line if end.column == 0 else end.line + 1
    ctx.check_eq(got, expected, "the comments above it")
    if ctx.flag("dos"):
        dos = YamlHandler().parse(text.replace("\n", "\r\n"))[1]
        ctx.check_eq([(s.key, s.developer_comment) for s in dos], got, "the same with DOS line endings")


def plural_comments(ctx, docs, holes):
    """docs: (file, key and comment of its texts)"""
    doc, want = ctx.pick("doc", docs)
    text, cache = fill(ctx, doc, holes)
    try:
        template, strings = i18n().parse(text)
    except ParseError:
        # some control characters
        ctx.reach("rejected")
        ctx.check(any([c < " " or c > "~" for c in cache.get("x", "") + cache.get("y", "")]), "accepted")
        return
    got = [(s.key, s.developer_comment) for s in strings]
    ctx.observe("comments", got)
    ctx.check_eq(got, [(k, fill(ctx, c, holes, cache)[0].strip()) for k, c in want], "the comments above it")
