"""GitHub markdown files."""
import unicodedata

from openformats.formats.github_markdown import GithubMarkdownHandler
from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2
from openformats.formats.markdown_jsx import MarkdownJsxHandler

from harness import yaml_h
from harness.lib import *

V1 = GithubMarkdownHandler
V2 = GithubMarkdownHandlerV2
HANDLERS = {1: GithubMarkdownHandler, 2: GithubMarkdownHandlerV2, 3: MarkdownJsxHandler}


def normal(text, v2):
    """what the handlers say they do to a document: tabs and lines of spaces, one kind of line
    ending and, for the second version, compatibility characters"""
    dos = text.find("\n") > 0 and text[text.find("\n") - 1] == "\r"
    if dos:
        text = text.replace("\r\n", "\n")
    lines = text.expandtabs(4).split("\n")
    text = "\n".join(["" if x != "" and x.strip(" ") == "" else x for x in lines])
    if v2:
        text = unicodedata.normalize("NFKC", text)
    text = text.replace("\r\n", "\n")
    return text.replace("\n", "\r\n") if dos else text


CALLOUT = re.compile(r"> {0,4}\[!(NOTE|TIP|WARNING|IMPORTANT|CAUTION)\]")


def dense(text):
    return "".join(text.split())


def trip(ctx, docs, holes, versions=(1, 2)):
    """a document without a header comes back as it was"""
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    version = ctx.pick("version", versions)
    v2 = version > 1
    handler = HANDLERS[version]()
    template, strings = handler.parse(text)
    ctx.observe("strings", show(strings))
    want = normal(text, v2)
    same = lambda x: x
    if v2 and CALLOUT.search(want):
        # the whitespace of these blocks is not kept: existing tests ask for that
        same = dense
    ctx.check_eq(same(put_back(ctx, template.replace("\r\n", "\n"), strings)),
                 same(want.replace("\r\n", "\n")), "placeholders for texts")
    ctx.check_eq([s.key for s in strings], [str(n) for n in range(len(strings))], "numbered")
    out = handler.compile(template, strings)
    if "\n" not in template:
        # nothing says which line endings the document has
        want = want.replace("\r\n", "\n")
    ctx.check_eq(same(out), same(want), "the same document")


def texts(ctx, docs, holes, new=(0, 2), versions=(1, 2)):
    """every text of a document is reported in order and can be translated; a document is given as
    syntax, text, syntax, text, ..., syntax; a text may differ from what the document has"""
    got = {}
    doc = ctx.pick("doc", docs)
    text = "".join([fill(ctx, p if isinstance(p, str) else p[0], holes, got)[0] for p in doc])
    pieces = [fill(ctx, p if isinstance(p, str) else p[1], holes, got)[0] for p in doc]
    version = ctx.pick("version", versions)
    v2 = version > 1
    handler = HANDLERS[version]()
    dos = ctx.flag("dos")
    template, strings = handler.parse(text.replace("\n", "\r\n") if dos else text)
    ctx.observe("strings", show(strings))
    ctx.check_eq([s.string for s in strings], pieces[1::2], "every text once, in order")
    ctx.check_eq([s.key for s in strings], [str(n) for n in range(len(strings))], "numbered")
    at = ctx.choice("which", len(strings))
    fresh = ctx.string("new", *new)
    given = [clone(s, value=fresh if n == at else s.string) for n, s in enumerate(strings)]
    out = handler.compile(template, given)
    ctx.observe("out", out)
    pieces[2 * at + 1] = fresh
    whole = "".join(pieces)
    if dos:
        whole = whole.replace("\n", "\r\n")
    ctx.check_eq(out, whole, "only that text changes")


# ---------------------------------------------------------------- C31

HEAD = re.compile(r"---\n([\s\S]*?)\n---\n([\s\S]*)")


def values(node):
    """the texts of a header by path"""
    if isinstance(node, yaml_h.yaml.MappingNode):
        return [[values(k), values(v)] for k, v in node.value]
    if isinstance(node, yaml_h.yaml.SequenceNode):
        return [["-", values(v)] for v in node.value]
    return [kind(node), node.value]


def slots(node):
    """the nodes of the texts"""
    if isinstance(node, yaml_h.yaml.MappingNode):
        return sum([slots(v) for k, v in node.value], [])
    if isinstance(node, yaml_h.yaml.SequenceNode):
        return sum([slots(v) for v in node.value], [])
    return [node] if kind(node) == yaml_h.STR and node.value else []


def kind(node):
    """the tag of a node; "=" and "<<" are texts with tags that nothing reads"""
    return yaml_h.STR if node.value in ("=", "<<") else node.tag


TAGS = ["tag:yaml.org,2002:" + x for x in
        ("str", "int", "float", "bool", "null", "timestamp", "merge", "value")]


def standard(node):
    """whether a header has no tags of its own and no block scalars"""
    if isinstance(node, yaml_h.yaml.MappingNode):
        return all(standard(k) and standard(v) for k, v in node.value)
    if isinstance(node, yaml_h.yaml.SequenceNode):
        return all(standard(v) for v in node.value)
    return node.tag in TAGS and node.style not in ("|", ">")


def quoted(text):
    """the value of a text that is in quotes already, else None"""
    if text[:1] not in ("'", '"') or text[-1:] != text[:1] or len(text) < 2 or "\n" in text:
        return None
    try:
        node = yaml_h.compose(text)
    except yaml_h.yaml.YAMLError:
        return None
    return node.value if isinstance(node, yaml_h.yaml.ScalarNode) and node.tag == yaml_h.STR else None


PRINTABLE = [(9, 10), (13, 13), (0x20, 0x7e), (0x85, 0x85), (0xa0, 0xd7ff), (0xe000, 0xfffd),
             (0x10000, 0x10ffff)]


def decoded(text):
    """escaped characters that YAML cannot carry are read as the characters"""
    def char(m):
        n = int(m.group(1), 16)
        if any([a <= n <= b for a, b in PRINTABLE]) or 0xd800 <= n <= 0xdfff or m.group(0) == "\\x00":
            return m.group(0)
        return chr(n)
    text = re.sub(r"\\u([0-9a-fA-F]{4})", char, text)
    return re.sub(r"\\x([0-9a-fA-F]{2})", char, text)


def header(ctx, docs, holes, new=None, body="# x\n"):
    """the header keeps its data when compiled, whatever the translation of one value"""
    head, _ = fill(ctx, ctx.pick("doc", docs), holes)
    dos = ctx.flag("dos")
    text = "---\n" + head + "\n---\n" + body
    try:
        root = yaml_h.compose(unicodedata.normalize("NFKC", head) + "\n")
    except yaml_h.yaml.YAMLError:
        root = None
    ctx.assume(yaml_h.plain_keys(root) and root is not None and standard(root))
    # three dashes end a header, and a header that ends in code is no header
    ctx.assume(HEAD.match(text).group(1) == head and head.rstrip()[-1:] != "`")
    try:
        template, strings = V2().parse(text.replace("\n", "\r\n") if dos else text)
    except ParseError:
        ctx.reach("rejected")
        ctx.check(new is None, "accepted")
        return
    ctx.observe("strings", show(strings))
    nodes = slots(root)
    for n in nodes:
        n.value = decoded(n.value)
    ctx.check_eq([s.string for s in strings][:len(nodes)], [n.value for n in nodes], "every value")
    given = list(strings)
    loose = None  # the place of a text whose surrounding whitespace may be lost
    if new is not None:
        at = ctx.choice("which", len(nodes))
        fresh = ctx.string("new", *new)
        ctx.assume(fresh.strip() != "")
        given = [clone(s, value=fresh if n == at else s.string) for n, s in enumerate(strings)]
        if strings[at].flags in ("'", '"'):
            nodes[at].value = fresh
        else:
            loose = at
            bare = fresh.strip()
            inside = quoted(bare)
            nodes[at].value = bare if inside is None else inside
    out = V2().compile(template, given)
    ctx.observe("out", out)
    if dos:
        out = out.replace("\r\n", "\n")
    ctx.check(out[:4] == "---\n" and out[-5 - len(body):] == "\n---\n" + body, "a header and a body")
    result = yaml_h.compose(out[4:-4 - len(body)])
    if loose is not None and loose < len(slots(result)):
        found = slots(result)[loose]
        found.value = found.value.strip()
    ctx.check_eq(values(result), values(root), "the same data but for the translation")
