"""Malformed documents: a parse error or nothing (C34)."""
from openformats.formats.github_markdown import GithubMarkdownHandler
from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2
from openformats.formats.json import (ArbHandler, ChromeI18nHandler, ChromeI18nHandlerV3,
                                      JsonHandler, StructuredJsonHandler)
from openformats.formats.plaintext import PlaintextHandler
from openformats.formats.po import PoHandler
from openformats.formats.yaml.yaml import YamlHandler
from openformats.formats.yaml.yaml_i18n import I18nYamlHandler

from harness.lib import *

HANDLERS = dict(json=JsonHandler, structured=StructuredJsonHandler, chrome=ChromeI18nHandler,
                chrome3=ChromeI18nHandlerV3, arb=ArbHandler, text=PlaintextHandler, po=PoHandler,
                md=GithubMarkdownHandler, md2=GithubMarkdownHandlerV2, yaml=YamlHandler,
                i18n=I18nYamlHandler)


def make(kind):
    handler = HANDLERS[kind]()
    if kind == "i18n":
        handler.set_plural_rules([1, 5])
    return handler


def any_text(ctx, kinds, docs, holes):
    """parse() returns or raises a parse error; what it accepts can be compiled"""
    kind = ctx.pick("kind", kinds)
    text, _ = fill(ctx, ctx.pick("doc", docs), holes)
    if ctx.flag("dos"):
        text = text.replace("\n", "\r\n")
    kw = {}
    if kind == "po":
        kw["is_source"] = ctx.flag("source")
    handler = make(kind)
    try:
        template, strings = handler.parse(text, **kw)
    except ParseError:
        ctx.reach("rejected")
        return
    ctx.reach("accepted")
    strings = list(strings)
    ctx.observe("strings", show(strings))
    out = handler.compile(template, strings)
    ctx.observe("out", out)
    ctx.check(isinstance(out, str), "a text")
    # the same file without any of its strings
    out = make(kind).compile(template, [])
    ctx.observe("empty", out)
