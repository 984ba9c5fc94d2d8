"""The test bed: its API has the results of the handlers."""
import json
import os
import sys

os.environ.setdefault("DJANGO_SETTINGS_MODULE", "testbed.settings")

import openformats  # noqa

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(openformats.__file__)))
# the test bed looks for the handlers in the current folder
os.chdir(ROOT)
if ROOT not in sys.path:
    sys.path.append(ROOT)

import django  # noqa

django.setup()

from harness.indesign_h import InDesignHandler  # noqa  its container's stand-in
from harness.lib import *  # noqa
from harness.slots_h import DOCS, HANDLERS  # noqa
from testbed.main.views import ApiView  # noqa

from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2  # noqa
from openformats.formats.plaintext import PlaintextHandler  # noqa

KINDS = dict(HANDLERS, markdown=GithubMarkdownHandlerV2)


class Request(object):
    def __init__(self, data):
        self.body = json.dumps(data)


def ask(data):
    return json.loads(ApiView().post(Request(data)).content)


def through(ctx, docs, holes, new=None):
    """parse and compile through the API and without it"""
    kind, doc = ctx.pick("doc", docs)
    text = DOCS[kind][min(doc, len(DOCS[kind]) - 1)] if isinstance(doc, int) else fill(ctx, doc, holes)[0]
    handler = KINDS[kind]
    answer = ask(dict(action="parse", handler=handler.name, source=text))
    try:
        template, strings = handler().parse(text)
        strings = list(strings)
    except Exception:
        ctx.reach("rejected")
        ctx.check_eq([answer["stringset"], answer["template"], answer["parse_error"] != ""], [[], "", True], "the error")
        return
    direct = template
    if kind == "po":
        template = handler().pofile_to_str(template)
    ctx.check_eq([answer["template"], answer["parse_error"], answer["compiled"]], [template, "", ""], "the template")
    ctx.check_eq([(s["key"], s["context"], s["pluralized"], s["strings"], s["order"], s["developer_comment"],
                   s["template_replacement"], s["character_limit"], s["tags"]) for s in answer["stringset"]],
                 [(s.key, s.context, s.pluralized, dict([(str(n), x) for n, x in s._strings.items()]), s.order,
                   s.developer_comment, s.template_replacement, s.character_limit, s.tags) for s in strings],
                 "the strings")
    given = answer["stringset"]
    if new is not None and strings:
        at = ctx.choice("which", len(strings))
        fresh = ctx.string("new", *new)
        value = fresh if not strings[at].pluralized else {5: fresh, 1: "one"}
        strings[at] = clone(strings[at], value=value)
        given[at]["strings"] = {"5": fresh, "1": "one"} if strings[at].pluralized else {"5": fresh}
    try:
        wanted = handler().compile(template, strings)
        error = False
    except Exception:
        wanted = ""
        error = True
    answer = ask(dict(action="compile", handler=handler.name, template=answer["template"], stringset=given))
    ctx.check_eq([answer["compiled"], answer["compile_error"] != ""], [wanted, error], "the compiled document")
