"""Office documents: DOCX, PPTX."""
import re

from bs4 import BeautifulSoup

from openformats.formats.docx import DocxHandler
from openformats.formats.pptx import PptxHandler, PptxHandlerV2

from harness.lib import *
from symex.zips import unzipped, zipped

# docx+: neighbouring runs of a link share the hyperlink element
HANDLERS = {"docx": DocxHandler, "docx+": DocxHandler, "pptx": PptxHandler, "pptx2": PptxHandlerV2}
DOCUMENT = {"docx": "word/document.xml", "docx+": "word/document.xml", "pptx": "ppt/slides/slide1.xml",
            "pptx2": "ppt/slides/slide1.xml"}

REL = '<Relationship Id="%s" Type="%s" Target="%s"%s/>'
OFFICE = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
WORD = ('<?xml version="1.0" encoding="UTF-8"?>\n<w:document xmlns:w="urn:w" xmlns:r="urn:r"><w:body>%s'
        '<w:sectPr/></w:body></w:document>')
SLIDE = ('<?xml version="1.0" encoding="UTF-8"?>\n<p:sld xmlns:a="urn:a" xmlns:p="urn:p" xmlns:r="urn:r">'
         '<p:sp><p:txBody>%s</p:txBody></p:sp></p:sld>')
FORMATS = ["b", "i", "u", "strike", "caps"]


def entities(text):
    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def rel_id(n):
    """the others come between the links"""
    return "rId%d" % (n + 2 if n < 2 else n + 20)


def rels(links):
    out = [REL % ("rId1", OFFICE + "styles", "styles.xml", ""), REL % ("rId12", OFFICE + "slide", "slide2.xml", "")]
    out += [REL % ("rId%d" % n, OFFICE + "theme", "theme%d.xml" % n, "") for n in (4, 8)]
    for n, url in enumerate(links):
        out.append(REL % (rel_id(n), OFFICE + "hyperlink",
                          entities(url).replace('"', "&quot;"), ' TargetMode="External"'))
    out.append(REL % ("docProps", OFFICE + "settings", "settings.xml", ""))
    return '<?xml version="1.0" encoding="UTF-8"?>\n<Relationships xmlns="urn:rels">%s</Relationships>' % "".join(out)


# a link to a place of the document, which is no part of a text
INSIDE = "inside"


def package(kind, paragraphs, links, plain=False):
    """paragraphs: lists of runs (text, number of a link or None); plain: without formats"""
    body = []
    for runs in paragraphs:
        out = []
        last = None
        for n, (text, link) in enumerate(runs):
            text = entities(text)
            if kind in ("docx", "docx+"):
                properties = "" if plain else "<w:rPr><w:%s/></w:rPr>" % FORMATS[n]
                run = '<w:r>%s<w:t xml:space="preserve">%s</w:t></w:r>' % (properties, text)
                if link is not None and kind == "docx+" and link == last:
                    run = out.pop()[:-len("</w:hyperlink>")] + run + "</w:hyperlink>"
                elif link == INSIDE:
                    run = '<w:hyperlink w:anchor="a">%s</w:hyperlink>' % run
                elif link is not None:
                    run = '<w:hyperlink r:id="%s">%s</w:hyperlink>' % (rel_id(link), run)
            else:
                click = "" if link is None else '<a:hlinkClick r:id="%s"/>' % ("rId12" if link == INSIDE else rel_id(link))
                properties = '<a:rPr %s="1">%s</a:rPr>' % (FORMATS[n], click)
                if plain:
                    # no properties but the link
                    properties = "<a:rPr>%s</a:rPr>" % click if click else ""
                run = '<a:r>%s<a:t>%s</a:t></a:r>' % (properties, text)
            out.append(run)
            last = link
        body.append(("<w:p>%s</w:p>" if kind in ("docx", "docx+") else "<a:p>%s</a:p>") % "".join(out))
    if kind in ("docx", "docx+"):
        return [("_rels/.rels", '<Relationships xmlns="urn:rels">%s</Relationships>' %
                 (REL % ("rId1", OFFICE + "officeDocument", "word/document.xml", ""))),
                ("word/document.xml", WORD % "".join(body)),
                ("word/_rels/document.xml.rels", rels(links)),
                ("word/styles.xml", "<styles/>")]
    return [("[Content_Types].xml", '<Types xmlns="urn:types"><Override PartName="/ppt/slides/slide1.xml" ContentType='
             '"application/vnd.openxmlformats-officedocument.presentationml.slide+xml"/></Types>'),
            ("ppt/slides/slide1.xml", SLIDE % "".join(body)),
            ("ppt/slides/_rels/slide1.xml.rels", rels(links)),
            ("ppt/theme.xml", "<theme/>")]


def tree(tag):
    """a part without the marks of the handler"""
    out = []
    for x in tag.contents:
        if hasattr(x, "attrs"):
            attrs = [(k, v) for k, v in sorted(x.attrs.items()) if k != "txid"]
            if x.name == "rPr" and attrs == [] and x.contents == []:
                continue
            out.append((x.name if x.prefix is None else x.name, attrs, tree(x)))
        else:
            out.append(str(x))
    return out


def part(parts, name):
    """a part, where the links of runs are replaced by their targets"""
    parts = dict(parts)
    soup = BeautifulSoup(parts[name], "xml")
    folder, base = name.rsplit("/", 1)
    targets = BeautifulSoup(parts["%s/_rels/%s.rels" % (folder, base)], "xml")
    ids = {}
    for rel in targets.find_all(attrs={"Id": True}):
        # an id that is there twice is the one of no part
        ids[rel["Id"]] = "twice" if rel["Id"] in ids else rel["Target"]
        if rel.attrs.get("TargetMode") != "External":
            ids[rel["Id"]] = (rel["Id"], rel["Target"])
    for tag in soup.find_all(attrs={"r:id": True}):
        tag.attrs["r:id"] = ids[tag["r:id"]]
    return tree(soup), [x for x in ids.values() if isinstance(x, tuple)]


MARK = re.compile(r"<tx(?: href=\"[^\"]*\")?>|</tx>")


def runs(ctx, kinds, shapes, holes, new=None, urls=("u", "v")):
    """the runs of a paragraph are put back, and a translation that keeps the tags puts each text
    into its run"""
    kind = ctx.pick("kind", kinds)
    shape = ctx.pick("shape", shapes)
    links = [ctx.string("url%d" % n, *u) if isinstance(u, (list, tuple)) else u for n, u in enumerate(urls)]
    texts = []
    for n, (text, link) in enumerate(shape):
        texts.append(fill(ctx, text.replace("#", str(n)), holes)[0])
    made = [(t, link) for t, (x, link) in zip(texts, shape)]
    after = [("z", None)]
    name = DOCUMENT[kind]
    source = package(kind, [made, after], links)
    handler = HANDLERS[kind]()
    template, strings = handler.parse(zipped(source))
    ctx.observe("strings", show(strings))
    filled = [n for n, t in enumerate(texts) if t.strip() != ""]
    ctx.check_eq(len(strings), 2 if filled else 1, "a string per paragraph with text")
    if kind == "pptx2" and filled:
        # blank runs are texts of their own
        filled = [n for n, t in enumerate(texts) if t != ""]
    given = list(strings)
    if new is not None and filled:
        # the texts between the tags
        whole = strings[0].string
        pieces = [x for x in MARK.split(whole) if x != ""]
        ctx.check_eq(len(pieces), len(filled), "a text per run")
        at = ctx.choice("which", len(filled))
        fresh = ctx.string("new", *new)
        ctx.assume(fresh.strip() != "" and "<tx" not in fresh)
        text = ""
        place = 0
        n = -1
        for m in list(MARK.finditer(whole)) + [None]:
            piece = whole[place:m.start() if m else len(whole)]
            if piece != "":
                n += 1
                if n == at:
                    # the blank runs before a text are in front of it
                    lead = len(piece) - len(texts[filled[n]])
                    piece = piece[:lead] + fresh
            text += piece + (m.group() if m else "")
            place = m.end() if m else 0
        given[0] = clone(strings[0], value=text)
        given[0].string_hash  # noqa
        made[filled[at]] = (fresh, made[filled[at]][1])
    out = unzipped(HANDLERS[kind]().compile(template, given))
    ctx.check_eq([n for n, x in out], [n for n, x in source], "the same parts")
    result = part(out, name)
    ctx.observe("result", result)
    ctx.check_eq(result, part(package(kind, [made, after], links), name), "every text in its run")


def links(ctx, kinds, shapes, holes, change, url):
    """a link of the translation that is changed, removed or added is changed in the document,
    the other links and the texts are not"""
    kind = ctx.pick("kind", kinds)
    shape = ctx.pick("shape", shapes)
    plain = ctx.flag("plain")
    texts = []
    for n, (text, link) in enumerate(shape):
        texts.append(fill(ctx, text.replace("#", str(n)), holes)[0])
    made = [(t, link) for t, (x, link) in zip(texts, shape)]
    targets = ["u", "v"]
    handler = HANDLERS[kind]()
    template, strings = handler.parse(zipped(package(kind, [made, [("z", 1)]], targets, plain)))
    whole = strings[0].string
    ctx.observe("whole", whole)
    fresh = ctx.string("url", *url)
    text = ""
    marks = list(MARK.finditer(whole))
    at = ctx.choice("mark", len(marks))
    mark = marks[at].group()
    href = mark[:6] == "<tx hr"
    ctx.assume(mark[0:2] != "</" and href == (change != "add"))
    if change == "add":
        # not inside of another link
        level = 0
        for m in marks[:at]:
            level += -1 if m.group()[0:2] == "</" else 1
        ctx.assume(level == 0)
    new = "<tx>" if change == "remove" else '<tx href="%s">' % fresh
    first = whole[:marks[at].start()]
    # the runs before and inside the tag
    n = len([x for x in MARK.split(first) if x != ""])
    depth = 1
    k = at
    inside = 0
    while True:
        piece = whole[marks[k].end():marks[k + 1].start()]
        if piece != "":
            inside += 1
        k += 1
        depth += -1 if marks[k].group()[0:2] == "</" else 1
        if depth == 0:
            break
    given = [clone(strings[0], value=first + new + whole[marks[at].end():]), strings[1]]
    given[0].string_hash  # noqa
    out = unzipped(HANDLERS[kind]().compile(template, given))
    for i in range(n, n + inside):
        # in a DOCX document there is one link in another then
        ctx.assume(made[i][1] != INSIDE or kind in ("pptx", "pptx2"))
        made[i] = (made[i][0], None if change == "remove" else 2)
    name = DOCUMENT[kind]
    result = part(out, name)
    ctx.observe("result", result)
    want = part(package(kind, [made, [("z", 1)]], targets + [fresh], plain), name)
    ctx.check_eq(result, want, "the link of the translation")


def anyhow(ctx, kinds, shapes, translations, holes):
    """no text of a translation gets lost, whatever its tags are"""
    kind = ctx.pick("kind", kinds)
    shape = ctx.pick("shape", shapes)
    template, strings = HANDLERS[kind]().parse(zipped(package(kind, [shape, [("z", 1)]], ["u", "v"])))
    text, values = fill(ctx, ctx.pick("translation", translations), holes)
    for x in values.values():
        # BeautifulSoup has whitespace alone as one space
        ctx.assume(x.strip() != "")
    plain = MARK.sub("", text)
    given = [clone(strings[0], value=text), strings[1]]
    given[0].string_hash  # noqa
    out = dict(unzipped(HANDLERS[kind]().compile(template, given)))
    soup = BeautifulSoup(out[DOCUMENT[kind]], "xml")
    tag = "w" if kind in ("docx", "docx+") else "a"
    paragraphs = soup.find_all(tag + ":p")
    ctx.check_eq(len(paragraphs), 2, "the paragraphs")
    result = ["".join(t.text for t in p.find_all(tag + ":t")) for p in paragraphs]
    ctx.observe("result", result)
    ctx.check_eq(result, [plain, "z"], "the texts of the paragraphs")


def slide_parts(numbers, notes, texts, rtl=None):
    """two slides; notes: which slide has notes, or None; texts: of the slides, then of the notes"""
    types = ('<Override PartName="/ppt/%s.xml" ContentType="application/vnd.openxmlformats-officedocument.'
             'presentationml.%s+xml"/>')
    mark = {None: "", False: '<a:pPr algn="l"/>', True: '<a:pPr algn="r" rtl="1"/>'}[rtl]
    heads = []
    parts = []
    for n, number in enumerate(numbers):
        heads.append(types % ("slides/slide%d" % number, "slide"))
        targets = REL % ("rId1", OFFICE + "slideLayout", "../slideLayouts/slideLayout1.xml", "")
        if notes == n:
            targets += REL % ("rId2", OFFICE + "notesSlide", "../notesSlides/notesSlide7.xml", "")
        parts.append(("ppt/slides/slide%d.xml" % number,
                      SLIDE % ("<a:p>%s<a:r><a:t>%s</a:t></a:r></a:p>" % (mark, entities(texts[n])))))
        parts.append(("ppt/slides/_rels/slide%d.xml.rels" % number,
                      '<Relationships xmlns="urn:rels">%s</Relationships>' % targets))
    if notes is not None:
        heads.append(types % ("notesSlides/notesSlide7", "notesSlide"))
        parts.append(("ppt/notesSlides/notesSlide7.xml",
                      SLIDE % ("<a:p>%s<a:r><a:t>%s</a:t></a:r></a:p>" % (mark, entities(texts[2])))))
        parts.append(("ppt/notesSlides/_rels/notesSlide7.xml.rels", rels([])))
    return [("[Content_Types].xml", '<Types xmlns="urn:types">%s</Types>' % "".join(heads))] + parts


def slides(ctx, kinds, dom, new):
    """the slides come in their order, each with its notes, and get the translations of their texts"""
    kind = ctx.pick("kind", kinds)
    numbers = ctx.pick("numbers", [[1, 2], [2, 1], [10, 9]])
    notes = ctx.pick("notes", [None, 0, 1])
    rtl = ctx.pick("rtl", [False, True])
    texts = [ctx.string("x%d" % n, 1, 1, dom) for n in range(2 if notes is None else 3)]
    for x in texts:
        ctx.assume(x.strip() != "")
    source = slide_parts(numbers, notes, texts, False)
    template, strings = HANDLERS[kind]().parse(zipped(source))
    ctx.observe("strings", show(strings))
    order = sorted(range(2), key=lambda n: numbers[n])
    if notes is not None:
        order.insert(order.index(notes) + 1, 2)
    ctx.check_eq([s.string for s in strings], [texts[n] for n in order], "the texts in the order of the slides")
    ctx.check_eq([s.order for s in strings], list(range(len(order))), "the orders")
    ctx.check_eq(["notes" in (s.tags or []) for s in strings], [n == 2 for n in order], "the notes are tagged")
    fresh = ctx.string("new", *new)
    ctx.assume(fresh.strip() != "")
    at = ctx.choice("which", len(texts))
    given = []
    for s in strings:
        # texts that are the same share their translation
        given.append(clone(s, value=fresh) if s.string == texts[at] else s)
        given[-1].string_hash  # noqa
    changed = [fresh if x == texts[at] else x for x in texts]
    out = unzipped(HANDLERS[kind]().compile(template, given, is_rtl=rtl))
    want = slide_parts(numbers, notes, changed, rtl)
    ctx.check_eq([n for n, x in out], [n for n, x in want], "the same parts")
    for (name, x), (_, y) in zip(out, want):
        ctx.check_eq(tree(BeautifulSoup(x, "xml")), tree(BeautifulSoup(y, "xml")), "the part of the document")


def direction(ctx, shapes, holes):
    """a right-to-left translation marks the paragraphs, runs and tables of a DOCX document, nothing else"""
    shape = ctx.pick("shape", shapes)
    rtl = ctx.pick("rtl", [False, True])
    table = ctx.pick("table", ["", "<w:tblPr/>", '<w:tblPr><w:tblW w:w="1"/></w:tblPr>',
                               "<w:tblPr><w:bidiVisual/></w:tblPr>"])
    before = ctx.pick("before", ["", "<w:jc/>", '<w:jc/><w:bidi w:val="0"/>'])
    texts = [fill(ctx, x.replace("#", str(n)), holes)[0] for n, (x, link) in enumerate(shape)]
    ctx.assume("".join(texts).strip() != "")

    def made(marked):
        runs = []
        for n, x in enumerate(texts):
            old = "" if marked or n else '<w:rtl w:val="0"/>'
            runs.append('<w:r><w:rPr><w:%s/>%s</w:rPr><w:t>%s</w:t></w:r>' %
                        (FORMATS[n], '<w:rtl w:val="1"/>' if marked else old, entities(x)))
        ppr = "<w:jc/>" + '<w:bidi w:val="1"/>' if marked and before else before
        if marked and not before:
            ppr = '<w:bidi w:val="1"/>'
        tbl = table
        if marked and "bidiVisual" not in table:
            tbl = table.replace("<w:tblPr/>", "<w:tblPr><w:bidiVisual/></w:tblPr>") \
                .replace("</w:tblPr>", "<w:bidiVisual/></w:tblPr>") if "/></w:tblPr>" in table else \
                "<w:tblPr><w:bidiVisual/></w:tblPr>"
        body = '<w:p><w:pPr>%s</w:pPr>%s</w:p><w:tbl>%s<w:tr/></w:tbl>' % (ppr, "".join(runs), tbl)
        return [("_rels/.rels", '<Relationships xmlns="urn:rels">%s</Relationships>' %
                 (REL % ("rId1", OFFICE + "officeDocument", "word/document.xml", ""))),
                ("word/document.xml", WORD % body), ("word/_rels/document.xml.rels", rels([]))]
    template, strings = DocxHandler().parse(zipped(made(False)))
    out = unzipped(DocxHandler().compile(template, strings, is_rtl=rtl))
    ctx.check_eq([n for n, x in out], ["_rels/.rels", "word/document.xml", "word/_rels/document.xml.rels"], "parts")
    ctx.check_eq(tree(BeautifulSoup(out[1][1], "xml")), tree(BeautifulSoup(made(rtl)[1][1], "xml")), "the marks")
