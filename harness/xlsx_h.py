"""Workbooks: XLSX."""
from bs4 import BeautifulSoup

from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler

from harness.lib import *
from harness.office_h import MARK, REL, OFFICE, entities
from symex.zips import unzipped, zipped

TYPE = ('<Override PartName="%s" ContentType="application/vnd.openxmlformats-officedocument.'
        'spreadsheetml.%s+xml"/>')
LETTERS = "ABCDEFG"


def runs_of(texts):
    """<t> of a cell; several texts are runs, the others of which are bold"""
    if len(texts) == 1:
        return "<t>%s</t>" % entities(texts[0])
    return "".join("<r><rPr><%s/></rPr><t>%s</t></r>" % ("bi"[n % 2], entities(x)) for n, x in enumerate(texts))


NUMBERS = (1, 2, 3)


def outside(link):
    """links inside of a workbook are no part of a text"""
    return None if link is not None and link[:1] in "#%" else link


def attribute(text):
    return entities(text).replace('"', "&quot;")


def workbook(sheets, numbers=NUMBERS):
    """sheets: (name, cells); a cell is (kind, texts, link); the kinds are s (shared), i (inline),
    f (a formula for a link), g (such a formula in another one), h (one that is no link), n (a number), e (no value); links
    to places of the workbook start with # or, as parts of the file, with %; the numbers of the
    sheets are those of their parts"""
    shared = []
    heads = [TYPE % ("/xl/workbook.xml", "sheet.main"), TYPE % ("/xl/sharedStrings.xml", "sharedStrings")]
    names = []
    parts = []
    for (name, cells), i in zip(sheets, numbers):
        names.append('<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (entities(name).replace('"', "&quot;"), i, i))
        heads.insert(0, TYPE % ("/xl/worksheets/sheet%d.xml" % i, "worksheet"))
        out = []
        targets = []
        refs = []
        for n, (kind, texts, link) in enumerate(cells):
            ref = LETTERS[n] + "1"
            if kind == "s":
                text = runs_of(texts)
                if text not in shared:
                    shared.append(text)
                out.append('<c r="%s" s="%d" t="s"><v>%d</v></c>' % (ref, n, shared.index(text)))
            elif kind == "i":
                out.append('<c r="%s" s="%d" t="inlineStr"><is>%s</is></c>' % (ref, n, runs_of(texts)))
            elif kind in "fg":
                formula = 'HYPERLINK("%s","%s")' % (link, texts[0].replace('"', '""'))
                if kind == "g":
                    formula = 'IF(B1,%s,"")' % formula
                out.append('<c r="%s" s="%d" t="str"><f>%s</f><v>%s</v></c>' % (ref, n, entities(formula), "old"))
            elif kind == "h":
                out.append('<c r="%s" s="%d" t="str"><f>%s</f><v>%s</v></c>' % (ref, n, entities(texts[0]), "old"))
            elif kind == "e":
                out.append('<c r="%s" s="%d" t="s"/>' % (ref, n))
            else:
                out.append('<c r="%s" s="%d"><v>%s</v></c>' % (ref, n, texts[0]))
            if kind in "si" and link is not None and link.startswith("#"):
                refs.append('<hyperlink ref="%s" location="%s"/>' % (ref, attribute(link[1:])))
            elif kind in "si" and link is not None and link.startswith("%"):
                targets.append(REL % ("rId%d" % (len(targets) + 1), OFFICE + "hyperlink", attribute(link[1:]), ""))
                refs.append('<hyperlink ref="%s" r:id="rId%d"/>' % (ref, len(targets)))
            elif link is not None and kind in "si":
                targets.append(REL % ("rId%d" % (len(targets) + 1), OFFICE + "hyperlink",
                                      attribute(link), ' TargetMode="External"'))
                refs.append('<hyperlink ref="%s" r:id="rId%d"/>' % (ref, len(targets)))
        parts.append(("xl/worksheets/sheet%d.xml" % i,
                      '<worksheet xmlns="urn:m" xmlns:r="urn:r"><sheetViews><sheetView workbookViewId="0"/></sheetViews>'
                      '<sheetData><row r="1">%s</row></sheetData>%s</worksheet>' %
                      ("".join(out), "<hyperlinks>%s</hyperlinks>" % "".join(refs) if refs else "")))
        if targets:
            parts.append(("xl/worksheets/_rels/sheet%d.xml.rels" % i,
                          '<Relationships xmlns="urn:rels">%s</Relationships>' % "".join(targets)))
    return [("[Content_Types].xml", '<Types xmlns="urn:types">%s</Types>' % "".join(heads)),
            ("xl/workbook.xml", '<workbook xmlns="urn:m" xmlns:r="urn:r"><sheets>%s</sheets></workbook>' % "".join(names)),
            ("xl/sharedStrings.xml", '<sst xmlns="urn:m">%s</sst>' % "".join("<si>%s</si>" % x for x in shared)),
            ("xl/styles.xml", "<styleSheet/>")] + parts


def view(parts, rtl, numbers=NUMBERS):
    """what a reader sees: names of the sheets, cells with their texts, formats, formulas, links;
    and the attributes that nobody knows"""
    parts = dict(parts)
    strange = []
    si = BeautifulSoup(parts["xl/sharedStrings.xml"], "xml").find_all("si")
    out = []
    for n, sheet in enumerate(BeautifulSoup(parts["xl/workbook.xml"], "xml").find_all("sheet")):
        if "txid" in sheet.attrs:
            strange.append("workbook")
        name = "xl/worksheets/sheet%d.xml" % numbers[n]
        soup = BeautifulSoup(parts[name], "xml")
        views = [x.attrs.get("rightToLeft") for x in soup.find_all("sheetView")]
        links = {}
        if "xl/worksheets/_rels/sheet%d.xml.rels" % numbers[n] in parts:
            targets = BeautifulSoup(parts["xl/worksheets/_rels/sheet%d.xml.rels" % numbers[n]], "xml")
            for x in targets.find_all(attrs={"Id": True}):
                links[x["Id"]] = x["Target"]
        refs = [(x["ref"], links[x["r:id"]] if x.has_attr("r:id") else "#" + x["location"]) for x in soup.find_all("hyperlink")]
        cells = []
        for c in soup.find_all("c"):
            kind = c.attrs.get("t")
            formula = [x.text for x in c.find_all("f")]
            value = [x.text for x in c.find_all("v")]
            texts = None
            if kind == "s" and value:
                texts = si[int(value[0])]
            elif kind == "inlineStr":
                texts = c.find("is")
            if texts is not None:
                if "txid" in texts.attrs or "txid" in c.attrs:
                    strange.append(c["r"])
                texts = [(t.parent.name, [x.name for x in t.parent.find_all(["b", "i"])], t.text)
                         for t in texts.find_all("t")]
                # which is the same for a reader
                texts = [("" if a != "r" else a, b, t) for a, b, t in texts]
                value = None
                kind = "text"
            elif "txid" in c.attrs:
                strange.append(c["r"])
            if formula:
                value = None
            cells.append((c["r"], c["s"], kind, texts, formula, value))
        out.append((sheet["name"], cells, refs, views))
    return out, strange


def whole(cell):
    """the string of a cell"""
    kind, texts, link = cell
    if kind in "enh" or "".join(texts).strip() == "":
        return None
    if kind in "fg":
        # its link may be a place of the workbook
        return wrap(texts[0], link)
    link = outside(link)
    text = texts[0] if len(texts) == 1 else "".join("<tx>%s</tx>" % x for x in texts)
    return text if link is None else wrap(text, link)


def seen(text):
    """BeautifulSoup has whitespace alone as one space"""
    return " " if text != "" and text.strip() == "" else text


def wrap(text, link):
    quote = '"' if "'" in link else "'"
    return "<tx href=%s%s%s>%s</tx>" % (quote, link, quote, text)


def cells(ctx, layouts, holes, given="all", new=None, numbers=NUMBERS):
    """every text is extracted once and compiled to the same workbook; a new text gets where it belongs"""
    layout = ctx.pick("layout", layouts)
    cache = {}
    sheets = []
    for name, row in layout:
        made = []
        for kind, texts, link in row:
            made.append((kind, [seen(fill(ctx, x, holes, cache)[0]) for x in texts],
                         None if link is None else fill(ctx, link, holes, cache)[0]))
        sheets.append((fill(ctx, name, holes, cache)[0], made))
    rtl = ctx.pick("rtl", [False, True])
    source = workbook(sheets, numbers)
    template, strings = XlsxUnstructuredHandler().parse(zipped(source))
    ctx.observe("strings", show(strings))
    # the texts and their sheets
    want = []
    for name, row in sheets:
        entry(want, name, name)
    for name, row in sheets:
        for cell in row:
            text = whole(cell)
            if text is not None:
                entry(want, text, name)
    ctx.check_eq([(s.string, s.developer_comment) for s in strings],
                 [(text, ", ".join(names)) for text, names in want], "every text once")
    ctx.check_eq([s.order for s in strings], list(range(len(strings))), "the orders")
    out = list(strings)
    if given == "none":
        out = []
    if new is not None:
        at = ctx.choice("which", len(strings))
        old = strings[at].string
        fresh = ctx.string("new", *new)
        ctx.assume(fresh.strip() != "")
        marks = list(MARKS.finditer(old))
        pieces = []
        place = 0
        n = -1
        slot = -1
        count = len([x for x in MARKS.split(old) if x != ""])
        part = ctx.choice("part", 2)
        ctx.assume(part < count)
        text = ""
        for m in marks + [None]:
            piece = old[place:m.start() if m else len(old)]
            if piece != "":
                n += 1
                if n == part:
                    piece = fresh
            text += piece + (m.group() if m else "")
            place = m.end() if m else 0
        out[at] = clone(strings[at], value=text)
        out[at].string_hash  # noqa
        changed = []
        for name, row in sheets:
            made = []
            for cell in row:
                if whole(cell) == old:
                    texts = list(cell[1])
                    k = [k for k, x in enumerate(texts) if x != ""][part]
                    # a blank text is not translated
                    ctx.assume(texts[k].strip() != "")
                    texts[k] = fresh
                    cell = (cell[0], texts, cell[2])
                made.append(cell)
            changed.append((fresh if name == old else name, made))
        sheets = changed
    result = unzipped(XlsxUnstructuredHandler().compile(template, out, is_rtl=rtl))
    ctx.check_eq([n for n, x in result], [n for n, x in source], "the same parts")
    got, strange = view(result, rtl, numbers)
    ctx.observe("got", got)
    wanted, _ = view(workbook(sheets, numbers), rtl, numbers)
    wanted = [(a, b, c, ["1" if rtl else "0"]) for a, b, c, d in wanted]
    ctx.check_eq(strange, [], "attributes of the handler are removed")
    ctx.check_eq(got, wanted, "the workbook")


def anyhow(ctx, rows, translations, holes):
    """no text of a translation gets lost, whatever its tags are; its link is the cell's"""
    row = ctx.pick("row", rows)
    at = ctx.choice("cell", len(row))
    source = workbook([("S", row)])
    template, strings = XlsxUnstructuredHandler().parse(zipped(source))
    text, cache = fill(ctx, ctx.pick("translation", translations), holes)
    for x in cache.values():
        ctx.assume(x.strip() != "")
    plain = MARKS.sub("", text)
    old = whole(row[at])
    given = [clone(s, value=text) if s.string == old else s for s in strings]
    for s in given:
        s.string_hash  # noqa
    result = unzipped(XlsxUnstructuredHandler().compile(template, given))
    ctx.check_eq([n for n, x in result], [n for n, x in source], "the same parts")
    got, strange = view(result, False)
    ctx.observe("got", got)
    url = MARKS.search(text)
    url = None if url is None or "href" not in url.group() else url.group()[len("<tx href='"):-2]
    changed = []
    for cell in row:
        if whole(cell) == old:
            link = cell[2] if url is None or cell[2] is None else url
            cell = (cell[0], [plain] + [""] * (len(cell[1]) - 1), link)
        changed.append(cell)
    wanted, _ = view(workbook([("S", changed)]), False)
    ctx.check_eq(strange, [], "attributes of the handler are removed")
    for side in (got, wanted):
        # the runs do not matter
        for name, cells, refs, views in side:
            for k, (ref, style, kind, texts, formula, value) in enumerate(cells):
                if texts is not None:
                    cells[k] = (ref, style, kind, "".join(t for a, b, t in texts), formula, value)
    ctx.check_eq([x[1:3] for x in got], [x[1:3] for x in wanted], "the texts of the cells")


def entry(want, text, name):
    for x, names in want:
        if x == text:
            if name not in names:
                names.append(name)
            return
    want.append((text, [name]))


import re  # noqa
MARKS = re.compile(r"<tx(?: href=(?:'[^']*'|\"[^\"]*\"))?>|</tx>")
