CHECKS = {}


def check(pid, cases, **kw):
    CHECKS[pid] = dict(cases=cases, **kw)


def case(name, harness, bound="", **kw):
    return dict(name=name, harness=harness, bound=bound, **kw)


NOCR = ("not", "\r")

check("C01", [
    case("string values", "harness.json_h:roundtrip",
         "one string value of up to 3 arbitrary characters",
         params=dict(docs=['{"a":"<v>"}', '["<v>"]', '{"a":["<v>", "b"]}'],
                     holes=dict(v=(0, 3, NOCR)), dos=False)),
    case("free text", "harness.json_h:roundtrip",
         "up to 3 arbitrary characters at any of 8 places of a document",
         params=dict(docs=['{"a":<x>"b"}', '["a"<x>]', '<x>{}', '["a",<x>"b"]', '{"a":"b"<x>}',
                           '{<x>:"b"}', '[<x>]', '{"a":"b"}<x>'],
                     holes=dict(x=(0, 3, NOCR)))),
    case("keys and whitespace", "harness.json_h:roundtrip",
         "keys of up to 2 characters, whitespace runs of up to 1, both line endings",
         params=dict(docs=['{<w1>"<k>"<w2>:<w3>"x\\ny"<w4>,"b" :\n[ "c"<w5>]}'],
                     holes=dict(k=(0, 2, NOCR), w=(0, 1, " \t\n")))),
    case("shapes", "harness.json_h:roundtrip_shapes",
         "documents nested up to 2 deep with up to 2 entries each, four layouts",
         params=dict(depth=2, width=2, styles=["compact", "odd"])),
])
check("C02", [
    case("free text", "harness.json_h:tokenizer", "",
         params=dict(docs=['{"a":<x>}', '["a"<x>]', '<x>{}', '[1,<x>"b"]', '{"a":"b"<x>}',
                           '{<x>:"b"}', '[<x>]', '{"a":"b"}<x>', '<x>'],
                     holes=dict(x=(0, 4, None)))),
    case("shapes", "harness.json_h:tokenizer_shapes", "",
         params=dict(depth=2, width=2, styles=["compact", "odd"])),
    case("lookup", "harness.json_h:find_children", ""),
])
check("C03", [
    case("escape", "harness.json_h:escaping", "", params=dict(n=4)),
    case("unescape", "harness.json_h:unescaping", "", params=dict(
        docs=["<x>", "a\\<y>", "\\u<z>", "\\\\<y>", "\\ud8<h>\\u<z>", "\\ud83d<x>"],
        holes=dict(x=(0, 4), y=(0, 4), z=(3, 5), h=(2, 2)))),
])
check("C04", [
    case("shapes", "harness.json_h:extraction", "",
         params=dict(depth=2, width=2, styles=["compact", "lines"], keydom="a", keys=0,
                     valdom="a", vals=0)),
    case("key text", "harness.json_h:extraction", "",
         params=dict(depth=2, width=1, styles=["compact"], keydom=NOCR, keys=2,
                     valdom=NOCR, vals=1)),
    case("duplicates", "harness.json_h:duplicates", ""),
    case("key clash", "harness.json_h:key_clash", ""),
])
check("C05", [
    case("shapes", "harness.json_h:removal", "",
         params=dict(depth=2, width=2, styles=["compact", "lines", "odd"])),
    case("key text", "harness.json_h:removal", "",
         params=dict(depth=1, width=2, styles=["compact", "spaced"], keys=(0, 3, NOCR))),
])
check("C06", [
    case("shapes", "harness.json_h:sync", "",
         params=dict(depth=2, width=2, styles=["compact", "lines", "odd"], nnew=1, keydom="x",
                     blanks=())),
    case("new keys", "harness.json_h:sync", "",
         params=dict(depth=1, width=1, styles=["compact", "lines"], nnew=2, keydom=NOCR)),
])
check("C07", [
    case("well formed", "harness.icu_h:well_formed", "",
         params=dict(nforms=3, n=1, wsn=1, shapes=["<t>", "{<t>}", "<t>{x}a"])),
    case("one hole", "harness.icu_h:free", "",
         params=dict(docs=["<x>", "one {<x>} other {b}", "one {a}<x>other {b}", "on<x>e {a}",
                           "one {a {b}} other <x>", "<x>other {b}"],
                     holes=dict(x=(0, 2, ("not", "\t\r\n\\")))),
         thorough=dict(holes=dict(x=(0, 3, ("not", "\t\r\n\\"))))),
    case("ordinary", "harness.icu_h:other_values", "",
         params=dict(docs=["<x>", "{n<x>plural, other {a}}", "<x>{n, plural, other {a}}<y>",
                           "{n, plura<x>, other {a}}", "{<x>, plural, one {a}}"],
                     holes=dict(x=(0, 3, ("not", "\r")), y=(0, 1)))),
])
ORDERS = [["string"], ["string", "context", "developer_comment", "character_limit"],
          ["character_limit", "developer_comment", "string"], ["context", "other", "string"],
          ["string", "object", "context"], ["string", "object"], ["null_context", "string"],
          ["string", "null_limit", "other"]]
check("C08", [
    case("metadata", "harness.json2_h:structured", "",
         params=dict(n=1, dom=NOCR, orders=ORDERS, layouts=["flat", "nested"],
                     styles=["spaced", "lines"])),
    case("one field", "harness.json2_h:structured", "",
         params=dict(n=3, dom=NOCR, orders=[["string"], ["string", "context"],
                                            ["developer_comment", "string"]][1:],
                     layouts=["flat"], styles=["compact"])),
    case("update", "harness.json2_h:structured_update", "",
         params=dict(n=2, dom=None, orders=ORDERS, layouts=["flat", "after", "nested"],
                     styles=["compact", "spaced", "lines"])),
    case("odd values", "harness.json2_h:structured_values", "",
         params=dict(docs=['{"a": {"string": "x", "context": <x>}}',
                           '{"a": {"string": "x", "developer_comment": <x>}}',
                           '{"a": {"string": "x", "character_limit": <x>}}',
                           '{"a": {"string": <x>}}', '{"a": <x>}', '[<x>]', '<x>'],
                     holes=dict(x=(1, 4)))),
])
AO = [["locale", "k1", "@k1", "k2", "@k2", "num"], ["@k1", "k1", "@k3", "k3"],
      ["k1"], ["k3", "@k3"], ["k2", "@k3", "num", "k3", "locale"]]
check("C09", [
    case("metadata", "harness.json2_h:arb", "",
         params=dict(n=1, dom=NOCR, orders=AO, styles=["compact", "lines"])),
    case("locale", "harness.json2_h:arb_locale", "",
         params=dict(n=2, dom=NOCR, code="aZ_-1")),
    case("removal", "harness.json2_h:arb_removal", "",
         params=dict(styles=["compact", "lines"])),
])
CO = [["message"], ["message", "description"], ["description", "placeholders", "message"],
      ["description"], ["num", "message", "placeholders"], ["plural"],
      ["plural description", "message"], ["plural", "description"]]
check("C10", [
    case("v2", "harness.json2_h:chrome", "",
         params=dict(n=1, dom=NOCR, keydom=("not", "\r.\\"), orders=CO,
                     styles=["compact", "lines"], v3=False)),
    case("v3", "harness.json2_h:chrome", "",
         params=dict(n=1, dom=NOCR, keydom=NOCR, orders=CO, styles=["compact", "lines"],
                     v3=True)),
    case("removal", "harness.json2_h:chrome_removal", "",
         params=dict(styles=["compact", "spaced", "lines"],
                     extra=[None, "5", '"a, b"', '{"message": 4}', '["a", {"b": 1}]'])),
])
check("C18", [
    case("text", "harness.plaintext_h:roundtrip", "any text of up to 5 characters",
         params=dict(n=6, skel=["<x>"]), thorough=dict(n=8)),
    case("lines", "harness.plaintext_h:roundtrip", "three lines",
         params=dict(n=3, skel=["<y>a<x>\n b<y1>\n<x>", "ab\nab<x>\n<y>\na"])),
    case("any endings", "harness.plaintext_h:any_endings", "carriage returns anywhere",
         params=dict(n=4, skel=["<x>", "<e>a<e1>\n<e2>b<e3>", "\na\n<e>\r<e1>"]),
         thorough=dict(n=6)),
    case("replace", "harness.plaintext_h:replace", "two lines, one replaced",
         params=dict(n=2, skel=["<s><x>\n<x><s>", "<s>a<x>\nb<s>\n", "<x>\n\n<x>\n"])),
])

ST = ["<u>", "a<t>\n<u>b", "<u>\n<u>"]
check("C15", [
    case("round trip", "harness.srt_h:srt_roundtrip", "", params=dict(n=2, texts=ST)),
    case("subset", "harness.srt_h:srt_subset", "", params=dict(gaps=["\n\n", "\n\n\n"])),
    case("any text", "harness.srt_h:srt_free", "",
         params=dict(docs=["1\n00:00:01 --> 00:00:02\na<x>b", "<x>1\n00:00:01 --> 00:00:02\nb",
                           "1<x>00:00:01 --> 00:00:02\nb",
                           "1\n00:00:01 --> 00:00:02<x>\nb\n\n2\n00:00:01 --> 00:00:02\nb",
                           "1\n00:00:01 --> 00:00:02\na<x>2\n00:00:01 --> 00:00:02\nb"],
                     holes=dict(x=(0, 3, NOCR)))),
])
check("C16", [
    case("SRT timings", "harness.srt_h:timings", "",
         params=dict(docs=["<x>", "00:00:<x>", "01:0<x>2:03,5", "1:<x>3", "00:00:01,<x>"], n=3,
                     vtt=False, dom="0123456789:,-._+ax")),
    case("VTT timings", "harness.srt_h:timings", "",
         params=dict(docs=["<x>", "00:00:<x>", "01:0<x>2:03.5", "1:<x>3", "00:00:01.<x>"], n=3,
                     vtt=True, dom="0123456789:,-._+ax")),
    case("SRT arrow", "harness.srt_h:arrow", "", params=dict(n=4, dom="->x", vtt=False)),
    case("VTT arrow", "harness.srt_h:arrow", "", params=dict(n=4, dom="->x", vtt=True)),
    case("numbers", "harness.srt_h:numbers", "", params=dict(n=2, dom="0123456789-+ x_")),
    case("missing parts", "harness.srt_h:truncated", "", params=dict(n=2)),
    case("any SRT text", "harness.srt_h:srt_free", "",
         params=dict(docs=["<x>", "1\n<x>\nb", "<x>\n00:00:01,5 --> 00:00:02\nb",
                           "1\n00:00:<x> --> 00:00:02\nb"],
                     holes=dict(x=(0, 4, NOCR)))),
    case("any VTT text", "harness.srt_h:srt_free", "",
         params=dict(docs=["WEBVTT\n\n<x>", "WEBVTT<x>00:01.5 --> 00:02.5\nb",
                           "WEBVTT\n\n00:01.5 <x> 00:02.5\nb", "<x>WEBVTT\n\n00:00 --> 00:00\na",
                           "WEBVTT\n\n00:<x> --> 00:02.5\nb"],
                     holes=dict(x=(0, 4, NOCR)), vtt=True)),
])
VX = [None, "NOTE a comment\nof two lines", "STYLE\n::cue { color: red }",
      "7\n00:00:09.000 --> 00:00:10.000"]
check("C17", [
    case("round trip", "harness.srt_h:vtt_roundtrip", "", params=dict(n=1, texts=ST, extra=VX)),
    case("text", "harness.srt_h:vtt_roundtrip", "", params=dict(n=3, texts=ST[1:], extra=[None],
                                                               k=1)),
    case("subset", "harness.srt_h:vtt_subset", "", params=dict(extra=VX)),
    case("same timings", "harness.srt_h:vtt_twins", ""),
    case("any text", "harness.srt_h:srt_free", "",
         params=dict(docs=["WEBVTT\n\n00:01.5 --> 00:02.5\na<x>b",
                           "WEBVTT<x>00:01.5 --> 00:02.5\nb\n\n00:01.5 --> 00:02.5\nb",
                           "WEBVTT\n\n1<x>00:01.5 --> 00:02.5\nb"],
                     holes=dict(x=(0, 3, NOCR)), vtt=True)),
])
check("C11", [
    case("formats", "harness.core_h:endings", "",
         params=dict(docs=[("json:JsonHandler", '{<w>"a": "b",\n<w>"c": ["d\\n<x>"]}<w>'),
                           ("json:StructuredJsonHandler",
                            '{"a": {\n"string": "<x>",\n"context": "x"\n}\n}<w>'),
                           ("json:ArbHandler", '{<w>"a": "<x>",\n"@a": {\n"context": "c"}}'),
                           ("json:ChromeI18nHandlerV3", '{<w>"a": {"message":\n"<x>"}\n}'),
                           ("plaintext:PlaintextHandler", "a<y>\n<w>b<y>"),
                           ("srt:SrtHandler", "1\n00:00:01 --> 00:00:02\n<y>\n\n2\n00:00:01 --> "
                                              "00:00:02\nb\nc<w>"),
                           ("vtt:VttHandler", "WEBVTT\n\n00:00:01.5 --> 00:00:02\n<y>\n\n<w>2\n"
                                              "00:00:01 --> 00:00:02\nb\nc<w>")],
                     holes=dict(w=(0, 1, " \n"), x=(0, 2, ("not", "\r\n")), y=(0, 2, NOCR)))),
    case("functions", "harness.core_h:newline_functions", "", params=dict(n=6)),
    case("transcriber", "harness.core_h:transcriber_endings", "", params=dict(n=4)),
])
check("C12", [
    case("steps", "harness.core_h:steps", "", params=dict(n=3, k=3, nmax=2),
         thorough=dict(n=4, k=4)),
    case("sections", "harness.core_h:sections", "", params=dict(k=6),
         thorough=dict(k=7)),
    case("places", "harness.core_h:section_place", "", params=dict(k=2),
         thorough=dict(k=3)),
])
check("C13", [
    case("identity", "harness.core_h:identity", "", params=dict(n=2, dom=None)),
    case("attributes", "harness.core_h:attributes", ""),
])
check("C14", [
    case("names", "harness.core_h:rule_names", "", params=dict(n=6)),
    case("numbers", "harness.core_h:rule_numbers", "", params=dict(lo=-10 ** 6, hi=10 ** 6)),
])
CH = ('not', '\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
PS = [[], ["ctxt"], ["plural"], ["plural", "ctxt"]]
check("C19", [
    case("states", "harness.po_h:extract", "",
         params=dict(n=1, shapes=PS, states=["pot", "pot space", "fuzzy", "empty", "space"],
                     ats=1), thorough=dict(extras=3, ats=3)),
    case("places", "harness.po_h:extract", "",
         params=dict(n=1, shapes=PS[:3:2], states=["done"], extras=3, heads=2),
         thorough=dict(shapes=PS)),
    case("heads", "harness.po_h:extract", "",
         params=dict(n=0, shapes=PS[:1], states=["done"], ats=1, extras=1, heads=3)),
    case("texts", "harness.po_h:extract", "",
         params=dict(n=2, shapes=[[]], states=["done"], ats=1),
         thorough=dict(n=3, shapes=PS)),
    case("translations", "harness.po_h:extract", "",
         params=dict(n=0, shapes=PS[:3:2], states=["done", "pot"], ats=1, tn=2),
         thorough=dict(tn=3)),
    case("duplicates", "harness.po_h:duplicates", "",
         params=dict(kinds=["  ", "c "], n=dict(id1=(1, 1, CH), id2=(1, 2, CH),
                                               ctx=(0, 1, CH)))),
    case("contexts", "harness.po_h:duplicates", "",
         params=dict(kinds=["cc"], n=dict(id1=(1, 1, "a"), id2=(1, 1, "a"), ctx=(0, 1, CH)))),
    case("plural keys", "harness.po_h:duplicates", "",
         params=dict(kinds=["p ", "pp"], n=dict(id1=(1, 1, ":\\a"), id2=(1, 3, ":\\a"),
                                               pl=(1, 1, ":\\a")))),
    case("any text", "harness.po_h:free", "",
         params=dict(docs=['msgid "a"\nmsgstr "b"\n<x>', 'msgid "a<x>"\nmsgstr "b"',
                           'msgid "a"\nmsgid_plural "c"\nmsgstr[<x>] "b"\n',
                           '<x>msgid "a"\nmsgstr "b"', 'msg<x> "a"\nmsgstr "b"', '#<x>\nmsgid "a"\n'
                           'msgstr "b"'],
                     holes=dict(x=(0, 2))),
         thorough=dict(holes=dict(x=(0, 3)))),
])
check("C20", [
    case("keys", "harness.po_h:split_key", "", params=dict(n=3), thorough=dict(n=4)),
    case("kept", "harness.po_h:sync", "", params=dict(n=1, shapes=[["plural"]], added=(0, 2),
                                                     extras=1)),
    case("added", "harness.po_h:sync", "",
         params=dict(n=1, shapes=PS, keeps=2, added=(1,), rots=1, heads=1),
         thorough=dict(n=2)),
    case("moved", "harness.po_h:moved", "",
         params=dict(shapes=PS, n=2, dom="\\:\"nz"), thorough=dict(n=3)),
])
XN = ("not", " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u180e\u2000\u2001\u2002\u2003"
      "\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000/<>=\"'!?&")
XH = dict(n=(1, 1, XN), t=(0, 1, ("not", "<\r")), c=(0, 2, NOCR), k=(0, 2, NOCR),
          v=(0, 1, ("not", "<\r")))
X1 = [("n", ["\""], "t", [], "t"), ("n", ["'", "\""], None, [], "t"),
      ("a", [], ["t", "c", "t"], [], "t"), ("!--", "t"), ("a", "", None, [], ["t", "c"])]
X2 = [("a", [], "t", [("b", ["\""], "t", [], "t"), ("!--", "t"), ("c", "", None, [], "t")], "\n"),
      ("a", [], "", [("b", [], "t", [("b", "", None, [], "t")], "t"), ("b", "", "", [], "c")], ""),
      ("a", [], "t", [("!--", "t"), ("b", [], ["c"], [("!--", "")], "t")], "")]
check("C21", [
    case("one element", "harness.xml_h:positions", "", params=dict(specs=X1, holes=XH)),
    case("attributes", "harness.xml_h:positions", "",
         params=dict(specs=[("a", ["\""], None, [], "")], holes=dict(XH, e=(0, 2, " \t\n"), n=(1, 2, XN)))),
    case("nested", "harness.xml_h:positions", "",
         params=dict(specs=X2, holes=dict(XH, s=(0, 0), k=(0, 1, NOCR),
                                         c=(0, 1, NOCR)))),
    case("CDATA and comment text", "harness.xml_h:positions", "",
         params=dict(specs=[("a", [], ["c"], [("b", [], "", [], ["c"])], "")],
                     holes=dict(XH, s=(0, 0), c=(2, 5, "]<>/-!a")))),
    case("comment text", "harness.xml_h:positions", "",
         params=dict(specs=[("a", [], "", [("!--", ""), ("b", "", None, [], "")], "")],
                     holes=dict(XH, s=(0, 0), k=(2, 6, "]<>/-!a")))),
    case("any text", "harness.xml_h:robust", "",
         params=dict(docs=["\xabx\xbb", "<a>\xabx\xbb", "<a \xabx\xbb></a>", "<a><b\xabx\xbb</a>", "<a><!-\xabx\xbb--></a>",
                           "<a><![CDATA[\xabx\xbb]]></a>", "<a>t</a\xabx\xbb", "<a b=\xabx\xbb\"/>"],
                     holes=dict(x=(0, 3, ("not", "\r")))),
         thorough=dict(holes=dict(x=(0, 5, ("not", "\r"))))),
    case("closing tags", "harness.xml_h:closing", "", params=dict(n=2)),
    case("truncation", "harness.xml_h:broken", "",
         params=dict(docs=["<a b=\"\xabv\xbb\">\xabt\xbb<c/>\xabt1\xbb<d ><!--\xabk\xbb--></d></a>",
                           "<a><![CDATA[\xabt\xbb]]><b>\xabt1\xbb</b></a>"])),
])
AW = (0, 1, " \n")
AH = dict(w=(0, 0), n=(1, 1, ("not", "\"\r")), t=(0, 1, ("not", "<\r")), c=(0, 1, ("not", "-\r")),
          k=(0, 1, ("not", "]\r")))
AX = "\xabt#\xbb<b x=\"1\">\xabt#1\xbb</b>"
AS = [[("c",), ("s", "n", "\xabt#\xbb")],
      [("s", "n", AX)], [("s", "n", "\xabt#\xbb<![CDATA[ \xabk\xbb<b>]]>")],
      [("a", "n", ["\xabt#\xbb", "\xabt#\xbb"])],
      [("p", "n", [("one", "a\xabt#\xbb"), ("other", "b\xabt#\xbb")])],
      [("p", "p", [("other", "x\xabt#\xbb"), ("zero", "z")], {}, 0), ("s", "n", "x")]]
AM = [[("c",), ("s", "a", "x"), ("o", "<color name=\"q\">#fff</color>"), ("s", "b", "")],
      [("c",), ("s", "a", "x", {"translatable": "false"}), ("s", "b", "y", {"product": "p"})],
      [("s", "a", "x"), ("c",), ("a", "b", ["\xabt#\xbb", "", "z"]), ("p", "c", [("one", ""), ("other", " ")])],
      [("c",), ("o", "<dimen name=\"q\"/>"), ("p", "c", [("one", "1"), ("few", "2"), ("other", "3")]), ("c",)],
      [("s", "b", "y"), ("s", "b", "z", {"product": "p"}), ("a", "b", [])],
      [("a", "b", [" ", "q"], {"translatable": "false"}), ("c",), ("s", "b", " ")],
      [("c",), ("p", "c", [("one", "1"), ("other", "3")]), ("s", "b", "y"), ("c",), ("a", "a", ["x"]), ("s", "c", "z")]]
# names of Android files: where they stand, what is extracted if they are right and if not
ANEAR = [("<@ name=\"a\">x</@>", "string", [("a", "", "x")], []),
         ("<@ name=\"a\"><item>x</item></@>", "string-array", [("a[0]", "", "x")], []),
         ("<@ name=\"a\"><item quantity=\"other\">x</item></@>", "plurals", [("a", "", "x")], []),
         ("<string-array name=\"a\"><@>x</@><item>y</item></string-array>", "item",
          [("a[0]", "", "x"), ("a[1]", "", "y")], [("a[0]", "", "y")]),
         ("<plurals name=\"a\"><@ quantity=\"other\">x</@></plurals>", "item", [("a", "", "x")], None),
         ("<plurals name=\"a\"><item @=\"other\">x</item></plurals>", "quantity", [("a", "", "x")], None),
         ("<plurals name=\"a\"><item quantity=\"@\">x</item></plurals>", "other", [("a", "", "x")], None),
         ("<string @=\"a\">x</string>", "name", [("a", "", "x")], None),
         ("<string @=\"b\" name=\"a\">x</string>", "product", [("a", "b", "x")], [("a", "", "x")]),
         ("<string name=\"a\" @=\"false\">x</string>", "translatable", [], [("a", "", "x")]),
         ("<string name=\"a\" translatable=\"@\">x</string>", "false", [], [("a", "", "x")]),
         ("<plurals name=\"a\" translatable=\"@\"><item quantity=\"other\">x</item></plurals>", "false", [], [("a", "", "x")])]
NEARCH = "abefgilmnoprqstuy-A"
check("C22", [
    case("one entry", "harness.android_h:extract", "", params=dict(specs=AS, holes=AH, heads=3),
         thorough=dict(holes=dict(AH, t=(0, 2, ("not", "<\r")), n=(1, 2, ("not", "\"\r"))))),
    case("several entries", "harness.android_h:extract", "",
         params=dict(specs=AM, holes=dict(AH, w="unique")),
         thorough=dict(holes=dict(AH, w="unique", t=(0, 2, ("not", "<\r"))))),
    case("whitespace", "harness.android_h:extract", "",
         params=dict(specs=[AM[k] for k in (0, 3, 5)], holes=dict(AH, w=AW)),
         thorough=dict(specs=AM)),
    case("names of the format", "harness.android_h:near", "",
         params=dict(docs=ANEAR, handler="plain", holes=dict(m=(0, 1, NEARCH)))),
    case("unescaped", "harness.android_h:extract", "",
         params=dict(specs=AS, handler="unescaped", holes=dict(AH, t=(0, 1, ("not", "<\r'\"")),
                                                              k=(0, 1, ("not", "]\r'\""))))),
])
AD = AM + [[("a", "a", ["x", "y", "z"]), ("s", "b", "u")],
           [("s", "a", "x"), ("s", "b", "y"), ("s", "c", "z")],
           [("s", "a", ""), ("s", "b", "y"), ("o", "<a/>"), ("p", "c", [("other", "x")])],
           [("a", "a", ["x", ""]), ("a", "b", ["", "y"])],
           [("a", "a", ["", "x", "", "y"])],
           [("p", "c", [("other", "")]), ("s", "a", "x"), ("c",), ("c",), ("s", "b", "y")]]
check("C23", [
    case("subsets", "harness.android_h:subset", "", params=dict(specs=AD, holes=dict(AH, w="unique", c=(1, 1, "c"))),
         thorough=dict(t=(0, 3))),
    case("whitespace", "harness.android_h:subset", "",
         params=dict(specs=[AD[k] for k in (0, 8)], t=(1, 1),
                     holes=dict(AH, w=AW, c=(1, 1, "c"), t=(0, 0))),
         thorough=dict(specs=AD)),
    case("locale", "harness.android_h:locale", "", params=dict(n=2)),
])
TAGCH = "abcdefghijklmnopqrstuvwxyz:AB"
TAGNAMES = ["xliff:g", "annotation", "strike", "small", "cite", "font", "span", "\xabn\xbb", "xliff:\xabm\xbb", "xliff\xabm\xbbg",
            "annotatio\xabm\xbb", "strik\xabm\xbb", "s\xabm\xbball", "fon\xabm\xbb", "\xabm\xbbpan", "\xabm\xbbcite"]
check("C24", [
    case("escape", "harness.android_h:escape_plain", "", params=dict(n=4), thorough=dict(n=6)),
    case("references", "harness.android_h:escape_plain", "",
         params=dict(n=2, docs=["@string\xabx\xbb", "\xabx\xbb@string/\xaby\xbb", "@\xabx\xbbstring/\xaby\xbb",
                                "@strin\xabx\xbbg/a", "@str\xabx\xbbng/a", "\xabx\xbbstring/a"])),
    case("inline tags", "harness.android_h:escape_inline", "",
         params=dict(holes=dict(t=(0, 1, ("not", "<\r")), u=(0, 1, ("not", "<\r")), v=(0, 2, ("not", "<\r"))))),
    case("other tags", "harness.android_h:escape_tags", "",
         params=dict(holes=dict(t=(0, 1, ("not", "\r\\@/>")), u=(0, 1, ("not", "\r\\@")), v=(0, 2, ("not", "\r\\@"))))),
    case("unescaped", "harness.android_h:escape_unescaped", "", params=dict(n=3), thorough=dict(n=5)),
    case("unescaped inline tags", "harness.android_h:unescaped_inline", "",
         params=dict(holes=dict(t=(0, 1, ("not", "<\r\\&")), u=(0, 1, ("not", "<\r\\&")),
                                v=(0, 2, ("not", "<\r\\"))))),
    case("names of tags", "harness.android_h:tag_names", "",
         params=dict(handler="plain", names=TAGNAMES, holes=dict(n=(1, 3, TAGCH), m=(0, 1, TAGCH)))),
    case("unescaped names of tags", "harness.android_h:tag_names", "",
         params=dict(handler="unescaped", names=TAGNAMES, holes=dict(n=(1, 2, TAGCH), m=(0, 1, TAGCH)))),
    case("unescaped other tags", "harness.android_h:unescaped_tags", "",
         params=dict(holes=dict(t=(0, 1, ("not", "<\r\\")), u=(0, 1, ("not", "<>\r\\]-&")),
                                v=(0, 1, ("not", "<\r\\"))))),
])
R = "<resources>%s</resources>"
ADEF = [R % d for d in [
    '<string>\xabx\xbba</string>', '<string name="a">x</string><string name="a">\xabx\xbby</string>',
    '<string name="a" product="\xabp\xbb">x</string><string name="a" product="\xabp\xbb">y</string>',
    '<plurals name="a"></plurals>', '<plurals name="a"/>', '<plurals name="a"><!--\xabp\xbb--></plurals>',
    '<plurals name="a"><item>\xabx\xbb</item></plurals>',
    '<plurals name="a"><item quantity="\xabp\xbb">x</item></plurals>',
    '<plurals name="a"><item quantity="one">a\xabx\xbb</item></plurals>',
    '<plurals name="a"><item quantity="one"></item><item quantity="other">a\xabx\xbb</item></plurals>',
    '<plurals name="a"><it\xabp\xbb quantity="other">a</it\xabp\xbb></plurals>',
    '<plurals><item quantity="other">a\xabx\xbb</item></plurals>',
    '<string-array><item>a\xabx\xbb</item></string-array>',
    'a\xabx\xbb<string name="a">x</string>', '<string name="a">x</string>a\xabx\xbb',
    '<string-array name="a">a\xabx\xbb<item>x</item></string-array>',
    '<string-array name="a"><item>x</item>a\xabx\xbb</string-array>',
    '<plurals name="a">a\xabx\xbb<item quantity="other">x</item></plurals>',
    '<plurals name="a"><item quantity="other">x</item>a\xabx\xbb</plurals>',
    '<string name="a">a</strin\xabp\xbb>', '<string name="a"><b>a</string>\xabx\xbb',
    '<string name="a">x<string>\xabx\xbb', '<!-- \xabp\xbb']] + ['<resource>\xabx\xbb</resource>', '\xabx\xbb']
AFREE = ["\xabx\xbb<resources>\xabx\xbb</resources>", "<resources\xabx\xbb></resources>", "<resources>\xabx\xbb",
         R % '<string name="a">\xabx\xbb</string>', R % '<string name="\xabx\xbb>b</string>',
         R % '<string name="a" \xabx\xbb>b</string>', R % '<plurals name="a">\xabx\xbb<item quantity="other">b</item></plurals>',
         R % '<plurals name="a"><item quantity="other"\xabx\xbbc</item></plurals>', R % '<string-array name="a"><item\xabx\xbb</item></string-array>',
         R % '<\xabx\xbb/><string name="a">b</string>', R % '<string name="a"/>\xabx\xbb<string-array name="b"/>',
         "<resources/>\xabx\xbb", R % '<\xabx\xbb'] + ["<resources"[:i] + "\xabx\xbb" for i in (0, 5, 10)]
check("C25", [
    case("android", "harness.android_h:defects", "",
         params=dict(docs=ADEF, handler="plain", holes=dict(x=(0, 2, ("not", "<\r")), p=(0, 1, ("not", "\"<>\regm-/ ='"))))),
    case("any text", "harness.android_h:free", "",
         params=dict(docs=AFREE, handler="plain", holes=dict(x=(0, 3, ("not", "\r")))),
         thorough=dict(holes=dict(x=(0, 5, ("not", "\r"))))),
    case("any text, unescaped", "harness.android_h:free", "",
         params=dict(docs=AFREE, handler="unescaped", holes=dict(x=(0, 2, ("not", "\r"))))),
    case("names", "harness.android_h:duplicates", "", params=dict(n=2, kinds=["s", "a", "p"]), thorough=dict(n=4)),
])
NOLT = ("not", "<\r")
SH = dict(w="unique", k=(0, 1, NOLT), v=(1, 1, ("not", "<\r")), p=(0, 2, ("not", "<\r@")),
          s=(0, 1, ("not", "<\r")), t=(0, 1, NOLT))
OO = [("one", "1"), ("other", "n")]
SE = [[("k", ("p", "x", ""), [("x", [("one", "is"), ("other", "are")], "spec")])],
      [("k", ("", "x", "s"), [("x", [("one", "is"), ("other", "are")], "spec")])],
      [("k", ("", "x", ""), [("x", [("zero", "zt"), ("other", "t")], "spec"), ("y", OO, "spec")])],
      [("k", None, [("v", OO, "spec"), ("w", [("other", "t")], "rules")])],
      [("a", ("Look ", None, "plain"), []), ("b", ("Look ", "x", " \n%#@y@"),
                                           [("y", OO, "spec"), ("x", OO, "spec")])],
      [("a", ("Look ", "x", ""), [("y", OO, "spec")]), ("b", ("Look ", "x", "%#@y@"), [("x", OO, "rules"), ("y", OO, "rules")])],
      [("a", ("", "x", ""), [("x", [("one", ""), ("other", " ")], "spec")]), ("k", None, [("x", OO, "rules")])],
      [("a", ("", None, "t"), []), ("k", ("Pre", "x", ""), [("x", [("one", ""), ("other", "o")], "rules")])],
      [("b", None, [("x", OO, "spec")]), ("k", ("", "x", ""), [("x", OO, "rules"), ("y", OO, "rules")]), ("c", None, [])]]
check("C26", [
    case("extract and compile", "harness.stringsdict_h:extract", "", params=dict(specs=SE, holes=SH),
         thorough=dict(holes=dict(SH, t=(0, 2, NOLT), p=(0, 3, ("not", "<\r@")), s=(0, 3, NOLT)))),
    case("variable names", "harness.stringsdict_h:extract", "",
         params=dict(specs=[[("k", ("Look ", "xy", " up"), [("u", OO, "spec"), ("u", OO, "rules")])],
                            [("a", ("", "x", "%#@xy@"), [("u", OO, "rules"), ("u", OO, "rules")])]],
                     holes=dict(SH, u=(1, 3, "xyz")))),
    case("subsets", "harness.stringsdict_h:subset", "", params=dict(specs=SE, holes=dict(SH, p=(0, 1, ("not", "<\r@"))))),
    case("layouts", "harness.stringsdict_h:layout", "",
         params=dict(order=[[0, 1, 2, 3], [2, 3, 0, 1], [2, 0, 3, 1], [0, 3, 1, 2]], n=1)),
    case("escaping", "harness.stringsdict_h:escaping", "", params=dict(n=3), thorough=dict(n=5)),
])
SD = "<dict><key>k</key><dict>%s</dict></dict>"
SV = "<key>v</key><dict>%s</dict>"
OTH = "<key>other</key><string>a</string>"
SDEF = [SD % d for d in [
    SV % ("<key>one</key><string>a\xabx\xbb</string>"), SV % "", SV % (OTH + "<key>one</key><string> </string>\xabq\xbb"),
    SV % ("<key>\xabp\xbb</key><string>\xabx\xbb</string>"), SV % (OTH + "<key>one</key>"),
    SV % OTH + SV % OTH, "<key>v</key><string>\xabx\xbb</string>", "<key>v</key>", SV % ("<kex>a</kex>" + OTH),
    SV % OTH + "</dict><key>k</key><dict>"]] + [
    "a\xabx\xbb" + SD % (SV % OTH) , "\xabx\xbb", "<dict>a\xabx\xbb</dict>", "<dict></dict>a\xabx\xbb", "<dict><key>\xabx\xbb</key></dict>",
    "<dict><key>k</key><string>\xabx\xbb</string></dict>", "<dict><key>k</key><dict></dic\xabp\xbb></dict>", "<dict><key>k</key><dict>"]
SDEF = SDEF[:10] + SDEF[11:]
SFREE = [SD % d for d in ["\xabx\xbb", SV % "\xabx\xbb", SV % (OTH + "\xabx\xbb"), SV % ("\xabx\xbb" + OTH), SV % "<key>other</key><string>\xabx\xbb</string>",
                          "<key>NSStringLocalizedFormatKey</key><string\xabx\xbb</string>" + SV % OTH,
                          "<key>NSStringLocalizedFormatKey</key><string>%#@\xabx\xbb</string>" + SV % OTH,
                          "<key>NSStringLocalizedFormatKey</key><string/>" + SV % OTH, "<key/><dict>" + OTH + "</dict>\xabx\xbb",
                          "<key>\xabx\xbb</key><dict>" + OTH + "</dict>" + SV % OTH,
                          SV % ("<key>other</key><string/>"), SV % ("<key/><string/>"), "<key>v</key><dict/>", SV % (OTH + "<key>one</key><string/>")]] + [
    "<dict><key\xabx\xbb</key><dict>" + SV % OTH + "</dict></dict>", "<dict/>\xabx\xbb", "<dict \xabx\xbb></dict>", "<dict><key/><dict>" + SV % OTH + "</dict></dict>",
    "<dic\xabx\xbb"]
CHECKS["C25"]["cases"] += [
    case("strings dictionaries", "harness.stringsdict_h:defects", "",
         params=dict(docs=SDEF, holes=dict(x=(0, 2, NOLT), q=(0, 1, " \n"), p=(1, 2, ("not", "<>\rt -/=\"'"))))),
    case("any strings dictionary", "harness.stringsdict_h:free", "", params=dict(docs=SFREE, holes=dict(x=(0, 3, ("not", "\r")))),
         thorough=dict(holes=dict(x=(0, 5, ("not", "\r"))))),
]
CXH = dict(n=(1, 1, ("not", "\"\r")), t=(0, 1, ("not", "<\r")), w=(0, 0), c=(0, 2, NOCR))
CX = [[[[("b", "\xabt#\xbb")]]],
      [[[("b", "a"), ("v", "\xabt#\xbb"), ("v", "c")], "<x/>", [("b", "d")]]],
      ["<string key=\"q\"><base>no</base></string>", [[("v", "\xabt#\xbb<b>\xabt#1\xbb</b>")]]],
      ["<!--\xabt#\xbb-->\n", [[("b", "<i/>\xabt#\xbb"), "<base/>", ("b", "z")], "<string key=\"q\"/>",
                                 "<string/>", [("b", "y")]]],
      [[[("b", ""), ("v", "")], [("v", "<![CDATA[\xabt#\xbb<]]>")]], "<section/>", "\n", []],
      [[[("v", "u"), ("b", "\xabt#\xbb"), ("v", "\xabt#\xbb"), ("b", "d"), ("v", "e")]]],
      [[["<o>\xabt#\xbb</o>", ("b", " \n"), "<o><base>p</base></o>"]],
       "<section><string key=\"a\"><base></base></string></section>", [[("b", "m")]]]]
check("C27", [
    case("documents", "harness.customxml_h:roundtrip", "",
         params=dict(specs=CX, holes=CXH, heads=["", "<?xml version=\"1.0\"?>\n<!-- c -->"]),
         thorough=dict(holes=dict(CXH, t=(0, 2, ("not", "<\r")), w=(0, 1, " \n")), new=(0, 3))),
    case("defects", "harness.customxml_h:defects", "",
         params=dict(docs=["\xabx\xbb", "<strings>\xabx\xbb", "<strings><section><string key=\"a\"><base>a\xabx\xbb</base>"
                           "</string></section></strings>", "<strings><section name=\"a\"><string><base>a\xabx\xbb"
                           "</base></string></section></strings>", "<strings><section name=\"a\"><string key=\"a\">"
                           "<variant>a\xabx\xbb</variant></string></section></strings>",
                           "<strings><section name=\"a\"><string key=\"a\"><base>a\xabx\xbb</variant></string>"
                           "</section></strings>", "<strings><section name=\"a\"><string key=\"a\"><base>a\xabx\xbb"],
                     holes=dict(x=(0, 2, ("not", "<\r"))))),
    case("any text", "harness.customxml_h:free", "",
         params=dict(docs=["<strings>\xabx\xbb</strings>", "<strings\xabx\xbb></strings>", "\xabx\xbb<strings/>\xabx\xbb",
                           "<strings><section\xabx\xbb</section></strings>",
                           "<strings><section name=\"a\"><string key=\"a\">\xabx\xbb</string></section></strings>",
                           "<strings><section name=\"a\"><string key=\"a\"><base\xabx\xbb</base></string></section></strings>",
                           "<strings><section name=\"a\"><string \xabx\xbb><base>a</base></string></section></strings>",
                           "<strings><section name=\"a\"><string key=\"a\"><variant\xabx\xbb>b</variant></string></section></strings>"],
                     holes=dict(x=(0, 3, ("not", "\r")))),
         thorough=dict(holes=dict(x=(0, 5, ("not", "\r"))))),
    case("line endings", "harness.customxml_h:endings", "",
         params=dict(holes=dict(w=(0, 1, " \n"), t=(0, 2, ("not", "<\r"))))),
])
YFREE = ["k: \xabx\xbb\n", "k: \"\xabx\xbb\"\n", "k: '\xabx\xbb'\n", "- \xabx\xbb\n", "k: a\xabx\xbb\nl: b\n",
         "\xabx\xbb: a\n", "k: |\xabx\xbb\n  a\nl: b\n", "k: >\n  a\xabx\xbb\nl: b\n", "k: |\n  a\n\xabx\xbbb\n", "[a, \xabx\xbb]", "{a: \xabx\xbb}",
         "k:\n  a: b\n\xabx\xbbc: d\n", "k: \xabx\xbb b\nl: c\n", "k: &\xabx\xbb a\nl: b\n", "k: !\xabx\xbb a\nl: b\n", "\xabx\xbb", "- a\n\xabx\xbb\n- b\n"]
YDOC = ["a:\n  b: c\n  d: |\n    e\n\n    f\n  g: >\n    h\n    i\nj: 'k'\nl: \"m\"\n",
        "a:\n    b: |\n        c\n    d:\n    - >-\n      e\n    - 'f'\n",
        "a:\n\n- |\n  b\n- - - |-\n      c\n    - d\n",
        "a:\n b: c\nd:\n        e:\n                f: |\n                        g\n                h: >+\n                        i\n\n",
        "{a: b, c: ['d', {e: \"f\"}]}", "a: &x b\nc: *x\nd: !t e\nf: !t &y g\nh: &z !t i\n",
        "- !t a\n- !t |\n  b\n- ? c\n  : |\n   d\n  ? e\n  : - |\n      f\n", "a:\n  |\n  b\nc: # d\n   !t\n    >\n     e\n",
        "a.b: c\n1: d\ntrue: e\n2: {f: [5, g]}\n"]
YONE = ["a: b\n", "a:\n  b: |\n    c\n", "- >\n  c\n", "{a: b}\n"]
check("C28", [
    case("any text", "harness.yaml_h:free", "", params=dict(docs=YFREE, holes=dict(x=(0, 2, NOCR))),
         thorough=dict(holes=dict(x=(0, 3, NOCR)))),
    case("wide indents", "harness.yaml_h:translated", "", params=dict(docs=[
        "a:\n%sb: c\nd:\n e:\n  f: |\n   g\n" % (" " * 9), "- \n%sa: >\n%sb\n- - c: |\n     d\n" % (" " * 5, " " * 6)],
        holes={}, new=(0, 2, "\n a"))),
    case("translations", "harness.yaml_h:translated", "", params=dict(docs=YDOC, holes={}, new=(0, 1)),
         thorough=dict(new=(0, 2))),
    case("longer translations", "harness.yaml_h:translated", "", params=dict(docs=YONE, holes={}, new=(2, 2)),
         thorough=dict(new=(2, 3))),
    case("special words", "harness.yaml_h:translated", "",
         params=dict(docs=YONE[:1], holes={}, new=(0, 4, "nulNo~=<.-#:y10ef \n"))),
])
YKEY = ["\xabx\xbb: a\n\xaby\xbb: b\n", "\"\xabx\xbb\":\n  'k.\xaby\xbb': b\n", "\xabx\xbb: a\n\xaby\xbb:\n  z: b\n",
        "- \xabx\xbb: a\n- \xaby\xbb: b\n  c: d\n", "{\xabx\xbb: {\xaby\xbb: [a]}}"]
check("C29", [
    case("any keys", "harness.yaml_h:names", "", params=dict(docs=YKEY, holes=dict(x=(0, 1, NOCR), y=(0, 1, NOCR))),
         thorough=dict(holes=dict(x=(0, 2, NOCR), y=(0, 1, NOCR)))),
    case("dots, brackets and numbers", "harness.yaml_h:names", "",
         params=dict(docs=YKEY[:3], holes=dict(x=(0, 3, ".[]<1>"), y=(1, 3, ".1<>")))),
    case("without template", "harness.yaml_h:subset", "",
         params=dict(docs=["\xabx\xbb: a\nb:\n  \xaby\xbb: c\n  d: e\n",
                           "- a\n- 'b': |\n    c\n  \xabx\xbb: [d, e]\n", "a: {b: c, \xabx\xbb: d}\n1: |\n  x\n2: >\n  y\n",
                                "a:\n  \xabn\xbb: b\n  c: {\xabm\xbb: d, 10: [e, 'f']}\n3:\n  4: g\n"],
                     holes=dict(x=(0, 1, NOCR), y=(0, 1, ":- x"), n=(1, 2, "19a"), m=(1, 1, "12b"))),
         thorough=dict(holes=dict(x=(0, 2, NOCR), y=(0, 1, ":- x"), n=(1, 2, "19a"), m=(1, 1, "12b")))),
])
I18N = ["en:\n  a:\n    one: \xabx\xbb\n    other: \xaby\xbb\n  b: \xabz\xbb\n", "en:\n  a:\n    b: {one: '\xabx\xbb', other: \"\xaby\xbb\"}\n",
        "en:\n    a:\n        other: |\n            \xabx\xbb\n        one: >-\n            \xaby\xbb\n\n    b: \xabz\xbb\n",
        "en:\n  a:\n    one: '\xabx\xbb'\n    # c\n    other: \"\xaby\xbb\" # d\n# e\n",
        "{en: {a: {one: \xabx\xbb, other: \xaby\xbb}}}"]
check("C36", [
    case("plural texts", "harness.yaml_h:i18n_doc", "",
         params=dict(docs=I18N, holes=dict(x=(0, 2, NOCR), y=(1, 1, "a:#"), z=(0, 1, "c|")), change=False),
         thorough=dict(holes=dict(x=(0, 3, NOCR), y=(0, 1, NOCR), z=(0, 1)))),
    case("keys of plurals and roots", "harness.yaml_h:i18n_doc", "",
         params=dict(docs=["en:\n  a:\n    one: b\n    o\xabx\xbber: c\n    \xaby\xbb: d\n", "\xabx\xbb:\n  a: b\n\xaby\xbbc:\n  d: e\n",
                           "en:\n  one: a\n  other: b\n", "en:\n  a:\n  - one: b\n    other: c\n  - one: d\n", "- a\n", "en: a\n", "en:\n- a\n"],
                     holes=dict(x=(0, 2, NOCR), y=(0, 4, "zertwofwmany")), change=False)),
    case("translations", "harness.yaml_h:i18n_doc", "",
         params=dict(docs=I18N, holes=dict(x="e", y="f", z="g"), change=True, dos=True, new=(0, 1)),
         thorough=dict(new=(0, 2))),
])
MD = ("or", "\n", ("range", 0x20, 0x7e), ("range", 0x4e00, 0x9fff), "\xa0\u2424\ufb01\uff21\xbd")
X, Y, Z = "\xabx\xbb", "\xaby\xbb", "\xabz\xbb"
MDTAB = ("or", "\n\t\r", ("range", 0x20, 0x7e))
check("C30", [
    case("any text", "harness.markdown_h:trip", "",
         params=dict(docs=["\xabx\xbb"], holes=dict(x=(0, 3, MD))),
         thorough=dict(holes=dict(x=(0, 4, MD)))),
    case("any text in a document", "harness.markdown_h:trip", "",
         params=dict(docs=["# a\n\xabx\xbbb\n", "* a\n\xabx\xbb* b\n\xaby\xbb", "a | b\n--|--\n\xabx\xbb | c\n", "> a\n\xabx\xbb",
                           "```\n\xabx\xbb\n```\n", "[a]: \xabx\xbb\n[^b]: \xaby\xbb\n", "    a\n\xabx\xbb\nb\n", "> [!NOTE]\xabx\xbb\n>\xaby\xbb a\n",
                           "<div>\n\xabx\xbb\n</div>\n", "{%\xabx\xbb%}\n12\xaby\xbb\n", "1. a\n\n   \xabx\xbb> [!TIP]\n   > b\n"],
                     holes=dict(x=(0, 2, MD), y=(0, 1, MD))),
         thorough=dict(holes=dict(x=(0, 3, MD), y=(0, 2, MD)))),
    case("texts and translations", "harness.markdown_h:texts", "",
         params=dict(docs=[
             ["# ", X, "\n\n", Y, "\n\n* ", Z, "\n* ", X, "\n\n| ", Y, " | ", Z, " |\n|---|---|\n| ", X, " | ", X, " |\n"],
             ["", X + "\n=", "\n\n1. ", Y, "\n\n   ", X, "\n2. ", Z, "\n\n[", Y, "]: 1\n\n", X, ""],
             ["\n\n", X + " " + X + "\n" + Y, "\n\n\n\n### ", Z, "\n", "---", "\n", X, "\n"],
             ["{% a %}\n\n", "> " + X + "\n> " + Y, "\n\n12\n\n", "```\n" + X + "\n```", "\n\n", "---", "\n\n", Y + X, "\n"]],
                     holes=dict(x=(1, 2, "ab"), y=(1, 1, "ab"), z=(1, 1, "ac")), new=(0, 1))),
    case("tabs and line endings", "harness.markdown_h:trip", "",
         params=dict(docs=["\xabx\xbb", "a\r\n\xabx\xbb"], holes=dict(x=(0, 2, MDTAB))),
         thorough=dict(holes=dict(x=(0, 4, MDTAB)))),
])
CHECKS["C30"]["cases"][:0] = [
    case("callouts", "harness.markdown_h:texts", "", params=dict(versions=[2, 3], docs=[
        ["1. ", X, "\n\n   ", ("> [!%s]\n   > %s\n   > b" % (label, X), "> [!%s]\n> %s\n> b" % (label, X)), "\n\n2. ", Y, "\n"]
        for label in ["NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION"]] + [
        ["* ", "a", "\n\n  ", (">    [!TIP]\n  >   a", ">    [!TIP]\n>   a"), "\n\n* ", "b", "\n\n  ", ("> [!TIP]\n  > " + X, "> [!TIP]\n> " + X),
         "\n\n* ", X, ""]], holes=dict(x=(1, 1, "ab"), y=(1, 1, "ab")), new=(0, 1))),
    case("the same text in other places", "harness.markdown_h:texts", "", params=dict(docs=[
        ["[1]: " + X + "c\n\n", X, "\n\n[", Y, "]: http://b" + Z + "\n\n# ", Z, "\n"],
        ["{% " + X + " %}\n\n", X, "\n\n12\n\n* {% " + Y + Z + " %}\n* ", Y, "\n\n5\n\n", Z + "5", "\n"],
        ["| 3 | ", X, " |\n|---|---|\n| 3" + " | ", Y, " |\n\n\"[", Z, "]: " + Y + Z + "\"\n\n[7]: " + Z + "\n\n### ", Z, "\n"]],
        holes=dict(x=(1, 1, "abc"), y=(1, 1, "abt"), z=(1, 1, "abt")), new=(0, 1))),
    case("marks in headings", "harness.markdown_h:texts", "", params=dict(docs=[
        ["# ", "a" + X, "\n\n## ", "b" + Y + "c", "\n"], ["* ", "a", "\n\n  # ", "C" + X + "c", "\n\n", "d" + Y + "c", "\n"]],
        holes=dict(x=(0, 3, "# a"), y=(1, 2, "# a")), new=(0, 1))),
    case("keys of headers", "harness.markdown_h:texts", "", params=dict(versions=[1], docs=[
        ["---\n" + X + Y + "a: ", X, "\n#" + Y + ": " + Z + "\n" + Y + ": ", Z, "\nc" + X + ":   ", "'" + X + "'", "  \n---\n\n# ", X, "\n"]],
        holes=dict(x=(1, 1, "abc"), y=(1, 2, "abt"), z=(1, 1, "abt")), new=(0, 1))),
    case("header of the earlier handler", "harness.markdown_h:texts", "", params=dict(versions=[1], docs=[
        ["---\ntitle: ", X, "\nb: |\n", "  " + Y + "\n  d", "\n\ne: ", "'" + X + "'", "\n#g: h\nk: [\n", "  " + X + "\n  ]", "\n3: 4\n---\n\n# ", X, "\n"],
        ["---\nb:\n  c: >\n", "    " + X + "\n    d:e", "\n  f: ", Y + ":" + X, "\n---\n", "a" + Y, "\n\n* ", X, "\n"]],
        holes=dict(x=(1, 1, "ab"), y=(1, 1, "ab")), new=(0, 1))),
    case("any header of the earlier handler", "harness.markdown_h:trip", "", params=dict(versions=[1], docs=[
        "---\na: \xabx\xbb\n---\n\n\xaby\xbb\n", "---\na: |\xabx\xbb\n  b\n---\nb\n", "---\n\xabx\xbba: b\n\xaby\xbb---\na\n"],
        holes=dict(x=(0, 2, MD), y=(0, 1, MD)))),
]
CHECKS["C30"]["cases"] += [
    case("MDX", "harness.markdown_h:trip", "", params=dict(versions=[3], docs=[
        "\xabx\xbb", "import A from 'b'\n\n# a\n\n<A b={\xabx\xbb}>\n\n\xaby\xbbc\n\n</A>\n", "export const a = {\xabx\xbb}\n\n* b\n\n{\xaby\xbb}\n"],
        holes=dict(x=(0, 1, MD), y=(0, 1, MD))), thorough=dict(holes=dict(x=(0, 2, MD), y=(0, 1, MD))))]
FRONT = ["a: b\nc: d", "a: 'b'", "a: \"b\"", "a:\n- b\n- 'c'", "a:\n  b: \"c\"\n  d: e", "a: [b, c]"]
check("C31", [
    case("any translation", "harness.markdown_h:header", "", params=dict(docs=FRONT, holes={}, new=(0, 2, MD))),
    case("any value", "harness.markdown_h:header", "",
         params=dict(docs=["a: \xabx\xbb\nc: d", "a: [\xabx\xbb, e]", "a:\n- \xabx\xbb", "a: '\xabx\xbb'", "a: \"\xabx\xbb\""],
                     holes=dict(x=(0, 3, MD)))),
    case("escaped characters", "harness.markdown_h:header", "",
         params=dict(docs=["a: b\\u\xabh\xbb", "a: 'b\\\xabx\xbb\xabi\xbb'", "a: b\\xab\\x\xabi\xbb\\u\xabj\xbb"],
                     holes=dict(h=(4, 4, "08dF"), x=(1, 1, "uxU\\"), i=(2, 2, "08Fg"), j=(4, 4, "0D")))),
])
check("C34", [
    case("JSON", "harness.reject_h:any_text", "",
         params=dict(kinds=["json", "structured", "arb", "chrome", "chrome3"],
                     docs=["<x>", "{\"a\": <x>}", "{\"a\":\"b\"<x>}", "[<x>\"b\"]", "{\"a\": {<x>: \"b\"}}", "{\"<x>\": {}}"],
                     holes=dict(x=(0, 3, NOCR))),
         thorough=dict(holes=dict(x=(0, 4, NOCR)))),
    case("structured JSON", "harness.reject_h:any_text", "",
         params=dict(kinds=["structured"],
                     docs=["{\"a\": {\"string\": <x>}}", "{\"a\": {\"string\": \"b\", \"context\": <x>}}",
                           "{\"a\": {\"string\": \"b\", \"character_limit\": <x>}}", "{\"a\": {\"string\": \"b\"<x>}}",
                           "{\"a\": {\"string\": \"b\", \"developer_comment\": <x>}}", "[{\"string\": <x>}]",
                           "{\"a\": {\"string\": \"{n, plural, <x>}\"}}", "{\"string\": \"a\", <x>}"],
                     holes=dict(x=(0, 3, NOCR))),
         thorough=dict(holes=dict(x=(0, 4, NOCR)))),
    case("ARB", "harness.reject_h:any_text", "",
         params=dict(kinds=["arb"],
                     docs=["{\"@@locale\": <x>, \"a\": \"b\"}", "{\"a\": \"b\", \"@a\": <x>}", "{\"a\": \"b\", \"@a\": {\"context\": <x>}}",
                           "{\"a\": \"b\", \"@a\": {\"description\": <x>}}", "{\"a\": \"{n, plural, <x>}\"}", "{\"@@x-<x>\": 1}",
                           "{\"a\": <x>, \"@a\": {}}"],
                     holes=dict(x=(0, 3, NOCR))),
         thorough=dict(holes=dict(x=(0, 4, NOCR)))),
    case("Chrome", "harness.reject_h:any_text", "",
         params=dict(kinds=["chrome", "chrome3"],
                     docs=["{\"a\": {\"message\": <x>}}", "{\"a\": {\"message\": \"b\", \"description\": <x>}}",
                           "{\"a\": {\"message\": \"b\"<x>}}", "{\"a\": {\"message\": \"{n, plural, <x>}\"}}", "[{\"message\": \"b\"}, <x>]",
                           "{\"message\": <x>}"],
                     holes=dict(x=(0, 3, NOCR))),
         thorough=dict(holes=dict(x=(0, 4, NOCR)))),
    case("escapes of Markdown headers", "harness.reject_h:any_text", "",
         params=dict(kinds=["md", "md2"], docs=["---\na: b\\u<h>\n---\n\nc\n", "---\na: 'b\\<x><i>'\n---\n\nc\n"],
                     holes=dict(h=(4, 4, "08dFg"), x=(1, 1, "ux"), i=(2, 2, "08Fg")))),
    case("PO", "harness.reject_h:any_text", "",
         params=dict(kinds=["po"],
                     docs=["<x>", "msgid \"a\"\nmsgstr \"b\"\n<x>", "msgid \"a<x>\nmsgstr \"b\"", "msgid \"a\"\nmsgid_plural \"c\"\nmsgstr[<x>] \"b\"\n",
                           "<x>msgid \"a\"\nmsgstr \"b\"", "msg<x> \"a\"\nmsgstr \"b\"", "#<x>\nmsgid \"a\"\nmsgstr \"b\"",
                           "msgid \"\"\nmsgstr \"<x>\"\n\nmsgid \"a\"\nmsgstr \"\"", "#~ msgid \"a\"\n#~ msg<x> \"b\""],
                     holes=dict(x=(0, 2, NOCR))),
         thorough=dict(holes=dict(x=(0, 3, NOCR)))),
    case("plain text and Markdown", "harness.reject_h:any_text", "",
         params=dict(kinds=["text", "md", "md2"], docs=["<x>", "---\na: <x>\n---\nb\n", "---\n<x>\n---\n"], holes=dict(x=(0, 2, MD))),
         thorough=dict(holes=dict(x=(0, 4, MD)))),
    case("YAML", "harness.reject_h:any_text", "",
         params=dict(kinds=["yaml", "i18n"],
                     docs=["<x>", "en:\n  a: <x>", "en:\n  a:\n    <x>: b\n    other: c\n", "en: {a: [b, <x>]}", "en:\n  - a\n<x>- b\n",
                           "en:\n  a: |<x>\n   b\n", "<x>\nen:\n  a: b\n", "en: &a\n  b: c\n<x>: *a\n"],
                     holes=dict(x=(0, 2, NOCR))),
         thorough=dict(holes=dict(x=(0, 3, NOCR)))),
])
SLOT = ("not", "\r")
POT = ("not", "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
check("C35", [
    case("placeholders", "harness.slots_h:slots", "",
         params=dict(kinds=["json", "structured", "arb", "chrome", "chrome3", "text", "srt", "vtt", "po", "yaml", "i18n", "android",
                            "unescaped", "stringsdict", "xml"], new=(0, 1, " a0,"), around=(0, 1, " a0_"), second=None)),
    case("JSON", "harness.slots_h:slots", "",
         params=dict(kinds=["json", "structured", "arb", "chrome", "chrome3"], new=(2, 2, ("not", "\r{}")), second=None),
         thorough=dict(new=(2, 3, ("not", "\r{}")))),
    case("JSON, two strings", "harness.slots_h:slots", "",
         params=dict(kinds=["json", "structured", "arb", "chrome", "chrome3"], new=(1, 1, ("not", "\r{}")), second=(1, 1, ("not", "\r{}"))),
         thorough=dict(second=(1, 2, ("not", "\r{}")))),
    case("PO", "harness.slots_h:slots", "", params=dict(kinds=["po"], new=(1, 2, POT), second=(1, 1, POT)),
         thorough=dict(new=(1, 3, POT))),
    case("plain text and subtitles", "harness.slots_h:slots", "",
         params=dict(kinds=["text", "srt", "vtt"], new=(1, 3, ("not", "\r")), second=(1, 1, ("not", "\r"))),
         thorough=dict(new=(1, 4, ("not", "\r")))),
    case("YAML", "harness.slots_h:slots", "", params=dict(kinds=["yaml", "i18n"], new=(1, 1, ("not", "\r")), second=(1, 1, ":#a'")),
         thorough=dict(new=(1, 2, ("not", "\r")), second=(1, 1, ("not", "\r")))),
    case("XML", "harness.slots_h:slots", "",
         params=dict(kinds=["android", "unescaped", "stringsdict", "xml"], new=(1, 2, ("not", "\r<&")), second=(1, 1, ("not", "\r<&"))),
         thorough=dict(new=(1, 4, ("not", "\r<&")))),
])
OFT = ("or", "a &'\">", ("range", 0x4e00, 0x4eff))
ONE = [[("\xabx#\xbb", None)], [("\xabx#\xbb", None), ("\xabx#\xbb", None)], [("\xabx#\xbb", None), ("\xabx#\xbb", 0), ("c", None)],
       [("\xabx#\xbb", 0), ("b", 0), ("c", 1)], [("a", None), ("\xabx#\xbb", None), ("c", 1), ("\xabx#\xbb", None)],
       [("\xabx#\xbb", 1), ("b", None)], [("a", None), ("\xabx#\xbb", 0), ("c", 0)], [("\xabx#\xbb", 0), ("b", "inside"), ("c", 1)]]
SHARED = [[("a", None), ("\xabx#\xbb", 0), ("\xabx#\xbb", 0), ("c", None)], [("\xabx#\xbb", 0), ("\xabx#\xbb", 0), ("b", 0)]]
LINKS = [[("a\xabx#\xbb", 0), ("b", None), ("c", None)], [("a", None), ("\xabx#\xbbb", 0), ("c", 0), ("d", None)],
         [("a", None), ("b\xabx#\xbb", None), ("c", 1), ("d", None)], [("a", 0), ("b\xabx#\xbb", 1)],
         [("a", None), ("b\xabx#\xbb", None), ("c", "inside"), ("d", None)]]
OFU = ("or", "w/:&'#?=%", ("range", 0x4e00, 0x4eff))
check("C32", [
    case("runs", "harness.office_h:runs", "", params=dict(kinds=["docx", "pptx", "pptx2"], shapes=ONE, holes=dict(x=(0, 2, OFT)))),
    case("translations", "harness.office_h:runs", "", params=dict(kinds=["docx", "pptx", "pptx2"], shapes=ONE, holes=dict(x=(0, 1, OFT)), new=(1, 2, OFT))),
    case("shared links", "harness.office_h:runs", "", params=dict(kinds=["docx+"], shapes=SHARED, holes=dict(x=(0, 2, OFT)))),
    case("changed links", "harness.office_h:links", "", params=dict(kinds=["docx", "docx+", "pptx", "pptx2"], shapes=LINKS, holes=dict(x=(1, 1, "a &")), change="change", url=(1, 2, OFU))),
    case("removed links", "harness.office_h:links", "", params=dict(kinds=["docx", "docx+", "pptx", "pptx2"], shapes=LINKS, holes=dict(x=(1, 1, "a &")), change="remove", url=(1, 1, "w"))),
    case("added links", "harness.office_h:links", "", params=dict(kinds=["docx", "docx+", "pptx", "pptx2"], shapes=LINKS, holes=dict(x=(1, 1, "a &")), change="add", url=(1, 2, OFU))),
    case("slides and notes", "harness.office_h:slides", "", params=dict(kinds=["pptx", "pptx2"], dom=("or", "a&", ("range", 0x4e00, 0x4eff)), new=(1, 1, OFT))),
    case("direction of the text", "harness.office_h:direction", "", params=dict(
         shapes=[[("\xabx#\xbb", None)], [("\xabx#\xbb", None), ("\xabx#\xbb", None), ("a", None)]], holes=dict(x=(0, 1, OFT)))),
    case("blank runs", "harness.office_h:anyhow", "", params=dict(kinds=["docx", "pptx", "pptx2"],
         shapes=[[(" ", None), ("a", None), (" ", None), ("b", None)], [(" ", None), ("  ", None), ("a", 0), (" ", 0), ("b", 0)]],
         translations=[" \xabx\xbb<tx>\xaby\xbb</tx>", "\xabx\xbb<tx> \xaby\xbb</tx>", "   \xabx\xbb<tx>\xaby\xbb</tx><tx> c</tx>"],
         holes=dict(x=(1, 2, OFT), y=(1, 1, OFT)))),
    case("any translation", "harness.office_h:anyhow", "", params=dict(kinds=["docx", "docx+", "pptx", "pptx2"],
         shapes=LINKS + [[("a", None)], [("a", 0)], [("a", 0), ("b", 0), ("c", 1)], [("a", None), ("b", None)]],
         translations=["\xabx\xbb", "\xabx\xbb<tx>\xaby\xbb</tx>", "<tx>\xabx\xbb</tx><tx>\xaby\xbb</tx>", "<tx href=\"q\">\xabx\xbb</tx>\xaby\xbb",
                       "\xabx\xbb<tx>a</tx>b<tx href=\"v\">\xaby\xbb</tx>c<tx>d</tx>", "<tx href=\"v\">\xabx\xbb<tx>\xaby\xbb</tx></tx>",
                       "<tx href=\"q\">\xabx\xbb</tx><tx href=\"u\">\xaby\xbb</tx>", "a<tx href=\"q\">\xabx\xbb</tx>b<tx href=\"r\">\xaby\xbb</tx>"],
         holes=dict(x=(1, 2, OFT), y=(1, 1, OFT)))),
])
XT = ("or", "a &'\">", ("range", 0x4e00, 0x4eff))
ROWS = [[("S", [("s", ["\xabx\xbb"], None), ("n", ["1"], None), ("s", ["\xaby\xbb"], None), ("s", ["\xabx\xbb"], "u")])],
        [("S", [("s", ["\xabx\xbb", "\xaby\xbb"], None), ("i", ["a", "\xaby\xbb", "\xabx\xbb"], None), ("e", [""], None)])],
        [("S", [("i", ["\xabx\xbb"], "u"), ("i", ["\xabx\xbb", "\xaby\xbb"], "v")])],
        [("S", [("f", ["\xabx\xbb"], "u"), ("g", ["\xaby\xbb"], "v")])],
        [("S\xaby\xbb", [("s", ["\xabx\xbb"], None)]), ("T", [("s", ["\xabx\xbb"], None), ("i", ["T"], None)])]]
check("C37", [
    case("cells", "harness.xlsx_h:cells", "", params=dict(layouts=ROWS, holes=dict(x=(0, 2, XT), y=(0, 1, XT)))),
    case("without strings", "harness.xlsx_h:cells", "", params=dict(layouts=ROWS, holes=dict(x=(0, 1, XT), y=(0, 1, XT)), given="none")),
    case("translations", "harness.xlsx_h:cells", "", params=dict(layouts=ROWS, holes=dict(x=(0, 1, XT), y=(0, 1, XT)), new=(1, 2, XT))),
    case("links", "harness.xlsx_h:cells", "", params=dict(layouts=[
        [("S", [("i", ["a"], "\xabu\xbb"), ("s", ["b", "c"], "v"), ("s", ["a"], None)])],
        [("S", [("f", ["a"], "\xabu\xbb"), ("g", ["a\xabx\xbb"], "w")])]], holes=dict(u=(1, 2, OFU), x=(0, 1, XT)))),
    case("numbers of the sheets", "harness.xlsx_h:cells", "", params=dict(layouts=[
        [("S", [("s", ["a"], None), ("i", ["b"], "#S!A1")]), ("T", [("s", ["a"], "%x.xml")]), ("U", [("s", ["«x»"], "v")])],
        [("S", [("h", ["HYPERLINK(A1,«x»)"], None), ("h", ["HYPERLINK(\"u\")"], None)]),
         ("T", [("h", ["UPPER(\"«x»\")"], None)])]],
        holes=dict(x=(0, 1, XT)), numbers=[2, 9, 10])),
    case("any translation", "harness.xlsx_h:anyhow", "", params=dict(
        rows=[[("s", ["a"], None), ("i", ["a"], None), ("s", ["a", "b"], None), ("i", ["c", "a", "b"], "u")],
              [("s", ["a"], "u"), ("s", ["a", "b"], "v"), ("f", ["a"], "u"), ("g", ["c"], "v")]],
        translations=["\xabx\xbb", "<tx>\xabx\xbb</tx>", "\xabx\xbb<tx>\xaby\xbb</tx>", "<tx>\xabx\xbb</tx><tx>\xaby\xbb</tx>",
                      "<tx href='q'>\xabx\xbb</tx>\xaby\xbb", "<tx href='\xabu\xbb'>\xabx\xbb<tx>b</tx>c<tx>d</tx></tx>"],
        holes=dict(x=(1, 2, XT), y=(1, 1, XT), u=(1, 1, "w/&:")))),
])
ID = ("or", " a1.-,", ("range", 0x4e00, 0x4eff), ("range", 0x660, 0x669), ("range", 0xa0, 0xa9))
PACKS = [([("u1", ["\xabx\xbb", "b", None, "3"]), ("u2", ["\xaby\xbb"])], ["u2", "u1"]),
         ([("u1", [" \xabx\xbb<?ACE \xabd\xbb?>\xaby\xbb", "<Br/>;\xabx\xbb", "\n\xaby\xbb"])], ["u9", "u1"]),
         ([("u1", ["\xabx\xbb&amp;\xaby\xbb", "\xaby\xbb\nc"]), ("backing", ["\xabx\xbb"])], ["u1"]),
         ([("u3", ["\xabx\xbb", "c"]), ("u1", ["a"]), ("u2", ["\xaby\xbb", "d"])], ["u1"])]
check("C33", [
    case("stories", "harness.indesign_h:stories", "", params=dict(layouts=PACKS, holes=dict(x=(0, 2, ID), y=(0, 1, ID), d=(1, 2, "0478"))),
         thorough=dict(holes=dict(x=(0, 5, ID), y=(0, 2, ID), d=(1, 2, "0478")))),
    case("missing strings", "harness.indesign_h:stories", "", params=dict(layouts=PACKS, holes=dict(x=(0, 1, ID), y=(0, 1, ID), d=(1, 1, "0478")), given="some")),
    case("no strings", "harness.indesign_h:stories", "", params=dict(layouts=PACKS, holes=dict(x=(0, 2, ID), y=(0, 1, ID), d=(1, 1, "0478")), given="none")),
    case("translations", "harness.indesign_h:stories", "", params=dict(
        layouts=[([("u1", [" ab ", "b", None, "3"]), ("u2", ["x<?ACE 4?>y"])], ["u2", "u1"])], holes=dict(x=(0, 4, "a&<>;#]"), d=(1, 2, "0478"), y=(0, 1, "a&<>;#]/"), x2=(0, 1, "a&<"), e=(1, 3, "lt#x1"), k=(1, 3, "a,1-"), k2=(0, 1, "a<&")),
        new=["\xabx\xbb", "ab1d" * 7 + "ff\xabk\xbb_tr\xabk2\xbb", "\xaby\xbb&\xabe\xbb;\xabx2\xbb", "\xaby\xbb<?ACE \xabd\xbb?>", "\xaby\xbb<Br/>\xabx2\xbb"])),
])
BH = dict(AH, w="unique", c=(0, 1, ("not", "->\r")), n=(1, 1, ("not", "\"<>\r")))
BP = [[("p", "p", [("one", "x\xabt#\xbb"), ("other", "y\xabt#\xbb")], {}, n), ("s", "n", "\xabt#\xbb")] for n in (0, 1, 2)]
check("C38", [
    case("entries", "harness.beta_h:extract", "", params=dict(specs=AS[:3] + [AS[3]] + BP + AM, holes=BH, heads=3),
         thorough=dict(holes=dict(BH, t=(0, 2, ("not", "<\r")), c=(0, 2, ("not", "->\r"))))),
    case("whitespace", "harness.beta_h:extract", "", params=dict(specs=[AM[k] for k in (0, 3)] + BP[:2], holes=dict(BH, w=AW)),
         thorough=dict(specs=AM + BP)),
    case("subsets", "harness.beta_h:subset", "", params=dict(specs=AD + BP, holes=BH)),
    case("shapes", "harness.beta_h:shapes", "", params=dict(docs=[
        ('<string-array name="a"><item x="long enough a text">\xabx\xbb</item><item>b</item>\n</string-array>\n',
         (("a[0]", ((5, "\xabx\xbb"),)), ("a[1]", ((5, "b"),)))),
        ('<string-array name="a">\n<!-- <item>\xaby\xbb</item> -->\n<item y="">\xabx\xbb</item></string-array>\n', (("a[0]", ((5, "\xabx\xbb"),)),)),
        ('<plurals name="p">\n  <!--\xaby\xbb-->\n  <item quantity="one">1</item>\n  <item quantity="other">\xabx\xbb</item>\n</plurals>\n',
         (("p", ((1, "1"), (5, "\xabx\xbb"))),)),
        ('<plurals name="p"><!--\xaby\xbb--><item quantity="other">\xabx\xbb</item></plurals>\n', (("p", ((5, "\xabx\xbb"),)),)),
        ('<plurals name="p"><item quantity="other">\xabx\xbb</item><!--\xaby\xbb--></plurals>\n', (("p", ((5, "\xabx\xbb"),)),)),
        ('<!-- <string name="no">\xaby\xbb</string> --><string name="a">\xabx\xbb<b u="1">c</b><br/></string>\n',
         (("a", ((5, "\xabx\xbb<b u=\"1\">c</b><br/>"),)),)),
        ('<string name="a">\xabx\xbb<![CDATA[\xaby\xbb<b>]]></string>\n', (("a", ((5, "\xabx\xbb<![CDATA[\xaby\xbb<b>]]>"),)),)),
        ('<string name="a">\xabx\xbb<!--\xaby\xbb-->c</string>\n', (("a", ((5, "\xabx\xbb<!--\xaby\xbb-->c"),)),)),
        ('<plurals name="p"></plurals><string name="a">\xabx\xbb</string>\n', (("a", ((5, "\xabx\xbb"),)),)),
        ('<string-array name="p"></string-array><string name="a" u=\'"\xaby\xbb\'>\xabx\xbb</string>\n', (("a", ((5, "\xabx\xbb"),)),)),
        ], holes=dict(x=(1, 2, ("not", "\r<")), y=(0, 2, "ab <\n")))),
])
check("C39", [
    case("strings", "harness.testbed_h:through", "", params=dict(docs=[
        ("json", '{"a": "\xabx\xbb", "\xaby\xbb": "b"}'), ("structured", '{"a": {"string": "\xabx\xbb", "context": "\xaby\xbb", "character_limit": 5}}'),
        ("po", 'msgid ""\nmsgstr ""\n\n#. \xaby\xbb\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "\xabx\xbb"\nmsgstr[1] "c"\n\nmsgid "d"\nmsgstr "e"\n'),
        ("text", "\xabx\xbb\n\xaby\xbb"), ("android", '<resources>\n<!--\xaby\xbb--><plurals name="a"><item quantity="one">\xabx\xbb</item></plurals><string name="b">c</string></resources>'),
        ("yaml", "a: \"\xaby\xbb\"\nb: [c, '\xabx\xbb']\n"),
        ], holes=dict(x=(0, 1, ("not", "\r")), y=(0, 1, ("not", "\r")))), thorough=dict(holes=dict(x=(0, 3, ("not", "\r")), y=(0, 1, ("not", "\r"))))),
    case("Markdown", "harness.testbed_h:through", "", params=dict(docs=[("markdown", "# \xabx\xbb\n\n* \xaby\xbb\n")], holes=dict(x=(0, 1, MD), y=(0, 1, MD)))),
    case("translations", "harness.testbed_h:through", "", params=dict(new=(0, 2, ("not", "\r")), docs=[
        (k, n) for k in ("json", "structured", "arb", "chrome", "text", "po", "srt", "vtt", "android", "stringsdict", "xml") for n in (0, 1)], holes={})),
])
NOT_APPLICABLE = {}

YCC = ("not", "\n\r\x85\u2028\u2029")
check("C40", [
    case("comments", "harness.yaml_h:comments", "", params=dict(docs=[
        "#\xabx\xbb\na: b # t\n#\xaby\xbb\nc: d\n", "# \xabx\xbb\n\n#\xaby\xbb\n  # z\na: |\n  b\n# q\n#\xabx\xbb\nc: d\n",
        "#\xabx\xbb\np:\n  #\xaby\xbb\n  q: r\n  # z\n  s:\n    t: u\n", "#\xabx\xbb\n-   #\xaby\xbb\n  a\n# b\n- c\n",
        "# x\na: 5 #\xabx\xbb\nb: c\n#\xaby\xbb\n\n \nd: {e: f, # g\n  # h\n  i: j}\n",
        "k:\n  # \xabx\xbb\n  v\nl: 'm\n  n' # o\n  \nq: r\n# \xaby\xbb", "# a\nk: &b !t c # \xabx\xbb\nd: *b\n#\xaby\xbb\ne:\n\n  f\n",
        "#\xabx\xbb\n- >-\n  a\n  # b\n\n#\xaby\xbb\n- \"c\" #\xaby\xbb\n- - d\n  # e\n  - f\n"], holes=dict(x=(0, 2, YCC), y=(0, 1, YCC))),
         thorough=dict(holes=dict(x=(0, 3, YCC), y=(0, 2, YCC)))),
    case("anything between two texts", "harness.yaml_h:comments", "", params=dict(docs=[
        "\xabx\xbba: b\n", "a: b\n\xabx\xbbc: d\n", "a: b\xabx\xbbc: d\n", "a:\n\xabx\xbb  b\n", "a: |\n  b\n\xabx\xbbc: d\n", "- a\n\xabx\xbb- b\n",
        "#a\n\xabx\xbb\n#b\na: b\n"], holes=dict(x=(0, 3, "# \n:xa-"))), thorough=dict(holes=dict(x=(0, 5, "# \n:xa-")))),
    case("plurals", "harness.yaml_h:plural_comments", "", params=dict(docs=[
        ("# r\nen:\n  # \xabx\xbb\n  a:\n    # y\n    one: b # z\n    # u\n    other: c # v\n  # \xaby\xbb\n  d: e\n", (("a", "y"), ("d", "\xaby\xbb"))),
        ("en:\n  # \xabx\xbb\n  a: {one: b, # z\n    # u\n    other: c}\n  # \xaby\xbb\n  d: e # f\n", (("a", "\xabx\xbb"), ("d", "\xaby\xbb"))),
        ("en:\n  b: c # z\n  a:\n    one: |\n      b\n    other: >-\n      c\n  # \xaby\xbb\n  d: e # f\n  h: i", (("b", ""), ("a", ""), ("d", "\xaby\xbb"), ("h", ""))),
        ], holes=dict(x=(0, 1, YCC), y=(0, 2, YCC)))),
])

# words of the formats, with a character more or less
CHECKS["C08"]["cases"][:0] = [
    case("words of structured JSON", "harness.near_h:near", "",
         params=dict(kind="structured", m=(0, 1, "cdefglmnoprstvx._-A"), avoid=[])),
]
CHECKS["C09"]["cases"][:0] = [
    case("words of ARB", "harness.near_h:near", "",
         params=dict(kind="arb", m=(0, 1, "@acdeilnoprstxy._-A"), avoid=[])),
]
CHECKS["C10"]["cases"][:0] = [
    case("words of Chrome v3", "harness.near_h:near", "",
         params=dict(kind="chrome3", m=(0, 1, "acdegimnoprst._-A"), avoid=['message', 'description'])),
]
CHECKS["C10"]["cases"][:0] = [
    case("words of Chrome", "harness.near_h:near", "",
         params=dict(kind="chrome", m=(0, 1, "cdeinoprst_-A"), avoid=['message', 'description'])),
]
CHECKS["C26"]["cases"][:0] = [
    case("words of strings dictionaries", "harness.near_h:near", "",
         params=dict(kind="stringsdict", m=(0, 1, "NSactegiknorvwL-A"), avoid=['zero', 'one', 'two', 'few', 'many', 'other', 'NSStringFormatSpecTypeKey', 'NSStringFormatValueTypeKey'])),
]
CHECKS["C27"]["cases"][:0] = [
    case("words of customizable XML", "harness.near_h:near", "",
         params=dict(kind="customxml", m=(0, 1, "abceginorstvxky-A"), avoid=['base', 'variant', 'name', 'key', 'context', 'string', 'section', 'strings'])),
]
CHECKS["C19"]["cases"][:0] = [
    case("words of PO", "harness.near_h:near", "",
         params=dict(kind="po", m=(0, 1, "fuzyab-A"), avoid=[])),
]
HT = ("or", "\t\n\x85\x07\u2028", ("range", 0x20, 0x7e), ("range", 0x4e00, 0x9fff))
HISTORY = dict(events=["parse", "compile", "some", "none"], x=(0, 1, HT), t=(1, 1, HT))
check("C41", [
    case(name + ", history", "harness.history_h:packages", "",
         params=dict(kinds=kinds, events=["parse", "compile", "none"], x=(0, 1, "a1 "), t=(1, 1, "a1&")),
         thorough=dict(x=(0, 1, XT), t=(1, 2, XT)))
    for name, kinds in [("InDesign", ["indesign"]), ("workbooks", ["xlsx"]), ("documents", ["docx"]), ("slides", ["pptx", "pptx2"])]
] + [
    case(name + ", " + what, "harness.history_h:" + what, "", params=dict(kinds=kinds, **params), thorough=more)
    for name, kinds in [("JSON", ["json", "structured", "arb", "chrome", "chrome3"]), ("lines", ["text", "srt", "vtt"]),
                        ("PO", ["po", "po source"]), ("XML", ["android", "unescaped", "beta", "stringsdict", "xml"]),
                        ("YAML", ["yaml", "i18n"]), ("Markdown", ["md", "md2", "jsx"])]
    for what, params, more in [("history", dict(HISTORY, t=(1, 1, MD)) if name == "Markdown" else HISTORY, dict(x=(0, 2, HT))),
                               ("repeated", dict(x=(1, 1, HT), t=(1, 1, "a'\"\\:")), dict(x=(1, 2, HT), t=(1, 1, HT)))]
])
PART = (0, 4, "./a")
NAMES = [["entry", "\xabx\xbb"], ["entry", "\xabx\xbb/a"], ["entry", "a/\xabx\xbba"]]
check("C42", [
    case("names of files", "harness.scratch_h:names", "", params=dict(kinds=["docx", "pptx", "xlsx"], places=NAMES, x=PART)),
    case("names of documents", "harness.scratch_h:names", "", params=dict(kinds=["docx"], x=PART, places=[
        ["part", "word/document.xml", y] for y in ["\xabx\xbb", "\xabx\xbb/word/document.xml", "word/\xabx\xbb", "word/\xabx\xbbdocument.xml"]])),
    case("names of slides", "harness.scratch_h:names", "", params=dict(kinds=["pptx", "pptx2"], x=PART, places=[
        ["part", "/ppt/slides/slide1.xml", y] for y in ["\xabx\xbb", "\xabx\xbbslide1.xml", "/ppt/\xabx\xbb/slide1.xml", "/ppt/slides/\xabx\xbbslide1.xml"]])),
    case("names of sheets", "harness.scratch_h:names", "", params=dict(kinds=["xlsx"], x=PART, places=[
        ["part", name, y % base] for name, base in [("/xl/worksheets/sheet1.xml", "worksheets/sheet1.xml"), ("/xl/workbook.xml", "workbook.xml"),
                                             ("/xl/sharedStrings.xml", "sharedStrings.xml")]
        for y in ["\xabx\xbb/xl/%s", "/xl\xabx\xbb/%s"]])),
    case("what fails", "harness.scratch_h:faults", "", params=dict(kinds=["docx", "pptx", "pptx2", "xlsx"])),
    case("broken packages", "harness.scratch_h:broken", "", params=dict(kinds=["docx", "pptx", "pptx2", "xlsx"], x=(1, 2, "aTpe"))),
])
