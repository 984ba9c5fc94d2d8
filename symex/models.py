"""Models for library code implemented outside Python."""
import copy
import json
import os
import os.path
import re
import unicodedata

from . import core, isets, rt, sstr


INERT = {}


def inert_in(form):
    """Characters that stay as they are next to any starter."""
    second = set(chr(c) for c in list(range(0x1161, 0x1176)) + list(range(0x11A8, 0x11C3)))
    for c in range(isets.MAXCP + 1):
        d = unicodedata.decomposition(chr(c)).split()
        if len(d) == 2 and d[0][0] != "<":
            second.add(chr(int(d[1], 16)))
    return lambda c: (unicodedata.combining(c) == 0 and c not in second and
                      unicodedata.normalize(form, c) == c)


class OpaqueFloat(float):
    """A float read from symbolic digits: only its text is kept until its value is needed."""
    def value(self):
        return float(rt.deep_concrete(self.text, "float"))

    def __rmul__(self, o):
        if o == 1:
            return self
        if o != -1:
            return o * self.value()
        x = OpaqueFloat(0.5)
        x.text = "-" + self.text
        return x

    def __eq__(self, o):
        if type(o) is OpaqueFloat:
            if self.text is o.text:
                return True
            return self.value() == o.value()
        if not isinstance(o, (int, float)):
            return False
        return self.value() == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.value())

    def __bool__(self):
        return rt.pat_method(ZERO, "fullmatch", (self.text,), {}) is None

    def __format__(self, spec):
        return format(self.value(), spec)

    def __reduce__(self):
        raise core.EngineError("pickling a float with symbolic digits")


def _concrete(name):
    method = getattr(float, name)

    def call(self, *a):
        return method(self.value(), *[x.value() if type(x) is OpaqueFloat else x for x in a])
    setattr(OpaqueFloat, name, call)


for _name in ("add radd sub rsub mul truediv rtruediv floordiv mod int str repr lt le gt ge abs neg "
              "float trunc").split():
    _concrete("__%s__" % _name)


ZEROS = "".join(chr(c) for c in range(isets.MAXCP + 1) if unicodedata.decimal(chr(c), None) == 0)
ZERO = re.compile(r"\s*[-+]*[%s_.]+(?:[eE].*)?\s*" % ZEROS)


def install():
    from symmodels import jsonm

    digits = r"\d+(?:_\d+)*"
    any_float = re.compile(r"\s*[-+]?(?:(?:D\.?(?:D)?|\.D)(?:[eE][-+]?D)?"
                           r"|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*".replace(
                               "D", digits))

    def m_float(text):
        if rt.pat_method(any_float, "fullmatch", (text,), {}) is None:
            raise ValueError("could not convert string to float")
        return number_value(text)

    rt.FLOATS.append(m_float)

    def number_value(text):
        if type(text) is str:
            return float(text)
        x = OpaqueFloat(0.5)
        x.text = text
        return x
    jsonm.number_value = number_value

    def m_loads(f, a, k):
        if a and type(a[0]) is rt.SymBytes:
            a = (a[0].decode("utf-8"),) + tuple(a[1:])
        if a and type(a[0]) is str and not k:
            return json.loads(*a)
        k = {x: y for x, y in k.items() if x in ("object_pairs_hook", "object_hook")}
        return jsonm.loads(a[0], **k)

    def m_dumps(f, a, k):
        if not rt.has_sym(a[0], 8):
            return json.dumps(*a, **k)
        k = {x: y for x, y in k.items()
             if x in ("ensure_ascii", "indent", "separators", "sort_keys")}
        return jsonm.dumps(a[0], **k)

    rt.MODELS[json.loads] = m_loads
    rt.MODELS[json.dumps] = m_dumps

    def m_exists(f, a, k):
        """A text is never the name of an existing file."""
        if any(type(x) in rt.SYM for x in a):
            return False
        return f(*a, **k)
    def m_normalize(f, a, k):
        """Characters that no normalisation touches stay symbolic, others are enumerated."""
        form, s = a
        if type(s) is not sstr.SymStr:
            return f(form, s)
        inert = INERT.get(form)
        if inert is None:
            inert = INERT[form] = isets.by_pred("inert:" + form, inert_in(form))
        out = []
        n = len(s)
        for i in range(n):
            c = s[i]
            if type(c) is not str:
                plain = bool(core.In(s.item(i), inert))
                after = s[i + 1] if i + 1 < n else "a"
                if not plain or (type(after) is str and
                                 not isets.inter(inert, ((ord(after), ord(after)),))):
                    c = sstr.concretise(c, "str.normalize")
            out.append(c)
        res = []
        run = ""
        for c in out:
            if type(c) is str:
                run += c
            else:
                res += [f(form, run), c]
                run = ""
        return sstr.from_items(res + [f(form, run)])
    for fn in (unicodedata.normalize, getattr(unicodedata.normalize, "__func__", None)):
        rt.MODELS[fn] = m_normalize

    def m_category(f, a, k):
        c = a[0]
        if type(c) is not sstr.SymStr:
            return f(c)
        if len(c) != 1:
            raise TypeError("category() argument must be a unicode character")
        item = c.item(0)
        for name in CATEGORIES:
            if core.In(item, isets.by_pred("category:" + name, lambda x: f(x) == name)):
                return name
        raise core.EngineError("category of a character")
    for fn in (unicodedata.category, getattr(unicodedata.category, "__func__", None)):
        rt.MODELS[fn] = m_category

    for fn in (os.path.exists, os.path.isfile):
        rt.MODELS[fn] = m_exists


CATEGORIES = ("Ll Lu Lo Nd Zs Po Pd Ps Pe Pi Pf Pc Sm Sc Sk So Lt Lm Mn Mc Me Nl No Zl Zp Cc Cf Cs Co "
              "Cn").split()


def install_package():
    """The packages of InDesign, in memory."""
    import io

    import ucf

    from symmodels import files
    from . import zips

    def m_zipped(f, a, k):
        files.reset()
        return files.Archive(list(a[0]))
    rt.MODELS[io.BytesIO] = lambda f, a, k: files.Buffer(*a, **k)
    rt.MODELS[ucf.UCF] = lambda f, a, k: files.Package(*a, **k)
    rt.MODELS[zips.zipped] = m_zipped
    rt.MODELS[zips.unzipped] = lambda f, a, k: list(a[0].parts)


class Response(object):
    def __init__(self, content=b"", *a, **k):
        self.content = content


class Wire(object):
    """The JSON text of a message of the test bed, which is read by JSON again"""
    def __init__(self, data):
        self.data = data

    def read(self, x=None):
        x = self.data if x is None else x
        if isinstance(x, dict):
            return dict([(k if type(k) in (str, sstr.SymStr) else json.loads(json.dumps({k: 0}))
                          and str(k), None if v is None else self.read(v)) for k, v in dict.items(x)])
        if isinstance(x, (list, tuple)):
            return [None if v is None else self.read(v) for v in x]
        return x


def install_django():
    """The messages of the test bed, in memory."""
    from django.http import HttpResponse
    rt.MODELS[HttpResponse] = lambda f, a, k: Response(*a, **k)
    loads = rt.MODELS[json.loads]
    dumps = rt.MODELS[json.dumps]

    def m_loads(f, a, k):
        if a and type(a[0]) is Wire and not k:
            return a[0].read()
        return loads(f, a, k)

    def m_dumps(f, a, k):
        if type(a[0]) is dict and "action" in a[0] and not k:
            return Wire(a[0])
        return dumps(f, a, k)
    rt.MODELS[json.loads] = m_loads
    rt.MODELS[json.dumps] = m_dumps
    import traceback
    rt.MODELS[traceback.format_exc] = lambda f, a, k: "Traceback"


def install_office():
    """BeautifulSoup and the files of the scratch folder, in memory."""
    import io
    import shutil
    import tempfile
    import zipfile

    import bs4

    from symmodels import files, soup
    from . import zips

    tmp = tempfile.gettempdir() + "/"

    def ours(path):
        return isinstance(path, sstr.SymStr) or isinstance(path, str) and path.startswith(tmp)

    def m_open(f, a, k):
        if a and ours(a[0]):
            return files.File(*a, **k)
        return f(*a, **k)
    rt.MODELS[io.open] = m_open
    rt.MODELS[open] = m_open
    rt.MODELS[bs4.BeautifulSoup] = lambda f, a, k: soup.parse(*a, **k)
    rt.MODELS[zipfile.ZipFile] = lambda f, a, k: files.Zip(*a, **k)
    rt.MODELS[os.mkdir] = rt.MODELS[os.makedirs] = lambda f, a, k: files.mkdir(*a, **k)
    rt.MODELS[os.remove] = rt.MODELS[os.unlink] = lambda f, a, k: files.remove(*a, **k)
    rt.MODELS[shutil.rmtree] = lambda f, a, k: files.rmtree(*a, **k)
    real = os.path.exists

    def m_exists(f, a, k):
        return files.exists(a[0]) if ours(a[0]) else real(*a, **k)
    rt.MODELS[os.path.exists] = rt.MODELS[os.path.isfile] = m_exists

    def m_zipped(f, a, k):
        files.reset()
        return files.Archive(list(a[0]))
    rt.MODELS[zips.zipped] = m_zipped
    rt.MODELS[zips.unzipped] = lambda f, a, k: list(a[0].parts)
    rt.MODELS[zips.scratch] = lambda f, a, k: files.Scratch()
    old_copy = rt.MODELS[copy.copy]

    def m_copy(f, a, k):
        return a[0].clone() if isinstance(a[0], (soup.Tag, soup.Text)) else old_copy(f, a, k)
    rt.MODELS[copy.copy] = m_copy
    old_instance = rt.MODELS[isinstance]

    def m_isinstance(f, a, k):
        if type(a[0]) is soup.Text:
            return isinstance(a[0], a[1]) or rt._sub(str, a[1])
        return old_instance(f, a, k)
    rt.MODELS[isinstance] = m_isinstance
    rt.TEXTS.append(soup.Text)
