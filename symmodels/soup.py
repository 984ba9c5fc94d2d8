"""BeautifulSoup(text, "xml") on texts with symbolic characters: the part of bs4 4.9 with lxml that
is used for office documents, for well-formed XML without declarations inside the document."""


ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}
SPACES = " \t\n"


class Malformed(Exception):
    """lxml would guess; nothing is said about such documents"""


class Text(object):
    """NavigableString"""
    __symtext__ = True

    def __init__(self, text):
        self.data = text
        self.parent = None

    def __str__(self):
        return self.data

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return len(self.data) > 0

    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, Text) else other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    def __add__(self, other):
        return self.data + (other.data if type(other) is Text else other)

    def __radd__(self, other):
        return other + self.data

    def __getitem__(self, k):
        return self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, x):
        return x in self.data

    def __getattr__(self, name):
        if name[:2] == "__" or name == "data":
            raise AttributeError(name)
        if name == "text" or name == "string":
            return self.data
        return getattr(self.data, name)

    def find_parent(self, name=None, attrs={}):
        return up(self.parent, name, attrs)

    def extract(self):
        if self.parent is not None:
            del self.parent.contents[place(self)]
        self.parent = None
        return self

    def insert_before(self, *new):
        insert_before(self, new)

    def replace_with(self, new):
        return replace(self, new)
    replaceWith = replace_with

    def clone(self):
        return Text(self.data)


class Tag(object):
    def __init__(self, name, prefix=None, attrs=None):
        self.name = name
        self.prefix = prefix
        self.attrs = {} if attrs is None else attrs
        self.contents = []
        self.parent = None

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.contents)

    def __iter__(self):
        return iter(self.contents)

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, Tag):
            return False
        if self.name != other.name or len(self.contents) != len(other.contents):
            return False
        if self.attrs != other.attrs:
            return False
        for i in range(len(self.contents)):
            if self.contents[i] != other.contents[i]:
                return False
        return True

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    def __getitem__(self, key):
        return self.attrs[key]

    def __setitem__(self, key, value):
        self.attrs[key] = value

    def __delitem__(self, key):
        self.attrs.pop(key, None)

    def __contains__(self, x):
        return x in self.contents

    def __getattr__(self, name):
        if name[:2] == "__" or name == "contents":
            raise AttributeError(name)
        return self.find(name)

    def __call__(self, *a, **k):
        return self.find_all(*a, **k)

    def __copy__(self):
        return self.clone()

    def clone(self):
        new = Tag(self.name, self.prefix, dict(self.attrs))
        for c in self.contents:
            new.append(c.clone())
        return new

    def get(self, key, default=None):
        return self.attrs.get(key, default)

    def has_attr(self, key):
        return key in self.attrs

    @property
    def children(self):
        return iter(self.contents)

    @property
    def descendants(self):
        return iter(descendants(self))

    @property
    def text(self):
        return self.get_text()

    def get_text(self, separator="", strip=False):
        out = [t.data for t in descendants(self) if type(t) is Text]
        if strip:
            out = [t.strip() for t in out]
            out = [t for t in out if t]
        return separator.join(out)

    @property
    def strings(self):
        return iter([t for t in descendants(self) if type(t) is Text])

    @property
    def string(self):
        if len(self.contents) != 1:
            return None
        only = self.contents[0]
        return only if type(only) is Text else only.string

    @string.setter
    def string(self, new):
        self.clear()
        self.append(Text(str(new)))

    def find_all(self, name=None, attrs={}, recursive=True, text=None, limit=None, string=None,
                 **more):
        if text is None:
            text = string
        if more:
            attrs = dict(attrs)
            attrs.update(more)
        found = []
        for x in (descendants(self) if recursive else list(self.contents)):
            if text is not None and name is None and not attrs:
                ok = type(x) is Text and (text is True or x.data == text)
            else:
                ok = type(x) is Tag and fits(x, name, attrs)
            if ok:
                found.append(x)
                if limit and len(found) >= limit:
                    break
        return found
    findAll = find_all

    def find(self, name=None, attrs={}, recursive=True, text=None, **more):
        found = self.find_all(name, attrs, recursive, text, 1, **more)
        return found[0] if found else None

    def find_parent(self, name=None, attrs={}):
        return up(self.parent, name, attrs)

    def find_parents(self, name=None, attrs={}):
        out = []
        x = up(self.parent, name, attrs)
        while x is not None:
            out.append(x)
            x = up(x.parent, name, attrs)
        return out

    @property
    def next_sibling(self):
        i = place(self) + 1
        return self.parent.contents[i] if i < len(self.parent.contents) else None

    @property
    def previous_sibling(self):
        i = place(self) - 1
        return self.parent.contents[i] if i >= 0 else None

    def insert(self, at, new):
        if not isinstance(new, (Tag, Text)):
            new = Text(new)
        elif new.parent is not None:
            if new.parent is self and place(new) < at:
                at -= 1
            new.extract()
        new.parent = self
        self.contents.insert(min(at, len(self.contents)), new)

    def append(self, new):
        self.insert(len(self.contents), new)

    def extend(self, new):
        for x in list(new):
            self.append(x)

    def insert_before(self, *new):
        insert_before(self, new)

    def insert_after(self, *new):
        at = self.parent
        i = place(self) + 1
        for x in new:
            at.insert(i, x)
            i += 1

    def extract(self):
        if self.parent is not None:
            del self.parent.contents[place(self)]
        self.parent = None
        return self

    def decompose(self):
        self.extract()
        for x in descendants(self):
            x.parent = None
        self.contents = []

    def clear(self, decompose=False):
        for x in list(self.contents):
            x.extract()

    def replace_with(self, new):
        return replace(self, new)
    replaceWith = replace_with

    def unwrap(self):
        at = self.parent
        i = place(self)
        for x in list(reversed(self.contents)):
            at.insert(i, x)
        self.extract()
        return self

    def new_tag(self, name, namespace=None, nsprefix=None, attrs={}, **more):
        values = dict(attrs)
        values.update(more)
        return Tag(name, nsprefix, values)

    def new_string(self, text):
        return Text(text)

    def __str__(self):
        return self.decode()

    def decode(self, formatter=None):
        return "".join(write(self, formatter is not None))

    def encode(self, encoding="utf-8", formatter=None):
        return self.decode(formatter=formatter).encode(encoding)


class Soup(Tag):
    def __init__(self):
        Tag.__init__(self, "[document]")

    def decode(self, formatter=None):
        out = ['<?xml version="1.0" encoding="utf-8"?>\n']
        for x in self.contents:
            out.extend(write(x, formatter is not None))
        return "".join(out)


def place(x):
    for i, y in enumerate(x.parent.contents):
        if y is x:
            return i
    raise ValueError("not there")


def insert_before(x, new):
    for y in new:
        if y is x:
            raise ValueError("Can't insert an element before itself.")
        if isinstance(y, (Tag, Text)):
            y.extract()
        x.parent.insert(place(x), y)


def replace(x, new):
    if new is x:
        return x
    at = x.parent
    i = place(x)
    x.extract()
    at.insert(i, new)
    return x


def up(x, name, attrs):
    while x is not None and type(x) is not Soup:
        if fits(x, name, attrs):
            return x
        x = x.parent
    return None


def descendants(tag):
    out = []
    for x in tag.contents:
        out.append(x)
        if type(x) is Tag:
            out.extend(descendants(x))
    return out


def fits(tag, name, attrs):
    if name is not None and name is not True:
        if callable(name):
            if not name(tag):
                return False
        else:
            full = tag.name if tag.prefix is None else tag.prefix + ":" + tag.name
            names = name if isinstance(name, (list, tuple, set)) else [name]
            if tag.name not in names and full not in names:
                return False
    for key, want in attrs.items():
        have = tag.attrs.get(key)
        if want is True:
            if have is None:
                return False
        elif have is None:
            if want:
                return False
        elif callable(want):
            if not want(have):
                return False
        elif isinstance(want, (list, tuple, set)):
            if have not in want:
                return False
        elif want is None or have != want:
            return False
    return True


def write(x, quotes):
    """x as text; the formatter of spreadsheets escapes quotes everywhere"""
    if type(x) is Text:
        text = x.data.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        if quotes:
            text = text.replace('"', "&quot;")
        return [text]
    full = x.name if x.prefix is None else x.prefix + ":" + x.name
    out = ["<" + full]
    for k, v in x.attrs.items():
        if isinstance(v, (list, tuple)):
            v = " ".join(v)
        elif not isinstance(v, str):
            v = str(v)
        v = v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        quote = '"'
        if quotes:
            v = v.replace('"', "&quot;")
        elif '"' in v:
            if "'" in v:
                v = v.replace('"', "&quot;")
            else:
                quote = "'"
        out.append(" " + k + "=" + quote + v + quote)
    if not x.contents:
        out.append("/>")
        return out
    out.append(">")
    for c in x.contents:
        out.extend(write(c, quotes))
    out.append("</" + full + ">")
    return out


def character(c):
    """whether XML documents can contain a character"""
    n = ord(c)
    return n in (9, 10, 13) or 32 <= n <= 0xD7FF or 0xE000 <= n <= 0xFFFD or n >= 0x10000


def decoded(text, attr=False):
    """text with its entities replaced"""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if not character(c):
            raise Malformed("character")
        if c == "&":
            j = i + 1
            while j < len(text) and text[j] != ";":
                j += 1
            if j >= len(text):
                raise Malformed("entity")
            name = text[i + 1:j]
            if name[:2] == "#x" and name[2:]:
                c = chr(int(name[2:], 16))
            elif name[:1] == "#" and name[1:]:
                c = chr(int(name[1:]))
            elif name in ENTITIES:
                c = ENTITIES[name]
            else:
                raise Malformed("entity")
            i = j
        elif c == "\r":
            c = "\n"
            if i + 1 < len(text) and text[i + 1] == "\n":
                i += 1
        if attr and c in "\n\t" and text[i] != ";":
            c = " "
        out.append(c)
        i += 1
    return "".join(out)


def name_end(text, i):
    j = i
    while j < len(text) and (text[j] in ":_-." or text[j].isalnum()):
        j += 1
    if j == i or text[i] in "-.0123456789:":
        raise Malformed("name")
    return j


def parse(text, *kind, **more):
    """BeautifulSoup(text, "xml")"""
    soup = Soup()
    if text[:1] == "\ufeff":
        text = text[1:]
    at = soup
    i = 0
    n = len(text)
    if text[:5] == "<?xml":
        i = text.index("?>") + 2
    while i < n:
        if text[i] != "<":
            j = i
            while j < n and text[j] != "<":
                j += 1
            data = text[i:j]
            i = j
            if at is soup:
                if data.strip(" \t\r\n"):
                    raise Malformed("text outside")
                continue
            if "]]>" in data:
                raise Malformed("end of CDATA")
            data = decoded(data)
            if data.strip(" \n\t\f\r") == "":
                # as BeautifulSoup has it
                data = "\n" if "\n" in data else " "
            at.append(Text(data))
            continue
        i += 1
        if i < n and text[i] == "/":
            j = name_end(text, i + 1)
            full = text[i + 1:j]
            while j < n and text[j] in SPACES:
                j += 1
            if j >= n or text[j] != ">":
                raise Malformed("closing tag")
            if at is soup or full != (at.name if at.prefix is None else at.prefix + ":" + at.name):
                raise Malformed("closing tag")
            at = at.parent
            i = j + 1
            continue
        if i < n and text[i] in "!?":
            raise Malformed("declaration")
        if at is soup and soup.contents:
            raise Malformed("two roots")
        j = name_end(text, i)
        prefix, colon, name = text[i:j].rpartition(":")
        tag = Tag(name, prefix if colon else None)
        i = j
        while True:
            j = i
            while j < n and text[j] in SPACES:
                j += 1
            if j >= n:
                raise Malformed("tag")
            if text[j] in "/>":
                break
            if j == i:
                raise Malformed("attribute")
            k = name_end(text, j)
            key = text[j:k]
            while k < n and text[k] in SPACES:
                k += 1
            if k >= n or text[k] != "=":
                raise Malformed("attribute")
            k += 1
            while k < n and text[k] in SPACES:
                k += 1
            if k >= n or text[k] not in "\"'":
                raise Malformed("attribute")
            end = k + 1
            while end < n and text[end] != text[k]:
                end += 1
            value = text[k + 1:end]
            if end >= n or "<" in value or key in tag.attrs:
                raise Malformed("attribute")
            tag.attrs[key] = decoded(value, True)
            i = end + 1
        at.append(tag)
        if text[j] == "/":
            if j + 1 >= n or text[j + 1] != ">":
                raise Malformed("tag")
            j += 1
        else:
            at = tag
        i = j + 1
    if at is not soup:
        raise Malformed("end")
    return soup
