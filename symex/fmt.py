"""str.format / % / f-strings with symbolic arguments."""
import string as _string

from . import core
from .sstr import SymStr, from_items, concretise
from .sint import SymInt, to_str, to_hex, concretise_int

_formatter = _string.Formatter()


def sym(x):
    t = type(x)
    return t is SymStr or t is SymInt


def text(x):
    """str(x) with symbolic results."""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return to_str(x)
    if isinstance(x, core.SymBool):
        return str(bool(x))
    if t in (list, tuple, dict, set):
        return _repr(x)
    from . import rt
    return rt.to_text(x)


def _repr(x):
    """repr for messages: exact for plain text without quotes or escapes."""
    t = type(x)
    if t is SymStr:
        return from_items(["'", x, "'"])
    if t is SymInt:
        return to_str(x)
    if t is list or t is tuple:
        out = ["[" if t is list else "("]
        for i, y in enumerate(x):
            if i:
                out.append(", ")
            out.append(_repr(y))
        if t is tuple and len(x) == 1:
            out.append(",")
        out.append("]" if t is list else ")")
        return from_items(out)
    if t is dict:
        out = ["{"]
        for i, (k, v) in enumerate(x.items()):
            if i:
                out.append(", ")
            out += [_repr(k), ": ", _repr(v)]
        out.append("}")
        return from_items(out)
    r = repr(x)
    return r


def one(val, conv, spec):
    if conv == "r" or conv == "a":
        val = _repr(val)
    elif conv == "s":
        val = text(val)
    if not spec:
        if sym(val) or isinstance(val, (list, tuple, dict, set, core.SymBool)):
            return text(val)
        return format(val, "")
    if type(val) is SymInt:
        return fmt_int(val, spec)
    if type(val) is SymStr:
        return fmt_str(val, spec)
    return format(val, spec)


def fmt_int(val, spec):
    import re
    m = re.match(r"^(0?)(\d*)([xX])$", spec)
    if m:
        s = to_hex(val, m.group(3) == "X")
        w = int(m.group(2) or 0)
        return from_items([("0" if m.group(1) else " ") * (w - len(s)), s])
    m = re.match(r"^(0?)(\d*)d?$", spec)
    if not m:
        return format(concretise_int(val), spec)
    s = to_str(val)
    w = int(m.group(2) or 0)
    if m.group(1):
        return s.zfill(w)
    return s.rjust(w)


def fmt_str(val, spec):
    import re
    m = re.match(r"^(?:(.)?([<>^]))?(0)?(\d+)?(?:\.(\d+))?s?$", spec)
    if not m:
        return format(concretise(val), spec)
    fill, al, zero, w, prec = m.groups()
    if zero and not w:
        w, zero = "0", None
    if zero:
        if not al:
            return format(concretise(val), spec)
        fill = fill or "0"
    if prec:
        val = val[:int(prec)]
    if w:
        f = {"<": "ljust", ">": "rjust", "^": "center"}[al or "<"]
        val = getattr(val, f)(int(w), fill or " ")
    return val


def format_(fs, args, kwargs):
    if type(fs) is SymStr:
        return _format_sym(fs, args, kwargs)
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(fs):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec and "{" in spec:
            spec = format_(spec, args, kwargs)
        first, rest = _string._string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            obj = getattr(obj, k) if is_attr else obj[k]
        out.append(one(obj, conv, spec))
    return from_items(out)


def _format_sym(fs, args, kwargs):
    """Format string with symbolic characters: braces are recognised by forking."""
    out = []
    i = 0
    n = len(fs)
    auto = 0
    while i < n:
        c = fs[i]
        if c == "{":
            if i + 1 < n and fs[i + 1] == "{":
                out.append("{")
                i += 2
                continue
            j = fs.find("}", i + 1)
            if j < 0:
                raise ValueError("expected '}' before end of string")
            field = concretise(fs[i:j + 1], "format field")
            sub = field[1:-1]
            if sub == "" or sub[0] in ":!":
                field = "{" + str(auto) + sub + "}"
                auto += 1
            out.append(format_(field, args, kwargs))
            i = j + 1
        elif c == "}":
            if i + 1 < n and fs[i + 1] == "}":
                out.append("}")
                i += 2
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            out.append(c)
            i += 1
    return from_items(out)


def percent(fs, args):
    if type(fs) is SymStr:
        fs = concretise(fs, "% format")
    import re
    out = []
    i = 0
    idx = 0
    tup = args if type(args) is tuple else (args,)
    pat = re.compile(r"%(?:\((.*?)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])", re.S)
    for m in pat.finditer(fs):
        out.append(fs[i:m.start()])
        i = m.end()
        key, flags, width, prec, ch = m.groups()
        if ch == "%":
            out.append("%")
            continue
        if key is not None:
            val = args[key]
        else:
            val = tup[idx]
            idx += 1
        if not sym(val) and not isinstance(val, (list, tuple, dict, core.SymBool)):
            out.append(("%" + flags + (width or "") + ("." + prec if prec else "") + ch) % (val,)
                       if ch != "s" else one(text(val), None, _sspec(flags, width, prec)))
            continue
        if ch == "s":
            out.append(one(text(val), None, _sspec(flags, width, prec)))
        elif ch == "r":
            out.append(_repr(val))
        elif ch in "di":
            if type(val) is SymStr:
                raise TypeError("%d format: a number is required, not str")
            if type(val) is SymInt:
                out.append(fmt_int(val, ("0" if "0" in flags else "") + (width or "")))
            else:
                out.append("%d" % int(val))
        elif ch in "xX" and type(val) is SymInt and flags in ("", "0"):
            out.append(fmt_int(val, flags + (width or "") + ch))
        else:
            out.append(("%" + flags + (width or "") + ch) % concretise(concretise_int(val)))
    out.append(fs[i:])
    if type(args) is tuple and idx < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return from_items(out)


def _sspec(flags, width, prec):
    s = ""
    if width:
        s = ("<" if "-" in flags else ">") + width
    if prec:
        s += "." + prec
    return s


def join_parts(parts):
    return from_items(parts)
