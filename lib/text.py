"""Text and files.  A text is a sequence of constant pieces and formatted values; two texts are the same
when their pieces are (adjacent constant pieces are merged, formatted texts are spliced in).  A file is
what was written to it; creating, writing and flushing are taken to succeed (C20 follows the failures)."""
import ast, re
from models import *
from models import val, lastref, fresh_root, T, M, TMODELS, MODELS, short
import models, maps
from vg import ok

FILE, PATH = ("FILE",), ("FILE", "path")
INJECTIVE = ("display", "lower_exp", "upper_exp", "debug")


def mk(ps):
    """text of the pieces; conditional pieces make a conditional text"""
    ps = list(ps)
    cond = [i for i, p in enumerate(ps) if is_tag(p, "struct") and isinstance(p.parts[1][1], D)]
    if cond:
        def one(*vs):
            qs = list(ps)
            for i, v in zip(cond, vs):
                qs[i] = Struct("fmt", ps[i].parts[1][0], v)
            return mk(qs)
        return lift2(one, *[ps[i].parts[1][1] for i in cond])
    out = []
    for p in ps:
        if is_tag(p, "str"):
            s = unq(p.parts[0])
            if s == "":
                continue
            if out and is_tag(out[-1], "str"):
                out[-1] = Str(out[-1].parts[0] + s)
                continue
            p = Str(s)
        out.append(p)
    return V("text", tuple(out))


def unq(s):
    """the compiler writes string constants with quotes and escapes"""
    if len(s) >= 2 and s[0] == s[-1] == '"':
        try:
            return ast.literal_eval(re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), s))
        except (ValueError, SyntaxError):
            raise Unsupported("string constant")
    return s


def is_text(v):
    return is_tag(v, "text") or is_tag(v, "str")


def textual(v):
    if isinstance(v, D):
        ls = [x for x in leaves(v) if x is not UNDEF]
        return bool(ls) and all(is_text(x) for x in ls)
    return is_text(v)


def pcs(v):
    return (v,) if is_tag(v, "str") else v.parts[0]


def totext(v):
    return lift2(lambda x: mk(pcs(x)), v)


def join(*vs):
    return lift2(lambda *xs: mk([p for x in xs for p in pcs(x)]), *vs)


def text_eq(a, b):
    def one(x, y):
        p, q = pcs(totext(x)), pcs(totext(y))
        if len(p) != len(q):
            return False
        r = True
        for u, w in zip(p, q):
            if u == w:
                continue
            if not (is_tag(u, "struct") and is_tag(w, "struct")) or u.parts[1][0] != w.parts[1][0]:
                return False
            e = equal(u.parts[1][1], w.parts[1][1])
            if u.parts[1][0].parts[0].split(":")[0] not in INJECTIVE or ".prec" in u.parts[1][0].parts[0]:
                e = g_or(e, lift(lambda c: c == C(1), enumvar(("sametext", u, w), 2)))
            r = g_and(r, e)
            if r is False:
                break
        return r
    return lift2(one, a, b)


# ---- formatting
def bytes_of(v):
    if is_tag(v, "opq") and isinstance(v.parts[0], tuple) and v.parts[0][0] == "const" and str(v.parts[0][1]).startswith('b"'):
        return ast.literal_eval(v.parts[0][1])
    return None


def template(b):
    """pieces of a format template: strings and (argument index, options)"""
    out, i, arg = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = int.from_bytes(b[i:i + 2], "little")
            out.append(b[i + 2:i + 2 + k].decode())
            i += 2 + k
        elif n >= 0xC0:
            o = []
            if n & 1:
                o.append("flags%x" % int.from_bytes(b[i:i + 4], "little"))
                i += 4
            if n & 2:
                o.append("width%d" % int.from_bytes(b[i:i + 2], "little"))
                i += 2
            if n & 4:
                o.append(".prec%d" % int.from_bytes(b[i:i + 2], "little"))
                i += 2
            if n & 8:
                arg = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 48:
                raise Unsupported("format width from an argument")
            out.append((arg, ":".join(o)))
            arg += 1
        else:
            raise Unsupported("format template")


for _n in ("display", "debug", "lower_exp", "upper_exp", "lower_hex", "upper_hex", "binary", "octal"):
    def _arg(eng, c, a, _n=_n):
        return Struct("fmtarg", Str(_n), val(eng, c, a))
    for _o in ("Argument", "rt::Argument"):
        MODELS["%s::new_%s" % (_o, _n)] = _arg


def shown(kind, o, v):
    if kind == "display" and not o and textual(v):
        return totext(v)
    return mk([Struct("fmt", Str(kind + (":" + o if o else "")), v)])


@M("Arguments::new")
def _(eng, c, t, args):
    b = bytes_of(val(eng, c, t))
    a = val(eng, c, args)
    if b is None or not is_tag(a, "lit"):
        return NotImplemented
    out = []
    for p in template(b):
        if isinstance(p, str):
            out.append(mk([Str(p)]))
        else:
            x = a.parts[0][p[0]]
            if not (is_tag(x, "struct") and x.parts[0] == "fmtarg"):
                return NotImplemented
            out.append(shown(x.parts[1][0].parts[0], p[1], x.parts[1][1]))
    return join(*out) if out else mk([])


@M("Arguments::from_str", "Arguments::from_str_nonconst")
def _(eng, c, s):
    v = val(eng, c, s)
    return totext(v) if textual(v) else NotImplemented


def _same(eng, c, a, *r):
    v = val(eng, c, a)
    return totext(v) if textual(v) else NotImplemented


for _k in ("fmt::format", "String::as_str", "String::as_mut_str", "str::to_string", "String::into_boxed_str", "str::as_bytes", "String::as_bytes",
           "String::into_bytes", "str::to_owned", "str::into_string"):
    MODELS[_k] = _same


@T("ToString", "to_string")
def _(eng, c, a):
    v = val(eng, c, a)
    if textual(v):
        return _same(eng, c, a)
    if isinstance(v, Rat) or isinstance(v, D) and all(isinstance(x, Rat) for x in leaves(v)):
        return shown("display", "", v)
    return NotImplemented


@M("String::new", "String::with_capacity")
def _(eng, c, *a):
    return mk([])


def append(eng, c, r, s):
    ref = lastref(eng, c, r)
    old, s = val(eng, c, r), val(eng, c, s)
    if not textual(s):
        b = bytes_of(s)
        if b is None:
            return None
        s = mk([Str(b.decode())])
    if is_tag(old, "struct") and old.parts[0] == "file":
        c.st[FILE] = join(c.st.get(FILE, mk([])), s)
        return True
    if is_tag(old, "lit") and not old.parts[0]:
        old = mk([])                          # an empty byte buffer
    if textual(old) and is_tag(ref, "ref"):
        eng.write(c.st, ref, join(old, s))
        return True
    return None


def _append(eng, c, r, s):
    return UNIT if append(eng, c, r, s) else NotImplemented


def _write(eng, c, r, s):
    return ok(UNIT) if append(eng, c, r, s) else NotImplemented


MODELS["String::push_str"] = _append
for _m in ("write_fmt", "write_str", "write_all"):
    TMODELS[("Write", _m)] = _write
    for _o in ("BufWriter", "LineWriter", "File"):
        MODELS["%s::%s" % (_o, _m)] = _write


@M("String::push")
def _(eng, c, r, ch):
    v = val(eng, c, ch)
    if is_tag(v, "opq") and isinstance(v.parts[0], tuple) and v.parts[0][0] == "const" and str(v.parts[0][1]).startswith("'"):
        return _append(eng, c, r, Str(ast.literal_eval(v.parts[0][1])))
    k = v.const() if isinstance(v, Rat) else None
    return NotImplemented if k is None else _append(eng, c, r, Str(chr(int(k))))


for _k, _m in (("Add", "add"), ("AddAssign", "add_assign")):
    _old = TMODELS[(_k, _m)]

    def _add(eng, c, a, b, _old=_old, _k=_k):
        x, y = val(eng, c, a), val(eng, c, b)
        if textual(x) and textual(y):
            if _k == "Add":
                return join(x, y)
            return _append(eng, c, a, b)
        return _old(eng, c, a, b)
    TMODELS[(_k, _m)] = _add

for _k in (("From", "from"), ("Into", "into")):
    _old = TMODELS[_k]

    def _conv(eng, c, a, _old=_old):
        v = val(eng, c, a)
        if textual(v) and maps.tyname(c.rty) == "String":
            return _same(eng, c, a)
        return _old(eng, c, a)
    TMODELS[_k] = _conv

_old_eq, _old_ne = TMODELS[("PartialEq", "eq")], TMODELS[("PartialEq", "ne")]


@T("PartialEq", "eq")
def _(eng, c, a, b):
    x, y = val(eng, c, a), val(eng, c, b)
    return text_eq(x, y) if textual(x) and textual(y) else _old_eq(eng, c, a, b)


@T("PartialEq", "ne")
def _(eng, c, a, b):
    x, y = val(eng, c, a), val(eng, c, b)
    return g_not(text_eq(x, y)) if textual(x) and textual(y) else _old_ne(eng, c, a, b)


_old_default = TMODELS[("Default", "default")]


@T("Default", "default")
def _(eng, c):
    return mk([]) if maps.tyname(c.rty) == "String" else _old_default(eng, c)


def text_order(a, b):
    """byte order, where it is known"""
    def one(x, y):
        out = []
        for t in (x, y):
            r = ""
            for p in pcs(totext(t)):
                if is_tag(p, "str"):
                    r += p.parts[0]
                elif p.parts[1][0].parts[0] == "display" and isinstance(p.parts[1][1], Rat) and p.parts[1][1].const() is not None and int(
                        p.parts[1][1].const()) == p.parts[1][1].const():
                    r += str(int(p.parts[1][1].const()))
                else:
                    raise Unsupported("order of texts")
            out.append(r.encode())
        return C(1) if out[0] == out[1] else C(0) if out[0] < out[1] else C(2)
    return models.mkord(lift2(one, a, b))


for _k in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
    _old = TMODELS[_k]

    def _cmp(eng, c, a, b, _old=_old, _k=_k):
        x, y = val(eng, c, a), val(eng, c, b)
        if textual(x) and textual(y):
            o = text_order(x, y)
            return o if _k[1] == "cmp" else some(o)
        return _old(eng, c, a, b)
    TMODELS[_k] = _cmp


# ---- keys of maps: the order of hashed texts is no order (a walk starts with the newest)
_old_kcmp = maps.kcmp


def kcmp(eng, c, a, b):
    x, y = val(eng, c, a), val(eng, c, b)
    if textual(x) and textual(y):
        return models.mkord(ite(text_eq(x, y), C(1), C(2)))
    return _old_kcmp(eng, c, a, b)


maps.kcmp = kcmp


# ---- files
@M("File::create")
def _(eng, c, p):
    c.st[FILE], c.st[PATH] = mk([]), val(eng, c, p)
    return ok(Struct("file"))


@M("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
def _(eng, c, *a):
    v = val(eng, c, a[-1])
    return v if is_tag(v, "struct") and v.parts[0] == "file" else NotImplemented


def _flush(eng, c, r):
    v = val(eng, c, r)
    return ok(UNIT) if is_tag(v, "struct") and v.parts[0] == "file" else NotImplemented


@M("BufWriter::into_inner", "LineWriter::into_inner")
def _(eng, c, r):
    v = val(eng, c, r)
    return ok(v) if is_tag(v, "struct") and v.parts[0] == "file" else NotImplemented


TMODELS[("Write", "flush")] = _flush
for _o in ("BufWriter", "LineWriter", "File"):
    MODELS["%s::flush" % _o] = _flush
    MODELS["%s::sync_all" % _o] = _flush


@M("fs::write")
def _(eng, c, p, s):
    v = val(eng, c, s)
    if not textual(v):
        return NotImplemented
    c.st[FILE], c.st[PATH] = totext(v), val(eng, c, p)
    return ok(UNIT)


def plain(v):
    """what a reader of the file sees: no comments, single blanks, numbers however they are written"""
    out = []
    skip = False
    for p in pcs(v):
        if is_tag(p, "str"):
            keep = ""
            for ch in unq(p.parts[0]):
                if ch == "#":
                    skip = True
                elif ch == "\n":
                    skip = False
                if not skip:
                    keep += ch
            out.append(Str(keep))
        elif not skip:
            k, x = p.parts[1]
            if k.parts[0].split(":")[0] in INJECTIVE and ".prec" not in k.parts[0]:
                p = Struct("fmt", Str("number"), x)
            out.append(p)
    t = [Str(re.sub(" *\n+", "\n", re.sub("[ \t]+", " ", p.parts[0]))) if is_tag(p, "str") else p for p in pcs(mk(out))]
    return Struct("plain", lit(tuple(t)))


@M("fs::read_to_string")
def _(eng, c, p):
    if FILE not in c.st or not same(c.st[PATH], val(eng, c, p)):
        return NotImplemented
    return ok(lift2(plain, c.st[FILE]))
