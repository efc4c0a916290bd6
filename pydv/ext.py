"""Assumed contracts on standard library modules (datetime, struct, files)."""
import ast
import datetime

import z3

from .core import (B, I, R, Obj, Unsupported, PyRaise, Value, Opaque, Conc,
                   Sym, StrV, Heap, SeqObj, is_z3, is_int, is_num, to_z3,
                   to_obj, zbool, zand, znot, cur)
from .interp import Builtin, TYPECALL, MODELS, py_raise
from .models import model, uf, it_items, zdiv, zmod

DAY = 86400 * 10 ** 6


class DateTimeV(Value):
    """A datetime: microseconds since 0001-01-01 00:00."""

    def __init__(self, us):
        self.us = us

    def subst(self, pairs):
        return DateTimeV(z3.substitute(to_z3(self.us), *pairs))

    def binop(self, interp, t, a, b):
        if t is ast.Add and isinstance(a, DateTimeV) and isinstance(
                b, DeltaV):
            us = a.us + b.us
        elif t is ast.Add and isinstance(a, DeltaV) and isinstance(
                b, DateTimeV):
            us = a.us + b.us
        elif t is ast.Sub and isinstance(a, DateTimeV) and isinstance(
                b, DeltaV):
            us = a.us - b.us
        elif t is ast.Sub and isinstance(a, DateTimeV) and isinstance(
                b, DateTimeV):
            return DeltaV(a.us - b.us)
        else:
            return NotImplemented
        if not cur().branch(zbool(zand(us >= 0, us < 3652059 * DAY))):
            py_raise(OverflowError, 'date value out of range')
        return DateTimeV(us)


def t_date(interp, args, kw):
    args = [interp.resolve(a) for a in args]
    if len(args) != 3 or kw or not all(is_int(a) for a in args):
        raise Unsupported('date()')
    a = [to_z3(x) for x in args]
    if not cur().branch(uf('date_ok', I, I, I, B)(*a)):
        py_raise(ValueError, 'day is out of range for month')
    return Opaque(uf('date', I, I, I, Obj)(*a), 'date')


TYPECALL[datetime.date] = t_date


class DeltaV(Value):
    def __init__(self, us):
        self.us = us

    def subst(self, pairs):
        return DeltaV(z3.substitute(to_z3(self.us), *pairs))

    def binop(self, interp, t, a, b):
        if isinstance(a, DateTimeV) or isinstance(b, DateTimeV):
            return DateTimeV.binop(None, interp, t, a, b)
        if isinstance(a, DeltaV) and isinstance(b, DeltaV):
            if t is ast.Add:
                return DeltaV(a.us + b.us)
            if t is ast.Sub:
                return DeltaV(a.us - b.us)
        if t is ast.Mult and is_int(b):
            from .models import mulz
            return DeltaV(mulz(to_z3(a.us), to_z3(b)))
        return NotImplemented


UNITS = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
         'hours', 'weeks')
MICRO = {'days': DAY, 'seconds': 10 ** 6, 'microseconds': 1,
         'milliseconds': 1000, 'minutes': 60 * 10 ** 6,
         'hours': 3600 * 10 ** 6, 'weeks': 7 * DAY}


def t_timedelta(interp, args, kw):
    vals = dict(zip(UNITS, args))
    vals.update(kw)
    us = 0
    for k, v in vals.items():
        v = interp.num(interp.resolve(v))
        if isinstance(v, float) and v == int(v):
            v = int(v)
        if not is_int(v):
            # a real number of units is rounded to the nearest microsecond
            if isinstance(v, z3.ArithRef) and len(vals) == 1:
                x = v * MICRO[k]
                f = z3.ToInt(x)
                d = x - z3.ToReal(f)
                h = z3.Q(1, 2)
                us = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(
                    f % 2 == 0, f, f + 1)))
                continue
            raise Unsupported('timedelta of fractions')
        us = us + MICRO[k] * v
    return DeltaV(us)


TYPECALL[datetime.timedelta] = t_timedelta


def t_datetime(interp, args, kw):
    args = [interp.resolve(a) for a in args]
    if not kw and all(isinstance(a, int) for a in args):
        try:
            return wrap_datetime(datetime.datetime(*args))
        except ValueError as e:
            py_raise(ValueError, str(e))
    raise Unsupported('symbolic datetime()')


TYPECALL[datetime.datetime] = t_datetime


def wrap_datetime(v):
    d = v - datetime.datetime(1, 1, 1)
    return DateTimeV((d.days * 86400 + d.seconds) * 10 ** 6 +
                     d.microseconds)


# ------------------------------------------------------------ struct

SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
         'q': 8, 'Q': 8, 'f': 4, 'd': 8, 's': 1, 'x': 1, 'c': 1, '?': 1}


def parse_fmt(fmt):
    """(big endian, [(code, count)]) of a struct format in standard sizes."""
    import re
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if not isinstance(fmt, str):
        raise Unsupported('symbolic struct format')
    big, body = False, fmt
    if fmt[:1] in '<>=!@':
        big = fmt[:1] in '>!'
        body = fmt[1:]
    if fmt[:1] not in '<>=!' and re.sub(r'[\d\sbBsxc?]', '', body):
        raise Unsupported('native struct format')
    out = []
    if not re.fullmatch(r'(\d*[a-zA-Z?]\s*)*', body):
        raise Unsupported('struct format %r' % fmt)
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', body):
        if c not in SIZES:
            raise Unsupported('struct code %s' % c)
        n = int(n) if n else 1
        if c == 's':
            out.append((c, n))
        else:
            out.extend([(c, 1)] * n)
    return big, out


def fmt_size(items):
    return sum(SIZES[c] * n for c, n in items)


# ---- bytes read from a file, and formats with sizes found there

CHUNK = 'chunk'


def chunk(f, p, n):
    """The n bytes at position p of file f."""
    return Opaque(uf(CHUNK, I, I, I, Obj)(
        to_z3(f), z3.simplify(to_z3(p)), z3.simplify(to_z3(n))), 'bytes')


def chunk_args(v):
    t = getattr(v, 'term', None)
    if t is not None and z3.is_app(t) and t.decl().name() == CHUNK:
        return t.children()
    return None


def byte_at(f, p):
    b = uf('byte_at', I, I, I)(to_z3(f), z3.simplify(to_z3(p)))
    cur().fact(z3.And(b >= 0, b <= 255))
    return b


def sym_items(fmt):
    """[('s', n)] of a format made of known texts and numbers."""
    from .core import const_value
    if isinstance(fmt, (str, bytes)):
        return parse_fmt(fmt)[1]
    t = getattr(fmt, 'term', None)
    if t is None:
        raise Unsupported('struct format')
    ps = []
    while z3.is_app(t) and t.decl().name() == 'strcat':
        ps.append(t.arg(0))
        t = t.arg(1)
    ps.append(t)
    out, num = [], None
    for t in ps:
        if z3.is_app(t) and t.decl().name() == 'str_of_int':
            if num is not None:
                raise Unsupported('struct format')
            num = t.arg(0)
            continue
        c = const_value(t)
        if not isinstance(c, str):
            raise Unsupported('struct format')
        if num is not None:
            if c[:1] != 's':
                raise Unsupported('struct format of symbolic count')
            out.append(('s', num))
            num, c = None, c[1:]
        if c and c[-1].isdigit():
            raise Unsupported('struct format')
        out.extend(parse_fmt(c)[1])
    if num is not None:
        raise Unsupported('struct format')
    return out


def item_size(items):
    r = 0
    for c, n in items:
        r = r + SIZES[c] * n
    return r


def prefix_sums(interp, q):
    """S with S(0) == 0 and S(k + 1) == S(k) + q[k].  A contract may have
    introduced these sums already."""
    ctx = cur()
    k = z3.FreshConst(I, 'k')
    for n, size, S in getattr(ctx, 'sums', ()):
        if ctx.entails(z3.And(to_z3(q.n) == n, z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < n), to_z3(q.at(k)) == size(k))))):
            return S
    S = ctx.fresh_fn('sum', [I], I)
    ctx.fact(S(z3.IntVal(0)) == 0)
    ctx.fact(z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < to_z3(q.n)), S(k + 1) == S(k) + to_z3(q.at(k))),
        patterns=[S(k)]))
    return S


def join_sizes(interp, v):
    """The sizes of a format joined of '<size>s' pieces."""
    from .loops import concat, peeled

    def size(x):
        its = sym_items(interp.resolve(x))
        if len(its) != 1 or its[0][0] != 's':
            raise Unsupported('struct format of pieces')
        return its[0][1]
    q = v.seq
    p = peeled(q)
    if p is None:
        return Sym(q.n, lambda k: size(q.at(k)))
    return concat(interp, Conc([size(x) for x in p[0].items]),
                  Sym(p[1].n, lambda k: size(p[1].at(k))))


def sym_calcsize(interp, fmt):
    from .models import JoinV
    if isinstance(fmt, JoinV):
        q = join_sizes(interp, fmt)
        return prefix_sums(interp, q)(to_z3(q.n))
    return item_size(sym_items(fmt))


def unpack_chunk(interp, fmt, data):
    import struct
    from .core import TupV
    from .models import JoinV
    f, p, n = chunk_args(data)
    need = sym_calcsize(interp, fmt)
    if not cur().branch(zbool(n == to_z3(need))):
        py_raise(struct.error, 'unpack requires a buffer of another size')
    if isinstance(fmt, JoinV):
        q = join_sizes(interp, fmt)
        S = prefix_sums(interp, q)
        return TupV(Sym(q.n, lambda k: chunk(f, p + S(to_z3(k)), q.at(k))))
    big = isinstance(fmt, (str, bytes)) and parse_fmt(fmt)[0]
    out = []
    for c, w in sym_items(fmt):
        if c in 'sc':
            out.append(chunk(f, p, w))
        elif c in 'bBhHiIlLqQ':
            bs = [byte_at(f, p + k) for k in range(SIZES[c])]
            out.append(int_of_bytes(bs[::-1] if big else bs, c in 'bhilq'))
        elif c != 'x':
            raise Unsupported('struct code %s' % c)
        p = z3.simplify(p + SIZES[c] * w)
    return tuple(out)


def int_of_bytes(bs, signed):
    """Little endian value of a list of byte terms."""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), 'little', signed=signed)
    v = 0
    for k, b in enumerate(bs):
        v = v + to_z3(b) * (1 << (8 * k))
    if signed:
        v = z3.If(to_z3(bs[-1]) >= 128, v - (1 << (8 * len(bs))), v)
    return v


def f64(bs):
    """The double of 8 bytes, as an uninterpreted function of them."""
    return uf('f64', *([I] * 8 + [R]))(*[to_z3(b) for b in bs])


def struct_fields(interp, fmt, at):
    """Field values with at(k) the byte at offset k."""
    from .models import mkstr
    big, items = parse_fmt(fmt)
    out, p = [], 0
    for c, n in items:
        w = SIZES[c] * n
        bs = [at(p + k) for k in range(w)]
        p += w
        if c == 'x':
            continue
        if c in 'sc':
            out.append(mkstr(Conc(bs), True))
            continue
        if big:
            bs = bs[::-1]
        if c == 'd':
            if all(isinstance(b, int) for b in bs):
                import struct
                out.append(struct.unpack('<d', bytes(bs))[0])
            else:
                out.append(f64(bs))
        elif c == 'f':
            out.append(uf('f32', I, I, I, I, R)(*[to_z3(b) for b in bs]))
        elif c == '?':
            out.append(to_z3(bs[0]) != 0)
        else:
            out.append(int_of_bytes(bs, c in 'bhilq'))
    return tuple(out)


def bytes_of(interp, v):
    from .models import as_strv
    v = interp.resolve(v)
    s = as_strv(v)
    if s is None or not s.isbytes:
        raise Unsupported('struct data %r' % (v,))
    return s.content


def struct_unpack(interp, fmt, data):
    import struct
    data = interp.resolve(data)
    if chunk_args(data) is not None:
        return unpack_chunk(interp, fmt, data)
    q = bytes_of(interp, data)
    need = fmt_size(parse_fmt(fmt)[1])
    if isinstance(q.n, int):
        ok = q.n == need
    else:
        ok = cur().branch(to_z3(q.n) == need)
    if not ok:
        py_raise(struct.error, 'unpack requires a buffer of %d bytes' % need)
    return struct_fields(interp, fmt, lambda k: q.at(
        k if isinstance(q, Conc) else z3.IntVal(k)))


def struct_unpack_from(interp, fmt, data, offset=0):
    import struct
    q = bytes_of(interp, data)
    need = fmt_size(parse_fmt(fmt)[1])
    offset = interp.resolve(offset)
    o = to_z3(offset)
    if not cur().branch(zbool(o >= 0)):
        raise Unsupported('negative offset')
    if not cur().branch(zbool(to_z3(q.n) - o >= need)):
        py_raise(struct.error, 'unpack_from requires a buffer')
    return struct_fields(interp, fmt, lambda k: q.at(
        offset + k if isinstance(offset, int) and isinstance(q, Conc)
        else z3.simplify(o + k)))


@model('struct.unpack', '_struct.unpack')
def m_unpack(interp, args, kw):
    return struct_unpack(interp, interp.resolve(args[0]), args[1])


@model('struct.unpack_from', '_struct.unpack_from')
def m_unpack_from(interp, args, kw):
    a = list(args)
    return struct_unpack_from(interp, interp.resolve(a[0]),
                              a[1] if len(a) > 1 else kw['buffer'],
                              a[2] if len(a) > 2 else kw.get('offset', 0))


@model('struct.calcsize', '_struct.calcsize')
def m_calcsize(interp, args, kw):
    return sym_calcsize(interp, interp.resolve(args[0]))


def struct_getattr(interp, o, name):
    if name == 'unpack':
        return (Builtin(name, lambda it, a, k: struct_unpack(
            it, o.fmt, a[0])),)
    if name == 'unpack_from':
        return (Builtin(name, lambda it, a, k: struct_unpack_from(
            it, o.fmt, *(list(a) + [k[x] for x in ('offset',) if x in k]))),)
    if name == 'size':
        return (fmt_size(parse_fmt(o.fmt)[1]),)
    if name == 'format':
        return (o.fmt,)
    return None


def t_struct(interp, args, kw):
    from .models import StructV
    f = interp.resolve(args[0])
    parse_fmt(f)
    return StructV(f)


TYPECALL[__import__('struct').Struct] = t_struct


# ------------------------------------------------------------ codecs

class DecodedV(Value):
    """The text that decoding the given bytes gives: an assumed function of
    the bytes and the encoding."""

    def __init__(self, content, enc):
        self.content, self.enc = content, enc

    def subst(self, pairs):
        from .core import subst
        return DecodedV(subst(self.content, pairs), self.enc)

    def eq(self, interp, b):
        raise Unsupported('comparison of decoded text')


def codec(name):
    import codecs
    try:
        return codecs.lookup(name).name
    except LookupError:
        py_raise(LookupError, 'unknown encoding')


def decode(interp, s, args, kw):
    """bytes.decode: latin-1 and ascii exactly, else as a function."""
    from .models import mkstr
    enc = args[0] if args else kw.get('encoding', 'utf-8')
    enc = interp.resolve(enc)
    err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
    if err != 'strict':
        raise Unsupported('decode errors=')
    if isinstance(enc, str):
        nm = codec(enc)
        if nm == 'iso8859-1':
            r = mkstr(s.content)
            return r
        if nm in ('ascii', 'utf-8'):
            from .strings import all_codes
            if cur().entails(all_codes(s.content, lambda c: to_z3(c) < 128)):
                return mkstr(s.content)
        enc = nm
    ctx = cur()
    if not ctx.branch(ctx.fresh('decodes', B)):
        py_raise(UnicodeDecodeError, 'decode')
    return DecodedV(s.content, enc)


def encode(interp, s, args, kw):
    from .models import mkstr
    enc = args[0] if args else kw.get('encoding', 'utf-8')
    nm = codec(interp.resolve(enc))
    top = {'iso8859-1': 256, 'ascii': 128, 'utf-8': 128}.get(nm)
    from .strings import all_codes
    if top is None or not cur().entails(all_codes(
            s.content, lambda c: to_z3(c) < top)):
        raise Unsupported('encode %s' % nm)
    return mkstr(s.content, True)


def int_from_bytes(interp, args, kw):
    q = bytes_of(interp, args[0])
    order = interp.resolve(args[1] if len(args) > 1 else kw['byteorder'])
    signed = interp.resolve(kw.get('signed', False))
    if not isinstance(q.n, int):
        for n in (1, 2, 4, 8):
            if cur().entails(to_z3(q.n) == n):
                break
        else:
            raise Unsupported('from_bytes of symbolic length')
    else:
        n = q.n
    bs = [q.at(k if isinstance(q, Conc) else z3.IntVal(k)) for k in range(n)]
    if order == 'big':
        bs = bs[::-1]
    return int_of_bytes(bs, bool(signed))
