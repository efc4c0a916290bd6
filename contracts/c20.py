"""C20: packed numbers and strings of xls records."""
import z3

from pydv.core import I, R, Sym, Conc, StrV, to_z3, zbool, is_real, is_int
from pydv.interp import Interp
from pydv import models
from pydv.ext import DecodedV, f64, codec
from . import contract
from .packs import call_or_exc, expect, exc_name

A_REAL = ('floats are mathematical reals (rounding of the division by 100 '
          'is not modelled)')
A_DBL = 'struct.unpack of "<d" is a function of the eight bytes'
A_STRUCT = 'struct.unpack decodes integers as documented (little endian)'
A_DEC = ('bytes.decode of latin_1 maps each byte to the code point of the '
         'same number; decoding in other encodings is a function of the '
         'bytes, or fails')
RK = 'channelpack.xlrd.sheet.unpack_RK'
F = 'channelpack.xlrd.biffh.'


def data_bytes(ctx, name='data', n=None):
    d = ctx.fresh_fn(name, [I], I)
    j = z3.FreshConst(I, 'j')
    ctx.assume(z3.ForAll([j], z3.And(d(j) >= 0, d(j) <= 255),
                         patterns=[d(j)]))
    if n is None:
        n = ctx.fresh('n_' + name, I)
        ctx.assume(n >= 0)
        return StrV(Sym(n, lambda i: d(to_z3(i))), True), n, d
    return StrV(Conc([d(z3.IntVal(k)) for k in range(n)]), True), n, d


@contract('C20', 'packed number', [RK], covers=('int', 'double', 'cents'),
          assumes=(A_REAL, A_DBL, A_STRUCT))
def packed(ctx):
    it = Interp({})
    s, _, d = data_bytes(ctx, 'rk', 4)
    b = [d(z3.IntVal(k)) for k in range(4)]
    v, e = call_or_exc(it, it.find_func(RK), [s])
    if not expect(ctx, e, 'unpack_RK'):
        return
    v = it.resolve(v)
    ok = is_real(v)
    ctx.prove('a float', bool(ok))
    if not ok:
        return
    v = to_z3(v)
    isint = models.zmod(models.zdiv(b[0], 2), 2) == 1
    cents = models.zmod(b[0], 2) == 1
    n = models.zdiv(b[0], 4) + 64 * b[1] + (64 << 8) * b[2] + \
        (64 << 16) * b[3]
    n = z3.If(b[3] >= 128, n - (1 << 30), n)
    zero = z3.IntVal(0)
    low = b[0] - models.zmod(b[0], 4)
    dbl = f64([zero, zero, zero, zero, low] + b[1:])
    want = z3.If(isint, z3.ToReal(n), dbl)
    if ctx.branch(isint):
        ctx.cover('int')
    else:
        ctx.cover('double')
    if ctx.branch(cents):
        ctx.cover('cents')
        ctx.prove('value is a hundredth', v == want / 100)
    else:
        ctx.prove('value', v == want)


def chars_ok(ctx, it, v, d, at, count, wide, enc=None):
    """v is the text of the bytes at `at`, count characters."""
    v = it.resolve(v)
    if isinstance(v, str):
        v = models.as_strv(v)
    n = 2 * count if wide else count
    if wide or enc is not None:
        want = enc or 'utf-16-le'
        if isinstance(v, DecodedV) and v.enc == want:
            c = v.content
        elif isinstance(v, StrV) and not v.isbytes and ctx.entails(
                zbool(to_z3(v.content.n) == 0)):
            c = v.content
        else:
            ctx.prove('decoded as %s' % want, False)
            return
    else:
        ok = isinstance(v, StrV) and not v.isbytes
        ctx.prove('a text of the bytes', bool(ok))
        if not ok:
            return
        c = v.content
    ctx.prove('number of characters', zbool(to_z3(c.n) == n))
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < n))
    ctx.prove('characters', to_z3(c.at(j)) == d(at + j))


def le16(d, p):
    return d(p) + 256 * d(p + 1)


def prefixed(ctx, d, pos, lenlen):
    return (d(pos) if lenlen == 1 else le16(d, pos)), pos + lenlen


def string(lenlen, known, fname):
    def run(ctx):
        it = Interp({})
        s, n, d = data_bytes(ctx)
        pos = ctx.fresh('pos', I)
        ctx.assume(pos >= 0)
        enc = 'cp1252'
        kw = {'lenlen': lenlen}
        if known:
            count = ctx.fresh('known_len', I)
            ctx.assume(count >= 0)
            kw['known_len'] = count
            at = pos
        else:
            ctx.assume(pos + lenlen <= n)
            count, at = prefixed(ctx, d, pos, lenlen)
        ctx.assume(at + count <= n)
        v, e = call_or_exc(it, it.find_func(F + fname), [s, pos, enc], kw)
        if e is not None and exc_name(e) == 'UnicodeDecodeError':
            return
        if not expect(ctx, e, fname):
            return
        v = it.resolve(v)
        if fname.endswith('_update_pos'):
            ok = isinstance(v, tuple) and len(v) == 2
            ctx.prove('text and position', ok)
            if not ok:
                return
            v, p = v
            ctx.prove('position after', zbool(
                to_z3(it.resolve(p)) == at + count))
        chars_ok(ctx, it, v, d, at, count, False, enc)
        ctx.cover('post')
    return run


for _l in (1, 2):
    contract('C20', 'unpack_string lenlen=%d' % _l, [F + 'unpack_string'],
             assumes=(A_STRUCT, A_DEC))(string(_l, False, 'unpack_string'))
    contract('C20', 'unpack_string_update_pos lenlen=%d' % _l,
             [F + 'unpack_string_update_pos'], assumes=(A_STRUCT, A_DEC))(
        string(_l, False, 'unpack_string_update_pos'))
contract('C20', 'unpack_string_update_pos known length',
         [F + 'unpack_string_update_pos'], assumes=(A_STRUCT, A_DEC))(
    string(1, True, 'unpack_string_update_pos'))


def uni(lenlen, known, fname):
    upd = fname.endswith('_update_pos')

    def run(ctx):
        it = Interp({})
        s, n, d = data_bytes(ctx)
        pos = ctx.fresh('pos', I)
        ctx.assume(pos >= 0)
        kw = {'lenlen': lenlen}
        if known:
            count = ctx.fresh('known_len', I)
            ctx.assume(count >= 0)
            kw['known_len'] = count
            at = pos
            ctx.assume(pos <= n)
        else:
            ctx.assume(pos + lenlen <= n)
            count, at = prefixed(ctx, d, pos, lenlen)
        opt = d(at)
        bit = lambda k: models.zmod(models.zdiv(opt, 1 << k), 2) == 1
        wide, phon, rich = bit(0), bit(2), bit(3)
        p1 = at + 1 + z3.If(rich, 2, 0)
        beg = p1 + z3.If(phon, 4, 0)
        nb = z3.If(wide, 2 * count, count)
        # a string with characters is complete; one without may end the data
        ctx.assume(z3.Or(z3.And(count == 0, at == n), beg + nb <= n))
        f = it.find_func(F + fname)
        v, e = call_or_exc(it, f, [s, pos], kw)
        if e is not None and exc_name(e) == 'UnicodeDecodeError':
            ctx.prove('only 16-bit text can fail to decode', wide)
            return
        if not expect(ctx, e, fname):
            return
        v = it.resolve(v)
        if upd:
            ok = isinstance(v, tuple) and len(v) == 2
            ctx.prove('text and position', ok)
            if not ok:
                return
            v, p = v
            p = to_z3(it.resolve(p))
        bare = z3.And(count == 0, at == n)
        if ctx.branch(bare):
            ctx.cover('bare')
            chars_ok(ctx, it, v, d, at, z3.IntVal(0), False)
            if upd:
                ctx.prove('position after the length', p == at)
            return
        if upd:
            sz = le16(d, p1) + (1 << 16) * le16(d, p1 + 2)
            sz = z3.If(d(p1 + 3) >= 128, sz - (1 << 32), sz)
            ctx.prove('position after', p == beg + nb + z3.If(
                rich, 4 * le16(d, at + 1), 0) + z3.If(phon, sz, 0))
        if ctx.branch(wide):
            ctx.cover('wide')
            chars_ok(ctx, it, v, d, beg, count, True)
        else:
            ctx.cover('narrow')
            chars_ok(ctx, it, v, d, beg, count, False)
    return run


for _l in (1, 2):
    for _f in ('unpack_unicode', 'unpack_unicode_update_pos'):
        contract('C20', '%s lenlen=%d' % (_f, _l), [F + _f],
                 covers=('bare', 'wide', 'narrow'),
                 assumes=(A_STRUCT, A_DEC))(uni(_l, False, _f))
contract('C20', 'unpack_unicode_update_pos known length',
         [F + 'unpack_unicode_update_pos'],
         covers=('bare', 'wide', 'narrow'),
         assumes=(A_STRUCT, A_DEC))(uni(2, True, 'unpack_unicode_update_pos'))
