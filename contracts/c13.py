"""C13: text values are converted by the rule set by the first line."""
import string

import z3

from pydv.core import (I, B, Obj, Opaque, PyRaise, SeqObj, Sym, TAGS, TupV,
                       Conc, Unsupported, _tag, _truthy, const_obj, to_obj,
                       to_z3, zbool, zand, cur)
from pydv.interp import Builtin, DictV, Interp, filter_seq
from pydv import models
from pydv.models import iter_seq, uf
from . import contract
from .c18 import dom_val
from .files import A_FILE, Stream
from .packs import A_INT, call_or_exc, exc_name, expect
from .texts import T

A_STR = ('strip, split, replace, decode and float of the standard library '
         'are functions of their arguments; splitting at whitespace does '
         'not depend on whitespace around the text; a text without a '
         'whitespace character is not found in a text of whitespace; a text '
         'float accepts has no comma')


class Text(object):
    """Methods of text as the functions the verifier uses."""

    def __init__(self, it, kind, d, chars):
        self.it, self.kind, self.d, self.chars = it, kind, d, chars

    def call(self, o, name, *a):
        return self.it.call(self.it.getattr(o, name), list(a))

    def lit(self, s):
        return s if self.kind == 'str' else s.encode('ascii')

    def stripped(self, line):
        return self.call(line, 'strip', self.chars)

    def fields(self, line):
        return iter_seq(self.it, self.it.resolve(self.call(
            self.stripped(line), 'split', self.d)))

    def dotted(self, s):
        return self.call(s, 'replace', self.lit(','), self.lit('.'))

    def float_ok(self, s):
        return uf('float_ok', Obj, B)(s.term)

    def float_of(self, s):
        return uf('float_of', Obj, Obj)(s.term)


class Case(object):
    def __init__(self, ctx, kind, enc, delim, sel, nconv):
        self.ctx = ctx
        self.it = it = Interp({})
        self.s = s = Stream('given', kind, False, None)
        self.kind, self.enc = kind, enc
        lit = (lambda x: x) if kind == 'str' else (lambda x: x.encode())
        ws = string.whitespace
        if delim == 'other':
            t = ctx.fresh('delimiter', Obj)
            ctx.assume(z3.And(_tag(t) == TAGS[kind], _truthy(t)))
            self.d = Opaque(t, kind)
            self.chars = lit(ws)
            sub = uf('substr_in', Obj, Obj, B)
            for x in [ws] + list(ws):
                ctx.assume(z3.Not(sub(t, const_obj(lit(x)))))
                ctx.assume(t != const_obj(lit(x)))
        elif delim is None:
            self.d, self.chars = None, lit(ws)
        else:
            self.d = lit(delim)
            self.chars = lit(ws.replace(delim, ''))
        self.t = Text(it, kind, self.d, self.chars)
        self.kw = dict(delimiter=self.d)
        if kind == 'bytes':
            if enc:
                t = ctx.fresh('encoding', Obj)
                ctx.assume(z3.And(_tag(t) == TAGS['str'], _truthy(t)))
                self.enc = Opaque(t, 'str')
            self.kw['bytehint'] = self.enc or True
        self.strip = ctx.decide([('strip', True), ('strip', False)])[1]
        self.kw['stripstrings'] = self.strip
        self.hasnames = ctx.decide([('names', True), ('names', False)])[1]
        self.kw['hasnames'] = self.hasnames
        self.p = s.p0 + 1 if self.hasnames else s.p0   # first data line
        self.first = self.t.fields(s.line(self.p))
        self.nc = to_z3(self.first.n)
        if delim is None:
            ctx.assume(self.nc >= 1)    # the first line is not blank
        # lines are as long as the first, or longer
        self.rest = z3.If(self.p + 1 > s.n, 0, s.n - self.p - 1)
        i = z3.FreshConst(I, 'i')
        ln = to_z3(self.t.fields(s.line(i)).n)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(
            i > self.p, i < s.n, self.filled(i)), ln >= self.nc),
            patterns=[s.L(i)]))
        if self.hasnames:
            ctx.assume(to_z3(self.t.fields(s.line(s.p0)).n) >= self.nc)
        k = z3.FreshConst(I, 'k')
        if sel == 'none':
            self.n, self.col = self.nc, (lambda k: to_z3(k))
        else:
            self.n = m = ctx.fresh('nuse', I)
            u = ctx.fresh_fn('use', [I], I)
            j = z3.FreshConst(I, 'j')
            ctx.assume(m >= 1)
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m),
                       z3.And(u(j) >= 0, u(j) < self.nc)), patterns=[u(j)]))
            ctx.assume(z3.ForAll([j, k], z3.Implies(
                z3.And(j >= 0, j < k, k < m), u(j) < u(k)),
                patterns=[z3.MultiPattern(u(j), u(k))]))
            self.col = lambda k: u(to_z3(k))
            q = Sym(m, lambda k: u(to_z3(k)))
            self.kw['usecols'] = SeqObj('list', q)
            # counting the columns asked for below c
            fs = self.fs = filter_seq(it, self.nc, k, z3.Exists(
                [j], z3.And(j >= 0, j < m, u(j) == k)))
            ctx.assume(u(m - 1) < self.nc)     # an instance of the above
            ctx.induct('columns below c', lambda c: z3.And(
                fs.cnt(c) <= m, z3.ForAll(
                    [j], z3.Implies(z3.And(j >= 0, j < m), (u(j) < c) ==
                                    (j < fs.cnt(c))), patterns=[u(j)])),
                self.nc, at=[self.nc])
            ctx.lemma('as many columns', fs.cnt(self.nc) == m)
            ctx.lemma('the columns in order', z3.ForAll(
                [j], z3.Implies(z3.And(j >= 0, j < m), fs.sel(j) == u(j)),
                patterns=[fs.sel(j)]))
        x = z3.FreshConst(Obj, 'x')
        y = self.t.dotted(Opaque(x, kind)).term
        ctx.assume(z3.ForAll([x], z3.Implies(self.t.float_ok(Opaque(
            x, kind)), y == x), patterns=[y]))
        self.conv = []
        for x in range(nconv):
            key = ctx.fresh('key%d' % x, I)
            ctx.assume(z3.And(key >= 0, key < self.nc))
            f = uf('converter%d' % x, Obj, Obj)
            self.conv.append((key, f))
        if len(self.conv) == 2:
            ctx.assume(self.conv[0][0] != self.conv[1][0])
        if nconv:
            self.kw['converters'] = DictV({key: Builtin(
                'converter', lambda it, a, k, f=f: Opaque(f(to_obj(
                    it.resolve(a[0]))))) for key, f in self.conv})

    def filled(self, i):
        return _truthy(self.t.stripped(self.s.line(i)).term)

    # the rule ---------------------------------------------------------
    def numeric(self, c):
        return self.t.float_ok(self.first.at(c))

    def comma(self, c):
        return z3.And(z3.Not(self.numeric(c)), self.t.float_ok(
            self.t.dotted(self.first.at(c))))

    def anycomma(self):
        c = z3.FreshConst(I, 'c')
        return z3.Exists([c], z3.And(c >= 0, c < self.nc, self.comma(c)))

    def kinds(self, c, s):
        """The value of field s of column c: [(condition, value)]; and the
        condition under which s can be read."""
        t = self.t
        nan = const_obj(float('nan'))
        isnum = z3.Or(self.numeric(c), self.comma(c))
        anyc = self.anycomma()
        text = s
        ok = z3.BoolVal(True)
        if self.strip:
            text = t.call(text, 'strip')
        if self.kind == 'bytes' and self.enc:
            ok = uf('decode_ok', Obj, Obj, B)(text.term, self.enc.term)
            text = Opaque(uf('str_decode_1', Obj, Obj, Obj)(
                text.term, self.enc.term), 'str')
        dot = t.dotted(s)
        num = z3.If(_truthy(s.term), z3.If(anyc, t.float_of(dot),
                                           t.float_of(s)), nan)
        numok = z3.Or(z3.Not(_truthy(s.term)), z3.If(
            anyc, t.float_ok(dot), t.float_ok(s)))
        v, o = z3.If(isnum, num, text.term), z3.If(isnum, numok, ok)
        for key, f in self.conv:
            v = z3.If(c == key, f(s.term), v)
            o = z3.If(c == key, True, o)
        return v, o


def rows(kind, enc, delim, sel, nconv):
    def run(ctx):
        import channelpack.readtext as rt
        cs = Case(ctx, kind, enc, delim, sel, nconv)
        it, s, t = cs.it, cs.s, cs.t
        try:
            g = it.resolve(it.call(it.wrap(rt.linetuples), [s.obj], cs.kw))
            q = iter_seq(it, g)
        except PyRaise as e:
            ctx.prove('only conversion errors', exc_name(e.exc) in (
                'ValueError', 'UnicodeDecodeError'))
            i, k = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'k')
            c = cs.col(k)
            ctx.prove('an error only for a field that can not be read',
                      z3.Not(z3.And(
                          z3.ForAll([i, k], z3.Implies(z3.And(
                              z3.Or(i == cs.p, z3.And(
                                  i > cs.p, i < s.n, cs.filled(i))), k >= 0,
                              k < cs.n), cs.kinds(c, t.fields(
                                  s.line(i)).at(c))[1])),
                          names_ok(cs))))
            ctx.cover('error')
            return
        head = 2 if cs.hasnames else 1
        fs = filter_seq(it, cs.rest, *rest_filled(cs))
        ctx.prove('a row per line that is not blank', zbool(
            to_z3(q.n) == head + 1 + fs.cnt_n))
        d = ctx.decide([('observe', x) for x in (
            ('names',) if cs.hasnames else ()) + ('first', 'row')])[1]
        k = ctx.fresh('k', I)
        ctx.assume(z3.And(k >= 0, k < cs.n))
        c = cs.col(k)
        if d == 'names':
            r = iter_seq(it, it.resolve(q.at(1)))
            ctx.prove('a name per column', zbool(to_z3(r.n) == cs.n))
            want = t.call(t.fields(s.line(s.p0)).at(c), 'strip')
            if kind == 'bytes' and enc:
                want = Opaque(uf('str_decode_1', Obj, Obj, Obj)(
                    want.term, cs.enc.term), 'str')
            ctx.prove('the names of the columns', to_obj(it.resolve(
                r.at(k))) == want.term)
            ctx.cover('names')
            return
        if d == 'first':
            at, i = head, cs.p
        else:
            j = ctx.fresh('j', I)
            ctx.assume(z3.And(j >= 0, j < fs.cnt_n))
            at, i = j + head + 1, cs.p + 1 + fs.sel(j)
        r = iter_seq(it, it.resolve(q.at(at)))
        ctx.prove('a value per column asked for', zbool(
            to_z3(r.n) == cs.n))
        ctx.prove('the value by the rule of the first line', to_obj(
            it.resolve(r.at(k))) == cs.kinds(c, t.fields(s.line(
                i)).at(c))[0])
        ctx.cover(d)
    return run


def names_ok(cs):
    if not (cs.hasnames and cs.kind == 'bytes' and cs.enc):
        return z3.BoolVal(True)
    k = z3.FreshConst(I, 'k')
    nm = cs.t.call(cs.t.fields(cs.s.line(cs.s.p0)).at(cs.col(k)), 'strip')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cs.n), uf(
        'decode_ok', Obj, Obj, B)(nm.term, cs.enc.term)))


def rest_filled(cs):
    k = z3.FreshConst(I, 'k')
    return k, cs.filled(cs.p + 1 + k)


NAMES = {None: 'none', '\t': 'tab', ' ': 'space', 'other': 'other'}
for _k, _e in (('str', False), ('bytes', False), ('bytes', True)):
    for _d in (None, '\t', ' ', 'other'):
        for _s in ('none', 'list'):
            for _n in (0, 1, 2) if _d is None else (0, 2):
                contract('C13', '%s, delimiter %s, usecols %s, %s' % (
                    _k + (' decoded' if _e else ''), NAMES[_d], _s,
                    ('no', 'one', 'two')[_n] + ' converters'),
                    [T + 'linetuples', T + '_floatit' + (
                        '_bytes' if _k == 'bytes' else '')],
                    covers=('first', 'row', 'names', 'error'),
                    bound='at most two converters' if _n else None,
                    assumes=(A_INT, A_FILE, A_STR, 'lines have at least the '
                             'number of fields of the first, which is not '
                             'blank'))(rows(_k, _e, _d, _s, _n))
