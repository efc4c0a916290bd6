"""DBF files as the format specifies them, and the readers' contracts."""
import z3

from pydv import models
from pydv.core import (I, B, Obj, Conc, Opaque, SeqObj, Sym, TAGS, TupV, _tag,
                       _truthy, const_obj, to_obj, to_z3, zbool, zand, cur,
                       is_int, is_z3)
from pydv.ext import chunk, byte_at, int_of_bytes
from pydv.interp import GenV, Interp, YieldAll, filter_seq, py_raise
from pydv.models import uf
from .files import BinFile, Disk, some_name
from .packs import BASE, call_or_exc
from .theory import Theory

D = 'channelpack.dbf.'
A_DBF = ('the file is as long as its header says, a date field has 8 bytes '
         'and a logical field one')
A_BYTES = ('replace, strip, decode, int, float and date of the standard '
           'library are functions of their arguments; a text of 11 bytes at '
           'most is not "DeletionFlag"; a single byte is in a text if it is '
           'one of its bytes')


class Table(object):
    """The table in the bytes of a file."""

    def __init__(self, ctx, fid):
        self.ctx, self.f = ctx, fid
        self.numrec = ctx.fresh('nrecords', I)
        ctx.assume(self.numrec == int_of_bytes(
            [byte_at(fid, k) for k in (4, 5, 6, 7)], False))
        head = int_of_bytes([byte_at(fid, k) for k in (8, 9)], False)
        self.nf = ctx.fresh('nfields', I)
        ctx.assume(self.nf >= 0)
        ctx.assume(head == 33 + 32 * self.nf)
        self.first = 33 + 32 * self.nf
        self.S = S = ctx.fresh_fn('offset', [I], I)
        k, p = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'p')
        w = lambda k: z3.If(k == 0, 1, self.size(k - 1))
        ctx.fact(S(z3.IntVal(0)) == 0)
        ctx.fact(S(z3.IntVal(1)) == 1)
        ctx.fact(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k <= self.nf), S(k + 1) == S(k) + w(k)),
            patterns=[S(k + 1)]))
        self.width = S(self.nf + 1)
        ctx.aliases = [self.nf, self.numrec]
        ctx.sums = [(self.nf + 1, w, S)]
        b = uf('byte_at', I, I, I)(fid, p)
        ctx.fact(z3.ForAll([p], z3.And(b >= 0, b <= 255), patterns=[b]))
        ctx.induct('offsets', lambda c: S(c) >= 0, self.nf + 1)
        ctx.assume(chunk(fid, self.first - 1, 1).term == const_obj(b'\r'))
        # dates have 8 bytes, logicals one
        t = self.typ(k).term
        ctx.assume(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < self.nf), z3.And(
                z3.Implies(t == const_obj(b'D'), self.size(k) == 8),
                z3.Implies(t == const_obj(b'L'), self.size(k) == 1))),
            patterns=[t]))
        ctx.fact(z3.ForAll([k], self.name(k).term != const_obj(
            'DeletionFlag'), patterns=[self.name(k).term]))
        sub = uf('substr_in', Obj, Obj, B)
        n = z3.FreshConst(I, 'n')
        one = chunk(fid, p, n).term
        for s in (b'YyTt', b'NnFf', b'YyTtNnFf'):
            ctx.fact(z3.ForAll([p, n], z3.Implies(
                n == 1, sub(one, const_obj(s)) == z3.Or(
                    [one == const_obj(s[i:i + 1]) for i in range(len(s))])),
                patterns=[sub(one, const_obj(s))]))

    # header ----------------------------------------------------------
    def nul(self, v):
        return Opaque(uf('str_replace_2', Obj, Obj, Obj, Obj)(
            v.term, const_obj(b'\0'), const_obj(b'')), 'bytes')

    def name_bytes(self, k):
        return self.nul(chunk(self.f, 32 + 32 * k, 11))

    def name(self, k):
        return self.ascii(self.name_bytes(k))

    def ascii(self, v):
        return Opaque(uf('str_decode_1', Obj, Obj, Obj)(
            v.term, const_obj('ascii')), 'str')

    def ascii_ok(self, v):
        return uf('decode_ok', Obj, Obj, B)(v.term, const_obj('ascii'))

    def typ(self, k):
        return chunk(self.f, 32 + 32 * k + 11, 1)

    def size(self, k):
        return uf('byte_at', I, I, I)(self.f, z3.simplify(
            to_z3(k) * 32 + 48))

    def deci(self, k):
        return uf('byte_at', I, I, I)(self.f, z3.simplify(
            to_z3(k) * 32 + 49))

    # records ---------------------------------------------------------
    def at(self, r):
        return self.first + r * self.width

    def live(self, r):
        return chunk(self.f, self.at(r), 1).term == const_obj(b' ')

    def rows(self, it):
        k = z3.FreshConst(I, 'r')
        return filter_seq(it, self.numrec, k, self.live(k))

    def bytes(self, r, k):
        return chunk(self.f, self.at(r) + self.S(to_z3(k) + 1), self.size(k))

    def value(self, r, k):
        """(value as a term of sort Obj, whether the bytes are well-formed)
        of field k of record r."""
        v = self.bytes(r, k)
        t = self.typ(k).term
        c = const_obj
        nan = c(float('nan'))
        strip = lambda x: uf('str_strip_0', Obj, Obj)(x.term)
        fl, flo = uf('float_of', Obj, Obj), uf('float_ok', Obj, B)
        io, ioo = uf('int_of', Obj, I), uf('int_ok', Obj, B)
        n = self.nul(v)
        cur().fact(_tag(n.term) == TAGS['bytes'])
        blank = z3.Not(_truthy(strip(n)))
        deci = self.deci(k) != 0
        num = z3.If(blank, nan, z3.If(deci, fl(n.term), to_obj(io(n.term))))
        numok = z3.Or(blank, z3.If(deci, flo(n.term), ioo(n.term)))
        parts = [chunk(v.term.arg(0), v.term.arg(1) + a, b).term
                 for a, b in ((0, 4), (4, 2), (6, 2))]
        ymd = [io(x) for x in parts]
        vb = z3.Not(_truthy(strip(v)))
        date = z3.If(vb, c(None), uf('date', I, I, I, Obj)(*ymd))
        dateok = z3.Or(vb, z3.And([ioo(x) for x in parts] + [
            uf('date_ok', I, I, I, B)(*ymd)]))
        isin = lambda s: z3.Or([v.term == c(s[i:i + 1])
                                for i in range(len(s))])
        log = z3.If(isin(b'YyTt'), c('T'), z3.If(isin(b'NnFf'), c('F'),
                                                 c('?')))
        flt = z3.If(vb, nan, fl(v.term))
        fltok = z3.Or(vb, flo(v.term))
        yes = z3.BoolVal(True)
        r, ok = self.ascii(v).term, self.ascii_ok(v)
        for code, val, vok in ((b'F', flt, fltok), (b'L', log, yes),
                               (b'D', date, dateok), (b'N', num, numok)):
            r = z3.If(t == c(code), val, r)
            ok = z3.If(t == c(code), vok, ok)
        return r, ok

    def good(self, r, k):
        return z3.Implies(z3.And(
            r >= 0, r < self.numrec, self.live(r), k >= 0, k < self.nf),
            self.value(r, k)[1])

    def good_name(self, k):
        return z3.Implies(z3.And(k >= 0, k < self.nf),
                          self.ascii_ok(self.name_bytes(k)))


class WellFormed(Theory):
    """What is assumed of every value and name, at the iteration at hand."""

    def __init__(self, t):
        self.t = t

    def unfold(self, it):
        g = cur().generic
        t = self.t
        ks = [it] + [fs.sel(it) for n, _, fs in cur().memo.get('filters', ())
                     if is_z3(n) and n.eq(t.nf)]
        fs = [t.good_name(it)]
        for k in ks:
            if g:
                fs.append(t.good(g[-1], k))
        return z3.And(fs)


class Reader(object):
    """Contract of dbfreader and dbfrecords, where dbfpack calls them: the
    names, the specs, then a row per record not deleted (C14, C15)."""

    def __init__(self, ctx, faulty=False):
        self.faulty = faulty
        self.nf = ctx.fresh('nfields', I)
        self.nrows = ctx.fresh('nrows', I)
        ctx.assume(z3.And(self.nf >= 0, self.nrows >= 0))
        self.name = ctx.fresh_fn('fieldname', [I], Obj)
        self.value = ctx.fresh_fn('value', [I, I], Obj)
        self.spec = ctx.fresh_fn('spec', [I], Obj)
        k = z3.FreshConst(I, 'k')
        n = self.name(k)
        ctx.fact(z3.ForAll([k], _tag(n) == TAGS['str'], patterns=[n]))
        self.calls = []

    def fault(self, s):
        s.use()
        if self.faulty and cur().branch(cur().fresh('bad_file', B)):
            py_raise(ValueError, 'struct.error')

    def kept(self, it, names):
        """The fields with one of the names, in header order."""
        if names is None:
            return self.nf, lambda j: to_z3(j)
        k = z3.FreshConst(I, 'k')
        fs = filter_seq(it, self.nf, k, self.has(it, names, k))
        return fs.cnt_n, lambda j: fs.sel(to_z3(j))

    def has(self, it, names, k):
        return zbool(it.truth(models.contains(
            it, names, Opaque(self.name(k), 'str'))))

    def read(self, partial):
        def call(it, f, args, kw):
            ps = ['f', 'names'] if partial else ['f']
            v = dict(zip(ps, args))
            v.update(kw)
            if set(v) != set(ps) or len(args) > len(ps):
                return NotImplemented
            fo = it.resolve(v['f'])
            s = getattr(fo, 'model', None)
            if s is None:
                return NotImplemented
            names = it.resolve(v['names']) if partial else None
            self.calls.append((s, names))
            return GenV(self.gen(it, s, names), 'dbf')
        return call

    def gen(self, it, s, names):
        cur().prove('read from the start', s.get() == 0)
        self.fault(s)
        s.set(it, cur().fresh('past_header', I))
        n, field = self.kept(it, names)
        yield SeqObj('list', Sym(n, lambda k: Opaque(
            self.name(field(k)), 'str')))
        yield SeqObj('list', Sym(n, lambda k: Opaque(
            self.spec(field(k)), 'tuple')))
        self.fault(s)
        s.set(it, cur().fresh('past_records', I))
        yield YieldAll(Sym(self.nrows, lambda i: SeqObj('list', Sym(
            n, lambda k: Opaque(self.value(to_z3(i), field(k)))))))


def some_names(ctx, d=None):
    """A non-empty list or tuple of texts."""
    n = ctx.fresh('nsel', I)
    f = ctx.fresh_fn('selname', [I], Obj)
    ctx.assume(n >= 1)
    k = z3.FreshConst(I, 'k')
    ctx.fact(z3.ForAll([k], _tag(f(k)) == TAGS['str'], patterns=[f(k)]))
    q = Sym(n, lambda j: Opaque(f(to_z3(j)), 'str'))
    d = d or ctx.decide([('names', 'list'), ('names', 'tuple')])[1]
    return SeqObj('list', q) if d == 'list' else TupV(q)


class PackCase(object):
    """A call of dbfpack with a name or a stream."""

    def __init__(self, ctx, names=False, faulty=False):
        self.ctx = ctx
        self.rd = Reader(ctx, faulty)
        self.disk = Disk(faulty=faulty, binary=True)
        self.it = Interp(dict(BASE, **{
            'io.open': self.disk, D + 'dbfreader': self.rd.read(False),
            D + 'dbfrecords': self.rd.read(True)}))
        d = ctx.decide([('source', 'name'), ('source', 'stream')])[1]
        if d == 'name':
            t = ctx.fresh('fname', Obj)
            ctx.assume(_tag(t) == TAGS['str'])
            self.arg = self.want = Opaque(t, 'str')
            self.stream = None
        else:
            nm, self.want = some_name(ctx)
            self.stream = BinFile('given', faulty, nm)
            self.arg = self.stream.obj
        self.args = [self.arg]
        self.names = None
        if names:
            self.names = some_names(ctx)
            self.args.append(self.names)
        elif ctx.decide([('names', 'none'), ('names', 'empty')])[1] == \
                'empty':
            self.args.append(SeqObj('list', Conc([])))

    def __call__(self):
        import channelpack.dbf as m
        return call_or_exc(self.it, self.it.wrap(m.dbfpack), self.args, {})

    def used(self):
        return self.stream or (self.disk.opened[0] if self.disk.opened
                               else None)
