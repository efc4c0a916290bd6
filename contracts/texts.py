"""Contract of linetuples, used where textpack calls it."""
import z3

from pydv.core import (I, B, Obj, Opaque, SeqObj, Sym, TAGS, TupV, PyRaise,
                       Unsupported, _tag, to_obj, to_z3, zbool, zand, cur,
                       is_int)
from pydv.interp import GenV, YieldAll, py_raise
from pydv.models import iter_seq, uf

T = 'channelpack.readtext.'
A_LINES = ('linetuples yields the functions, the names if asked, then a tuple '
           'per data line with the values of the columns asked for in '
           'increasing order (values: C13)')


class Lines(object):
    """The rows linetuples gives from a line of the stream on.

    value(p, i, c): the value of column c in data row i when the first data
    line is line p; name(p, c): field c of line p.
    """

    def __init__(self, ctx, faulty=False, ragged=True, bound=None):
        self.value = ctx.fresh_fn('value', [I, I, I], Obj)
        self.name = ctx.fresh_fn('field', [I, I], Obj)
        self.func = ctx.fresh_fn('func', [I, I], Obj)
        self.ncols = ctx.fresh_fn('ncols', [I], I)
        self.width = ctx.fresh_fn('width', [I, I], I)
        self.nrows = ctx.fresh_fn('nrows', [I], I)
        self.faulty = faulty
        self.calls = []
        self.bound = bound
        p, c, i = [z3.FreshConst(I, x) for x in 'pci']
        ctx.fact(z3.ForAll([p], z3.And(self.ncols(p) >= 1),
                           patterns=[self.ncols(p)]))
        ctx.fact(z3.ForAll([p], self.nrows(p) >= 1,
                           patterns=[self.nrows(p)]))
        n = self.name(p, c)
        ctx.fact(z3.ForAll([p, c], z3.Or(
            _tag(n) == TAGS['str'], _tag(n) == TAGS['bytes']), patterns=[n]))

    def fault(self):
        if self.faulty and cur().branch(cur().fresh('bad_line', B)):
            py_raise(ValueError, 'could not convert')

    def __call__(self, it, f, args, kw):
        ctx = cur()
        names = ['fo', 'bytehint', 'delimiter', 'usecols', 'converters',
                 'stripstrings', 'hasnames']
        v = dict(bytehint=False, delimiter=None, usecols=None,
                 converters=None, stripstrings=False, hasnames=False)
        v.update(zip(names, args))
        v.update(kw)
        if set(v) != set(names) or len(args) > len(names):
            return NotImplemented
        v = {k: it.resolve(x) for k, x in v.items()}
        s = getattr(v['fo'], 'model', None)
        if s is None:
            return NotImplemented
        self.calls.append(v)
        uc = None if v['usecols'] is None else iter_seq(it, v['usecols'])
        hn = ctx.branch(zbool(it.truth(v['hasnames'])))

        def gen():
            s.use()
            p = s.get()
            p1 = p + 1 if hn else p
            nc = self.ncols(p1)
            if uc is None:
                n, col = nc, (lambda k: to_z3(k))
            else:
                n, col = to_z3(uc.n), (lambda k: to_z3(it.resolve(uc.at(k))))
                j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
                ctx.prove('linetuples called with columns in order', z3.ForAll(
                    [j, k], z3.Implies(z3.And(j >= 0, j < k, k < n),
                                       col(j) < col(k))))
            self.first = p1
            self.fault()
            s.set(it, p1 + 1)
            yield TupV(Sym(nc, lambda c: Opaque(self.func(
                p1, to_z3(c)), 'any')))
            if hn:
                self.fault()
                yield TupV(Sym(n, lambda k: Opaque(
                    self.name(p, col(to_z3(k))), 'str')))
            s.use()
            if self.bound:
                for i in range(self.bound[0]):
                    self.fault()
                    yield tuple(Opaque(self.value(p1, z3.IntVal(i), to_z3(
                        uc.at(k)) if uc is not None else z3.IntVal(k)))
                        for k in range(self.bound[1]))
                self.fault()
                return
            self.fault()
            yield YieldAll(Sym(self.nrows(p1), lambda i: TupV(Sym(
                n, lambda k: Opaque(self.value(p1, to_z3(i), col(
                    to_z3(k))))))))
        return GenV(gen(), 'linetuples')
