"""An abstract work sheet: a grid of typed cells."""
import z3

from pydv.core import (I, B, Obj, Opaque, SeqObj, Sym, InstV, TAGS, _tag,
                       _ival, _truthy, to_z3, zbool, cur)
from pydv.models import uf

EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)
A_CELLS = ('a cell has one of the seven types; the value of a boolean cell '
           'is 0 or 1')
A_DATE = ('xldate_as_datetime is a function of the serial number and the '
          'date system (see C19)')


class Grid(object):
    def __init__(self, it, mode=None):
        ctx = cur()
        self.it = it
        self.nrows, self.ncols = ctx.fresh('nrows', I), ctx.fresh('ncols', I)
        ctx.assume(z3.And(self.nrows >= 0, self.ncols >= 0))
        self.T = ctx.fresh_fn('celltype', [I, I], I)
        self.V = ctx.fresh_fn('cellvalue', [I, I], Obj)
        self.mode = ctx.fresh('datemode', I)
        r, c = z3.FreshConst(I, 'r'), z3.FreshConst(I, 'c')
        ctx.fact(z3.ForAll([r, c], z3.And(
            self.T(r, c) >= 0, self.T(r, c) <= 6),
            patterns=[self.T(r, c)]))
        v = self.V(r, c)
        ctx.fact(z3.ForAll([r, c], z3.Implies(
            self.T(r, c) == BOOLEAN, z3.And(
                _tag(v) == TAGS['int'], _ival(v) >= 0, _ival(v) <= 1,
                _truthy(v) == (_ival(v) != 0))), patterns=[v]))
        import channelpack.xlrd.sheet as s
        self.sheet = InstV(it.wrap(s.Sheet))
        row = lambda f: (lambda r: SeqObj('list', Sym(
            self.ncols, lambda c: f(to_z3(r), to_z3(c)))))
        book = InstV(it.wrap(__import__('channelpack.xlrd.book', fromlist=[
            'Book']).Book))
        book.attrs['datemode'] = self.mode
        self.sheet.attrs.update(
            nrows=self.nrows, ncols=self.ncols, book=book,
            formatting_info=0, ragged_rows=0,
            _cell_values=SeqObj('list', Sym(self.nrows, row(
                lambda r, c: Opaque(self.V(r, c), 'any')))),
            _cell_types=SeqObj('list', Sym(self.nrows, row(
                lambda r, c: self.T(r, c)))))

    def kind(self, r0, r1, c):
        """(numeric, text): what the cells of rows r0..r1 are."""
        i = z3.FreshConst(I, 'i')

        def only(*ts):
            return z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < r1 - r0 + 1), z3.Or(*[
                    self.T(r0 + i, c) == t for t in ts])))
        return (only(NUMBER, EMPTY, ERROR, BLANK),
                only(TEXT, EMPTY, ERROR, BLANK))


def missing(t):
    return z3.Or(t == EMPTY, t == ERROR, t == BLANK)


def date_of(v, mode):
    return uf('xldate_as_datetime', Obj, I, Obj)(v, mode)


def c_xldate(it, f, args, kw):
    """Contract of xldate.xldate_as_datetime."""
    from pydv.core import to_obj
    vals = dict(zip(['xldate', 'datemode'], args))
    vals.update(kw)
    return Opaque(date_of(to_obj(it.resolve(vals['xldate'])),
                          to_z3(it.resolve(vals['datemode']))), 'any')
