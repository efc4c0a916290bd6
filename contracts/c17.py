"""C17: spreadsheet cells convert by the types found in their column."""
import z3

from pydv.core import (I, Obj, Opaque, Pieces, PyRaise, SeqObj, Sym,
                       Unsupported, _ival, to_obj, to_z3, zbool, zand, cur)
from pydv import models
from pydv.interp import Interp
from pydv.models import iter_seq
from . import contract
from .packs import A_INT, expect
from .sheets import (A_CELLS, A_DATE, BOOLEAN, DATE, Grid, c_xldate, date_of,
                     missing)

F = 'channelpack.readxl.'
X = 'channelpack.xlrd.sheet.Sheet.'


def cellref(it, row, col):
    import channelpack.readxl as rx
    return it.call(it.wrap(rx.CellRef), [row, col])


def cell_value(ctx, it, g, name, v, r, r0, r1, c, num=None, text=None):
    """v is the value of cell (r, c) as read from rows r0..r1."""
    n0, t0 = g.kind(r0, r1, c)
    num = n0 if num is None else num
    text = t0 if text is None else text
    t, V = g.T(r, c), g.V(r, c)
    v = it.resolve(v)
    if ctx.branch(num):
        if ctx.branch(missing(t)):
            ctx.prove(name + ': nan for missing in a numeric column',
                      to_obj(v) == to_obj(float('nan')))
            ctx.cover('nan')
        else:
            ctx.prove(name + ': number kept', to_obj(v) == V)
            ctx.cover('number')
        return
    if ctx.branch(text):
        if ctx.branch(missing(t)):
            ctx.prove(name + ': empty string for missing in a text column',
                      to_obj(v) == to_obj(''))
            ctx.cover('empty')
        else:
            ctx.prove(name + ': text kept', to_obj(v) == V)
            ctx.cover('text')
        return
    if ctx.branch(t == DATE):
        ctx.prove(name + ': datetime of the date', to_obj(v) == date_of(
            V, g.mode))
        ctx.cover('date')
    elif ctx.branch(missing(t)):
        ctx.prove(name + ': None for missing', to_obj(v) == to_obj(None))
        ctx.cover('none')
    elif ctx.branch(t == BOOLEAN):
        ctx.prove(name + ': True or False', to_obj(v) == to_obj(
            _ival(V) == 1))
        ctx.cover('bool')
    else:
        ctx.prove(name + ': kept', to_obj(v) == V)
        ctx.cover('kept')


COV = ('nan', 'number', 'empty', 'text', 'date', 'none', 'bool', 'kept')


@contract('C17', 'sheet_columns', [F + 'sheet_columns', X + 'col_values',
                                   X + 'col_types'],
          covers=COV, callees=['channelpack.xlrd.xldate.xldate_as_datetime'],
          assumes=(A_INT, A_CELLS, A_DATE))
def columns(ctx):
    import channelpack.readxl as rx
    it = Interp({'channelpack.xlrd.xldate.xldate_as_datetime': c_xldate})
    g = Grid(it)
    r0, r1, c0, c1 = [ctx.fresh(q, I) for q in ('r0', 'r1', 'c0', 'c1')]
    ctx.assume(z3.And(r0 >= 0, r0 <= r1 + 1, r1 < g.nrows))
    nu = ctx.fresh('nuse', I)
    use = ctx.fresh_fn('use', [I], I)
    i = z3.FreshConst(I, 'i')
    ctx.assume(nu >= 0)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nu), z3.And(
        use(i) >= 0, use(i) < g.ncols)), patterns=[use(i)]))
    try:
        gen = it.call(it.wrap(rx.sheet_columns), [
            g.sheet, cellref(it, r0, c0), cellref(it, r1, c1),
            SeqObj('list', Sym(nu, lambda k: use(to_z3(k))))])
        q = iter_seq(it, it.resolve(gen))
    except PyRaise as e:
        expect(ctx, e.exc, 'sheet_columns')
        return
    ctx.prove('one column per requested', zbool(to_z3(q.n) == nu))
    k = ctx.fresh('k', I)
    ctx.assume(z3.And(k >= 0, k < nu))
    col = iter_seq(it, it.resolve(q.at(k)))
    ctx.prove('one value per row', zbool(to_z3(col.n) == r1 - r0 + 1))
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < r1 - r0 + 1))
    cell_value(ctx, it, g, 'cell', col.at(j), r0 + j, r0, r1, use(k))
