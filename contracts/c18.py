"""C18: a spreadsheet range is read cell for cell."""
import z3

from pydv.core import (I, Obj, Opaque, Conc, SeqObj, Sym, InstV, StrV,
                       Unsupported, TAGS, _tag, _truthy, to_obj, to_z3,
                       zbool, zand, cur, is_int)
from pydv import models
from pydv.interp import DictV, Interp, SymMap, py_raise
from pydv.models import iter_seq, uf
from . import contract
from .packs import (A_INT, BASE, call_or_exc, exc_name, expect)
from .sheets import A_CELLS, Grid

F = 'channelpack.readxl.'
X = 'channelpack.xlrd.sheet.Sheet.'
BK = 'channelpack.xlrd.book.Book.'
A_BOOK = ('xlrd.open_workbook gives a book whose sheet_by_index takes an '
          'integer (TypeError for text) and sheet_by_name a name')
A_ADDR = 'an address is a cell: a row and a column (see C16)'


def text(ctx, name):
    t = ctx.fresh(name, Obj)
    ctx.assume(_tag(t) == TAGS['str'])
    return Opaque(t, 'str')


def given(ctx, name):
    """A non-empty text."""
    v = text(ctx, name)
    ctx.assume(_truthy(v.term))
    return v


def row_of(addr, row):
    return uf('row_of', Obj, I, I)(addr, row)


def col_of(addr):
    return uf('col_of', Obj, I)(addr)


def c_cellreference(it, f, args, kw):
    """Contract of cellreference for an address (proved in C16)."""
    import channelpack.readxl as rx
    vals = dict(row=0, col=0, xladdr=None)
    vals.update(zip(['row', 'col', 'xladdr'], args))
    vals.update(kw)
    a = it.resolve(vals['xladdr'])
    if not isinstance(a, Opaque):
        return NotImplemented
    row = to_z3(it.resolve(vals['row']))
    r, c = row_of(a.term, row), col_of(a.term)
    cur().fact(z3.And(r >= 0, c >= 0))
    return it.call(it.wrap(rx.CellRef), [r, c])


class Case(object):
    def __init__(self, ctx, header, usecols):
        self.ctx = ctx
        con = dict(BASE)
        con.update({
            F + 'cellreference': c_cellreference,
            F + 'sheet_columns': self.c_columns,
            F + 'normalize_usecols': self.c_usecols,
            'channelpack.xlrd.open_workbook': self.c_open,
            BK + 'sheet_by_index': self.c_by_index,
            BK + 'sheet_by_name': self.c_by_name,
            BK + 'release_resources': lambda it, f, a, k: None,
        })
        self.it = it = Interp(con)
        self.g = g = Grid(it)
        self.fname = text(ctx, 'fname')
        self.asked = []
        self.opened = []
        if ctx.decide([('sheet', 'int'), ('sheet', 'name')])[1] == 'int':
            self.sheet = ctx.fresh('sheet', I)
        else:
            self.sheet = text(ctx, 'sheet')
        self.start = self.stop = None
        self.r0, self.c0 = z3.IntVal(0), z3.IntVal(0)
        self.r1, self.c1 = g.nrows - 1, g.ncols - 1
        d = ctx.decide([('range', k) for k in range(4)])[1]
        if d & 1:
            self.start = given(ctx, 'startcell')
            self.r0 = row_of(self.start.term, z3.IntVal(0))
            self.c0 = col_of(self.start.term)
            ctx.assume(z3.And(self.r0 >= 0, self.c0 >= 0))
        if d & 2:
            self.stop = given(ctx, 'stopcell')
            self.r1 = row_of(self.stop.term, z3.IntVal(0))
            self.c1 = col_of(self.stop.term)
            ctx.assume(z3.And(self.r1 < g.nrows, self.c1 < g.ncols))
        # the range is not empty
        ctx.assume(z3.And(self.r0 <= self.r1, self.c0 <= self.c1))
        self.header = header
        if header == 'address':
            self.header = given(ctx, 'header')
            self.hrow = row_of(self.header.term, z3.IntVal(0))
            ctx.assume(z3.And(self.hrow >= 0, self.hrow < g.nrows))
        else:
            self.hrow = self.r0
        self.d0 = self.r0 + 1 if header is True else self.r0
        self.use = None
        nu = ctx.fresh('nuse', I)
        ctx.assume(nu > 0)
        self.uf = f = ctx.fresh_fn('use', [I], I)
        if usecols == 'none':
            self.nu = self.c1 - self.c0 + 1
            self.col = lambda k: self.c0 + to_z3(k)
        else:
            self.nu = nu
            i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
            ctx.assume(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < nu), f(i) >= 0), patterns=[f(i)]))
            # distinct and, for a text, in order (C16)
            rel = (lambda a, b: a < b) if usecols == 'text' else (
                lambda a, b: a != b)
            ctx.assume(z3.ForAll([i, j], z3.Implies(
                z3.And(i >= 0, i < j, j < nu), rel(f(i), f(j))),
                patterns=[z3.MultiPattern(f(i), f(j))]))
            self.col = lambda k: f(to_z3(k))
            self.use = given(ctx, 'usecols') if usecols == 'text' else \
                SeqObj('list', Sym(nu, lambda k: f(to_z3(k))))
        self.conv = uf('converted', I, I, I, I, Obj)

    # ------------------------------------------------------- callees
    def c_usecols(self, it, f, args, kw):
        """Contract of normalize_usecols: the columns of a text, in order
        (C16); a sequence is sorted by the code itself."""
        a = it.resolve((list(args) + list(kw.values()))[0])
        if a is self.use and isinstance(a, Opaque):
            return SeqObj('list', Sym(self.nu, self.col))
        return NotImplemented

    def c_columns(self, it, f, args, kw):
        """Contract of sheet_columns (proved in C17): one list per column,
        holding the converted cells of the rows."""
        vals = dict(zip(['ws', 'startref', 'stopref', 'usecols'], args))
        vals.update(kw)
        ws = it.resolve(vals['ws'])
        if ws is not self.g.sheet:
            return NotImplemented
        a = to_z3(it.resolve(it.getattr(vals['startref'], 'row')))
        b = to_z3(it.resolve(it.getattr(vals['stopref'], 'row')))
        q = iter_seq(it, it.resolve(vals['usecols']))
        ctx, g = cur(), self.g
        k = z3.FreshConst(I, 'k')
        ctx.prove('sheet_columns called with rows of the sheet',
                  z3.And(a >= 0, a <= b + 1, b < g.nrows))
        ctx.prove('sheet_columns called with columns of the sheet', z3.ForAll(
            [k], z3.Implies(z3.And(k >= 0, k < to_z3(q.n)), z3.And(
                to_z3(q.at(k)) >= 0, to_z3(q.at(k)) < g.ncols))))
        return SeqObj('list', Sym(q.n, lambda k: SeqObj('list', Sym(
            b - a + 1, lambda j: Opaque(self.conv(
                a, b, to_z3(q.at(k)), a + to_z3(j)), 'any')))))

    def c_open(self, it, f, args, kw):
        a = it.resolve(args[0] if args else kw['filename'])
        self.opened.append(a)
        return self.g.sheet.attrs['book']

    def c_by_index(self, it, f, args, kw):
        a = it.resolve(args[1] if len(args) > 1 else kw['sheetx'])
        if not is_int(a):
            py_raise(TypeError, 'list indices')
        self.asked.append(('index', a))
        return self.g.sheet

    def c_by_name(self, it, f, args, kw):
        a = it.resolve(args[1] if len(args) > 1 else kw['sheet_name'])
        self.asked.append(('name', a))
        return self.g.sheet


def dom_val(it, d):
    d = it.resolve(d)
    if d.sym is not None:
        return d.sym.dom, d.sym.val
    keys = list(d.store)
    if not all(is_int(k) for k in keys):
        raise Unsupported('a dict of a known size')

    def val(t):
        for k in keys:
            if cur().branch(t == to_z3(k)):
                return d.store[k]
        raise Unsupported('value of a missing key')
    return (lambda t: z3.Or([t == to_z3(k) for k in keys])), val


def sheetpack(header, usecols):
    def run(ctx):
        import channelpack.readxl as rx
        cs = Case(ctx, header, usecols)
        it, g = cs.it, cs.g
        kw = dict(sheet=cs.sheet, header=cs.header, startcell=cs.start,
                  stopcell=cs.stop, usecols=cs.use)
        p, e = call_or_exc(it, it.wrap(rx.sheetpack), [cs.fname], kw)
        k = z3.FreshConst(I, 'k')
        inside = z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < cs.nu),
            z3.And(cs.col(k) >= cs.c0, cs.col(k) <= cs.c1)))
        if e is not None:
            if exc_name(e) != 'ValueError':
                expect(ctx, e, 'sheetpack')
                return
            ctx.prove('ValueError only for columns outside of the range',
                      z3.Not(inside))
            ctx.cover('outside')
            return
        ctx.prove('the columns are inside of the range', inside)
        ctx.prove('the file is opened', zand(len(cs.opened) == 1, to_obj(
            cs.opened[0]) == cs.fname.term) if cs.opened else False)
        want = ('name', cs.sheet) if isinstance(cs.sheet, Opaque) else (
            'index', cs.sheet)
        ctx.prove('the sheet asked for', len(cs.asked) == 1 and
                  cs.asked[0][0] == want[0] and
                  zbool(to_obj(cs.asked[0][1]) == to_obj(want[1])))
        p = it.resolve(p)
        dom, val = dom_val(it, it.getattr(p, 'data'))
        t = ctx.fresh('t', I)
        some = z3.Exists([k], z3.And(k >= 0, k < cs.nu, cs.col(k) == t))
        ctx.prove('no other columns', z3.Implies(zbool(dom(t)), some))
        u = ctx.fresh('u', I)
        ctx.assume(z3.And(u >= 0, u < cs.nu))
        c = cs.col(u)
        ctx.prove('every column asked for', zbool(dom(c)))
        v = it.resolve(val(c))
        ctx.prove('an array', isinstance(v, SeqObj) and v.kind == 'ndarray')
        q = v.content
        ctx.prove('a value per data row', zbool(
            to_z3(q.n) == cs.r1 - cs.d0 + 1))
        j = ctx.fresh('j', I)
        ctx.assume(z3.And(j >= 0, j < to_z3(q.n)))
        ctx.prove('the converted cells of the column', to_obj(it.resolve(
            q.at(j))) == cs.conv(cs.d0, cs.r1, c, cs.d0 + j))
        ndom, nval = dom_val(it, it.getattr(p, 'names'))
        if header is False:
            ctx.prove('no names', z3.Not(zbool(ndom(t))))
        else:
            ctx.prove('names for the columns only', z3.Implies(
                zbool(ndom(t)), some))
            ctx.prove('every column has a name', zbool(ndom(c)))
            ctx.prove('named by the header cell', to_obj(it.resolve(
                nval(c))) == g.V(cs.hrow, c))
        ctx.prove('the pack has the file name', to_obj(it.resolve(
            it.getattr(p, 'fn'))) == cs.fname.term)
        ctx.cover('post')
    return run


for _h in (True, False, 'address'):
    for _u in ('none', 'list', 'text'):
        contract('C18', 'sheetpack header %s, usecols %s' % (_h, _u),
                 [F + 'sheetpack', X + 'cell_value'] + (
                     [F + 'normalize_usecols'] if _u == 'list' else []),
                 covers=('post',) + (('outside',) if _u != 'none' else ()),
                 callees=[F + 'cellreference', F + 'sheet_columns'] + (
                     [F + 'normalize_usecols'] if _u == 'text' else []),
                 assumes=(A_INT, A_CELLS, A_BOOK, A_ADDR,
                          'the range is not empty and in the sheet; the '
                          'columns asked for are distinct'))(
            sheetpack(_h, _u))
