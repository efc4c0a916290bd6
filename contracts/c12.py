"""C12: text columns land under their own column number."""
import z3

from pydv.core import (I, B, Obj, Opaque, PyRaise, SeqObj, Sym, TAGS, TupV,
                       Conc, Unsupported, _tag, _truthy, to_obj, to_z3,
                       zbool, zand, cur)
from pydv.interp import DictV, Interp, SymMap
from pydv.models import iter_seq
from . import contract
from .c18 import dom_val
from .files import A_FILE, Disk, Stream, some_name
from .packs import (A_INT, BASE, DataMap, call_or_exc, exc_name, expect,
                    same_value)
from .texts import A_LINES, Lines, T


def columns(ctx, tag='col', neg=False):
    """A non-empty sequence of integers, in any order, maybe repeated."""
    n = ctx.fresh('n' + tag, I)
    f = ctx.fresh_fn(tag, [I], I)
    ctx.assume(n >= 1)
    i = z3.FreshConst(I, 'i')
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i) >= 0),
                         patterns=[f(i)]))
    return n, f


class Case(object):
    def __init__(self, ctx, sel, hasnames, debug=False, bound=None,
                 faulty=False):
        self.ctx = ctx
        self.lines = Lines(ctx, faulty=faulty, bound=bound)
        disk = self.disk = Disk(faulty=faulty)
        self.it = it = Interp(dict(BASE, **{
            'io.open': disk, T + 'linetuples': self.lines}))
        self.kw = kw = {}
        src = ctx.decide([('source', x) for x in ('name', 'str', 'bytes')])[1]
        if src == 'name':
            t = ctx.fresh('fname', Obj)
            ctx.assume(_tag(t) == TAGS['str'])
            self.arg = self.want = Opaque(t, 'str')
            self.stream = None
        else:
            nm, self.want = some_name(ctx)
            self.stream = Stream('given', src, faulty, nm)
            self.arg = self.stream.obj
        self.src = src
        self.sel = sel
        self.names = None
        self.nu = None
        if sel == 'int':
            self.c = ctx.fresh('column', I)
            ctx.assume(self.c >= 0)
            kw['usecols'] = self.c
            self.has = lambda t: t == self.c
        elif sel == 'list':
            n, f = columns(ctx)
            if bound:
                ctx.assume(n == bound[1])
            d = ctx.decide([('seq', 'list'), ('seq', 'tuple')])[1]
            q = Sym(n, lambda k: f(to_z3(k))) if not bound else Conc(
                [f(z3.IntVal(k)) for k in range(bound[1])])
            kw['usecols'] = SeqObj('list', q) if d == 'list' else (
                TupV(q) if not bound else q.items)
            k = z3.FreshConst(I, 'k')
            self.has = lambda t: z3.Exists([k], z3.And(k >= 0, k < n,
                                                       f(k) == t))
            self.colf, self.nu = f, n
        elif sel == 'names':
            self.names = DataMap('names', 'str')
            ctx.assume(self.names.K >= 1)
            i = z3.FreshConst(I, 'i')
            ctx.assume(z3.ForAll([i], z3.Implies(self.names.dom(i), i >= 0),
                                 patterns=[self.names.pos(i)]))
            self.namesdict = self.names.dict()
            kw['names'] = self.namesdict
            # given columns are ignored
            if ctx.decide([('usecols', 'given'), ('usecols', 'none')])[
                    1] == 'given':
                n, f = columns(ctx, 'ign')
                kw['usecols'] = SeqObj('list', Sym(n, lambda k: f(to_z3(k))))
            self.has = self.names.dom
        else:
            self.has = None
            if ctx.decide([('names', 'none'), ('names', 'empty')])[1] == \
                    'empty' and not hasnames:
                kw['names'] = DictV({})
        self.skip = ctx.fresh('skiprows', I)
        ctx.assume(self.skip >= (1 if hasnames else 0))
        kw['skiprows'] = self.skip
        kw['hasnames'] = hasnames
        self.hasnames = hasnames and sel != 'names'
        for o in ('delimiter', 'converters', 'encoding', 'stripstrings'):
            t = ctx.fresh(o, Obj)
            if o == 'encoding':
                if ctx.decide([(o, 'none'), (o, 'given')])[1] == 'none':
                    kw[o] = None
                    continue
                ctx.assume(z3.And(_tag(t) == TAGS['str'], _truthy(t)))
                kw[o] = Opaque(t, 'str')
                continue
            kw[o] = Opaque(t, 'any')
        if debug:
            kw['debug'] = True

    def __call__(self):
        import channelpack.readtext as rt
        it = self.it
        return call_or_exc(it, it.wrap(rt.textpack), [self.arg], self.kw)

    def used(self):
        return self.stream or (self.disk.opened[0] if self.disk.opened
                               else None)


def settings(ctx, cs):
    """The callee got the settings of the caller."""
    it, ln = cs.it, cs.lines
    s = cs.used()
    v = ln.calls[0]
    ctx.prove('read once', len(ln.calls) == 1)
    ctx.prove('the stream is read', v['fo'] is s.obj)
    for o in ('delimiter', 'converters'):
        ctx.prove('%s passed on' % o, to_obj(v[o]) == to_obj(cs.kw[o]))
    ctx.prove('stripstrings passed on', zbool(it.truth(v[
        'stripstrings'])) == zbool(it.truth(cs.kw['stripstrings'])))
    bh = v['bytehint']
    if s.kind == 'str':
        ctx.prove('text is not decoded', z3.Not(zbool(it.truth(bh))))
    elif cs.kw['encoding'] is None:
        ctx.prove('bytes are not decoded without an encoding', bh is True)
    else:
        ctx.prove('bytes are decoded by the encoding',
                  to_obj(bh) == cs.kw['encoding'].term)
    if cs.src == 'name':
        ctx.prove('opened by name', to_obj(s.args[0]) == cs.arg.term)
        ctx.prove('opened as text with the encoding', s.kind == 'str' and
                  same_value(it.resolve(s.args[2].get('encoding')),
                             cs.kw['encoding']))


def textpack(sel, hasnames):
    def run(ctx):
        cs = Case(ctx, sel, hasnames)
        it, ln = cs.it, cs.lines
        p0 = cs.stream.p0 if cs.stream else z3.IntVal(0)
        p1 = p0 + cs.skip       # the first line of data
        nc = ln.ncols(p1)
        t = ctx.fresh('t', I)
        i = z3.FreshConst(I, 'i')
        if cs.has is not None:
            # the columns asked for are there
            if sel == 'list':
                ctx.assume(z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < cs.nu), cs.colf(i) < nc),
                    patterns=[cs.colf(i)]))
            elif sel == 'int':
                ctx.assume(cs.c < nc)
            else:
                ctx.assume(z3.ForAll([i], z3.Implies(
                    cs.names.dom(i), i < nc), patterns=[cs.names.pos(i)]))
        p, e = cs()
        if not expect(ctx, e, 'textpack'):
            return
        settings(ctx, cs)
        ctx.prove('the lines asked for are skipped', ln.first == p1)
        p = it.resolve(p)
        dom, val = dom_val(it, it.getattr(p, 'data'))
        has = cs.has or (lambda t: z3.And(t >= 0, t < nc))
        d = ctx.decide([('observe', x) for x in ('keys', 'values',
                                                 'names')])[1]
        if d == 'keys':
            ctx.prove('no other columns', z3.Implies(zbool(dom(t)), has(t)))
            ctx.cover('keys')
            return
        u = some_column(ctx, cs, nc)
        if d == 'values':
            ctx.prove('every column asked for', zbool(dom(u)))
            v = it.resolve(val(u))
            ctx.prove('an array', isinstance(v, SeqObj) and
                      v.kind == 'ndarray')
            q = v.content
            ctx.prove('a value per row', zbool(to_z3(q.n) == ln.nrows(p1)))
            j = ctx.fresh('j', I)
            ctx.assume(z3.And(j >= 0, j < to_z3(q.n)))
            ctx.prove('the values of the column', to_obj(it.resolve(
                q.at(j))) == ln.value(p1, j, u))
            ctx.prove('name of the source', to_obj(it.resolve(it.getattr(
                p, 'fn'))) == to_obj(cs.want))
            ctx.cover('values')
            return
        ndom, nval = dom_val(it, it.getattr(p, 'names'))
        if sel == 'names':
            ctx.prove('no other names', z3.Implies(zbool(ndom(t)),
                                                   cs.names.dom(t)))
            ctx.prove('every name given', zbool(ndom(u)))
            ctx.prove('the name given', to_obj(it.resolve(nval(u))) ==
                      cs.names.nm(u))
        elif hasnames:
            ctx.prove('names for the columns only', z3.Implies(
                zbool(ndom(t)), has(t)))
            ctx.prove('every column has a name', zbool(ndom(u)))
            ctx.prove('named by the line before the data', to_obj(
                it.resolve(nval(u))) == ln.name(p1 - 1, u))
        else:
            ctx.prove('no names', z3.Not(zbool(ndom(t))))
        ctx.cover('names')
    return run


def some_column(ctx, cs, nc):
    u = ctx.fresh('u', I)
    if cs.sel == 'int':
        ctx.assume(u == cs.c)
    elif cs.sel == 'list':
        ctx.assume(z3.And(u >= 0, u < cs.nu))
        u = cs.colf(u)
    elif cs.sel == 'names':
        ctx.assume(cs.names.dom(u))
    else:
        ctx.assume(z3.And(u >= 0, u < nc))
    return u


for _s in ('none', 'int', 'list', 'names'):
    for _h in (False, True):
        contract('C12', 'textpack usecols %s%s' % (
            _s, ', with a line of names' if _h else ''),
            [T + 'textpack', T + 'textpack.datadict'],
            covers=('keys', 'values', 'names'), callees=[T + 'linetuples'],
            assumes=(A_INT, A_FILE, A_LINES, 'the columns asked for are in '
                     'the file and on every line'))(textpack(_s, _h))


ROWS, COLS = 3, 2


def with_debug(sel, hasnames):
    def run(ctx):
        cs = Case(ctx, sel, hasnames, debug=True, bound=(
            ROWS, 1 if sel == 'int' else COLS))
        it, ln = cs.it, cs.lines
        p0 = cs.stream.p0 if cs.stream else z3.IntVal(0)
        p1 = p0 + cs.skip
        if sel == 'list':
            ctx.assume(cs.colf(z3.IntVal(0)) != cs.colf(z3.IntVal(1)))
        if sel == 'none':
            ctx.assume(ln.ncols(p1) == COLS)
        p, e = cs()
        if not expect(ctx, e, 'textpack'):
            return
        settings(ctx, cs)
        ctx.prove('the lines asked for are skipped', ln.first == p1)
        p = it.resolve(p)
        dom, val = dom_val(it, it.getattr(p, 'data'))
        ndom, nval = dom_val(it, it.getattr(p, 'names'))
        t = ctx.fresh('t', I)
        cols = {'none': [z3.IntVal(k) for k in range(COLS)],
                'int': [getattr(cs, 'c', None)],
                'list': [cs.colf(z3.IntVal(k)) for k in range(COLS)]
                if sel == 'list' else None}[sel]
        ctx.prove('no other columns', z3.Implies(zbool(dom(t)), z3.Or(
            [t == c for c in cols])))
        if hasnames:
            ctx.prove('names for the columns only', z3.Implies(
                zbool(ndom(t)), z3.Or([t == c for c in cols])))
        else:
            ctx.prove('no names', z3.Not(zbool(ndom(t))))
        for c in cols:
            ctx.prove('every column asked for', zbool(dom(c)))
            q = iter_seq(it, it.resolve(val(c)))
            ctx.prove('a value per row', zbool(to_z3(q.n) == ROWS))
            for j in range(ROWS):
                ctx.prove('the values of the column', to_obj(it.resolve(
                    q.at(j))) == ln.value(p1, z3.IntVal(j), c))
            if hasnames:
                ctx.prove('every column has a name', zbool(ndom(c)))
                ctx.prove('named by the line before the data', to_obj(
                    it.resolve(nval(c))) == ln.name(p1 - 1, c))
        ctx.cover('post')
    return run


for _s in ('none', 'int', 'list'):
    for _h in (False, True):
        contract('C12', 'textpack debug, usecols %s%s' % (
            _s, ', with a line of names' if _h else ''),
            [T + 'textpack', T + 'textpack.datadict'],
            callees=[T + 'linetuples'],
            bound='%d rows and at most %d columns' % (ROWS, COLS),
            assumes=(A_INT, A_FILE, A_LINES))(with_debug(_s, _h))
