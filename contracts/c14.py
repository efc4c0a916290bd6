"""C14: a DBF file is decoded record by record as specified."""
import z3

from pydv.core import I, PyRaise, SeqObj, to_obj, to_z3, zbool, cur
from pydv import models
from pydv.interp import Interp, filter_seq
from pydv.models import iter_seq
from . import contract
from .c18 import dom_val
from .dbfs import A_BYTES, A_DBF, D, PackCase, Table, WellFormed, some_names
from .files import A_FILE, BinFile
from .packs import A_INT, exc_name, expect


def read(fname, partial=False):
    def run(ctx):
        it = Interp({})
        s = BinFile('given', False)
        t = Table(ctx, s.fid)
        it.theories.append(WellFormed(t))
        try:
            args = [s.obj]
            if partial:
                ctx.branch(t.nf > 0)
                args.append(some_names(ctx, partial))
            g = it.resolve(it.call(it.find_func(D + fname), args))
            q = iter_seq(it, g)
        except PyRaise as e:
            ctx.fail('no error (%s)' % exc_name(e.exc))
            return
        fs = t.rows(it)
        if partial:
            x = z3.FreshConst(I, 'x')
            ks = filter_seq(it, t.nf, x, zbool(it.truth(models.contains(
                it, args[1], t.name(x)))))
            nk, field = ks.cnt_n, ks.sel
        else:
            nk, field = t.nf, lambda k: k
        ctx.prove('a row per record not deleted, after names and specs',
                  zbool(to_z3(q.n) == 2 + fs.cnt_n))
        k = ctx.fresh('k', I)
        ctx.assume(z3.And(k >= 0, k < nk))
        d = ctx.decide([('observe', x) for x in ('names', 'specs', 'row')])[1]
        if d == 'row':
            j = ctx.fresh('j', I)
            ctx.assume(z3.And(j >= 0, j < fs.cnt_n))
            at = j + 2
        else:
            at = {'names': 0, 'specs': 1}[d]
        r = iter_seq(it, it.resolve(q.at(at)))
        ctx.prove('%s: one per field' % d, zbool(to_z3(r.n) == nk))
        v = it.resolve(r.at(k))
        k = field(k)
        if d == 'names':
            ctx.prove('the name', to_obj(v) == t.name(k).term)
        elif d == 'specs':
            x = [it.resolve(y) for y in iter_seq(it, v).items]
            ctx.prove('type, size and decimals', len(x) == 3)
            ctx.prove('type', to_obj(x[0]) == t.typ(k).term)
            ctx.prove('size', to_z3(x[1]) == t.size(k))
            ctx.prove('decimals', to_z3(x[2]) == t.deci(k))
        else:
            ctx.prove('the value of the bytes of the field', to_obj(v) ==
                      t.value(fs.sel(j), k)[0])
        ctx.cover(d)
    return run


contract('C14', 'dbfreader', [D + 'dbfreader'],
         covers=('names', 'specs', 'row'), timeout=300,
         assumes=(A_INT, A_FILE, A_DBF, A_BYTES))(read('dbfreader'))


def pack(names):
    """dbfpack: a channel per field (kept), numbered in header order."""
    def run(ctx):
        cs = PackCase(ctx, names)
        it, rd = cs.it, cs.rd
        p, e = cs()
        if not expect(ctx, e, 'dbfpack'):
            return
        s = cs.used()
        ctx.prove('the file is read', all(c[0] is s for c in rd.calls))
        if cs.stream is None:
            ctx.prove('opened by name', to_obj(s.args[0]) == cs.arg.term)
            ctx.prove('opened for binary reads', s.kind == 'bytes')
        p = it.resolve(p)
        has = lambda t: z3.And(t >= 0, t < rd.nf, rd.has(
            it, cs.names, t) if names else True)
        d = ctx.decide([('observe', x) for x in ('keys', 'values',
                                                 'names')])[1]
        u = ctx.fresh('u', I)
        if d == 'names':
            dom, val = dom_val(it, it.getattr(p, 'names'))
            ctx.prove('a name for each field only', zbool(dom(u)) == has(u))
            if not ctx.branch(zbool(has(u))) or z3.is_false(z3.simplify(
                    zbool(dom(u)))):
                return
            ctx.prove('the name of the field', to_obj(it.resolve(val(u))) ==
                      rd.name(u))
            ctx.prove('name of the source', to_obj(it.resolve(it.getattr(
                p, 'fn'))) == to_obj(cs.want))
            ctx.cover('names')
            return
        dom, val = dom_val(it, it.getattr(p, 'data'))
        if d == 'keys':
            ctx.prove('a channel for each field only', zbool(dom(u)) ==
                      z3.And(has(u), rd.nrows > 0))
            ctx.cover('keys')
            return
        if not ctx.branch(zbool(z3.And(has(u), rd.nrows > 0))):
            return
        has_it = zbool(dom(u))
        ctx.prove('a channel for each field', has_it)
        if z3.is_false(z3.simplify(has_it)):
            return
        v = it.resolve(val(u))
        ctx.prove('an array', isinstance(v, SeqObj) and v.kind == 'ndarray')
        q = v.content
        ctx.prove('a value per row', zbool(to_z3(q.n) == rd.nrows))
        j = ctx.fresh('j', I)
        ctx.assume(z3.And(j >= 0, j < rd.nrows))
        ctx.prove('the values of the field', to_obj(it.resolve(
            q.at(j))) == rd.value(j, u))
        ctx.cover('values')
    return run


contract('C14', 'dbfpack', [D + 'dbfpack'],
         covers=('keys', 'values', 'names'), callees=[D + 'dbfreader'],
         assumes=(A_INT, A_FILE))(pack(False))
