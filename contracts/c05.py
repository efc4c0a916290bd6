"""C05: start and stop triggers."""
import z3

from pydv.core import I, B, Obj, Opaque, SeqObj, Sym, to_z3, zbool, _truthy
from pydv import models
from . import contract
from .theory import Trigger
from .packs import (A_INT, SymPack, make_interp, call_or_exc, expect,
                    prove_array, c_startstop, min_len)

F = 'channelpack.'


def triggers(ctx, kind):
    out = []
    for tag in ('start', 'stop'):
        n = ctx.fresh('n_' + tag, I)
        ctx.assume(n >= 0)
        if kind == 'objects':
            f = ctx.fresh_fn(tag, [I], Obj)
            out.append((SeqObj('list', Sym(n, lambda j, f=f: Opaque(
                f(to_z3(j)), 'any'))), n,
                lambda j, f=f: _truthy(f(to_z3(j)))))
        else:
            f = ctx.fresh_fn(tag, [I], B)
            out.append((SeqObj('ndarray', Sym(n, lambda j, f=f: f(
                to_z3(j))), dkind='b', ndim=1), n,
                lambda j, f=f: f(to_z3(j))))
    (a, na, sa), (b, nb, sb) = out
    return a, b, na, nb, sa, sb


def body(kind):
    def run(ctx):
        it = make_interp()
        a, b, na, nb, sa, sb = triggers(ctx, kind)
        n = z3.If(na <= nb, na, nb)
        tr = Trigger(n, sa, sb)
        it.theories = [tr]
        ctx.cover('pre')
        f = it.find_func(F + 'datautils.startstop_bool')
        g, e = call_or_exc(it, f, [a, b])
        if not expect(ctx, e, 'startstop_bool'):
            return
        from pydv.core import PyRaise
        try:
            q = models.iter_seq(it, it.resolve(g))
        except PyRaise as x:
            expect(ctx, x.exc, 'startstop_bool')
            return
        ctx.prove('one element per pair', zbool(to_z3(q.n) == n))
        j = ctx.fresh('j', I)
        ctx.assume(z3.And(j >= 0, j < n))
        v = it.resolve(q.at(j))
        if not (isinstance(v, bool) or isinstance(v, z3.BoolRef)):
            ctx.fail('elements are bool')
            return
        ctx.prove('element j', zbool(v) == tr.result(j))
        ctx.cover('post')
    return run


for k in ('objects', 'bool arrays'):
    contract('C05', 'startstop_bool (%s)' % k,
             [F + 'datautils.startstop_bool'], assumes=[A_INT])(body(k))


@contract('C05', 'trigger theory is adequate', covers=('pre',))
def adequacy(ctx):
    n = ctx.fresh('n', I)
    ctx.assume(n >= 0)
    s, p = ctx.fresh_fn('s', [I], B), ctx.fresh_fn('p', [I], B)
    ctx.cover('pre')
    Trigger(n, s, p).adequacy(ctx)


@contract('C05', 'ChannelPack.startstop', [F + 'pack.ChannelPack.startstop'],
          covers=('applied', 'not applied'),
          callees=['datautils.startstop_bool', 'datautils.slicelist'])
def startstop(ctx):
    it = make_interp({'channelpack.datautils.startstop_bool': c_startstop})
    sp = SymPack(it)
    a, b, na, nb, sa, sb = triggers(ctx, 'objects')
    n = min_len(na, nb)
    ap = ctx.decide([('apply', True), ('apply', False), ('apply', None)])[1]
    if ap is not False:
        ctx.assume(n == sp.n)       # as long as the mask
    kw = {} if ap is None else {'apply': ap}
    r, e = call_or_exc(it, it.getattr(sp.pack, 'startstop'), [a, b], kw)
    if not expect(ctx, e, 'startstop'):
        return
    tr = ctx.ghost['trigger'] if 'trigger' in ctx.ghost else Trigger(
        n, sa, sb)
    r = it.resolve(r)
    mask = it.resolve(it.getattr(sp.pack, 'mask'))
    which = ctx.decide([('check', 'result'), ('check', 'mask')])[1]
    if which == 'result':
        ctx.prove('result is a bool array',
                  isinstance(r, SeqObj) and r.kind == 'ndarray' and
                  models.dk(it, r) == 'b')
        prove_array(ctx, it, 'result', r, n, tr.result)
    elif ap is False:
        prove_array(ctx, it, 'mask unchanged', mask, sp.n, sp.c)
        ctx.cover('not applied')
    else:
        prove_array(ctx, it, 'mask and result', mask, sp.n,
                    lambda j: z3.And(sp.c(j), tr.result(j)))
        ctx.cover('applied')
