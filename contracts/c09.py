"""C09: a reset mask is all True and as long as the data."""
import z3

from pydv.core import I, B, SeqObj, PyRaise, to_z3, zbool
from pydv import models
from . import contract
from .packs import (A_DATA, A_INT, DataMap, SymPack, make_interp, runs_of,
                    call_or_exc, expect, exc_name, prove_array, c_duration,
                    pack_class)
from .c02 import MapData

F = 'channelpack.pack.ChannelPack.'
CALLEES = ['datautils.slicelist', 'ChannelPack.duration', 'NpDict',
           'IntKeyDict']


def check(ctx, it, pack, D, keys_n=None, md=None):
    mask = it.resolve(it.getattr(pack, 'mask'))
    ok = isinstance(mask, SeqObj) and mask.kind == 'ndarray'
    ctx.prove('mask is an array', ok)
    if not ok:
        return
    ctx.prove('mask is bool', models.dk(it, mask) == 'b')
    if keys_n is not None and ctx.decide([('pack', 'empty'), (
            'pack', 'with data')])[1] == 'empty':
        ctx.assume(keys_n == 0)
        ctx.prove('empty for an empty pack', zbool(
            to_z3(mask.content.n) == 0))
        ctx.cover('empty')
        return
    # the channel with the lowest key
    t0 = ctx.fresh('lowest', I)
    ctx.assume(D.dom(t0))
    t = z3.FreshConst(I, 't')
    ctx.assume(z3.ForAll([t], z3.Implies(D.dom(t), t0 <= t)))
    n = D.L(t0)
    if md is None:
        prove_array(ctx, it, 'mask', mask, n, lambda j: z3.BoolVal(True))
    else:
        ctx.prove('mask: length', zbool(to_z3(mask.content.n) == n))
        j = ctx.fresh('ja', I)
        ctx.assume(z3.And(j >= 0, j < n))
        # name the run that holds j and its neighbours
        for n0, key0, p in ctx.memo.get('parts', []):
            for x in (j, p.RS(p.run_of(j)) - 1, p.RE(p.run_of(j))):
                w = ctx.fresh('hint', I)
                ctx.assume(w == p.run_of(x))
        v = it.resolve(mask.content.at(j))
        ctx.prove('mask: all True if long enough, else all False',
                  zbool(it.truth(v)) == (n >= md))
    ctx.cover('post')


def con():
    return make_interp({'channelpack.pack.ChannelPack.duration': c_duration})


def op_contract(name, fns, covers=('post', 'empty'), mindur=(False, True)):
    def deco(op):
        for md in mindur:
            def run(ctx, md=md):
                it = con()
                try:
                    D, pack, kn, k = op(ctx, it, md)
                except PyRaise as e:
                    expect(ctx, e.exc, name)
                    return
                if D is None:
                    return
                check(ctx, it, pack, D, kn, k)
            contract('C09', name + (', mindur set' if md else ''),
                     [F + f for f in fns], covers=covers, callees=CALLEES,
                     assumes=[A_DATA, A_INT])(run)
        return op
    return deco


@op_contract('construction', ['__init__', '__setattr__', 'mask_reset'],
             mindur=(False,))
def construct(ctx, it, md):
    D = DataMap('d')
    return D, it.call(pack_class(it), [D.dict()]), D.K, None


@contract('C09', 'construction without data', [F + '__init__'],
          callees=CALLEES)
def construct_empty(ctx):
    it = con()
    how = ctx.decide([('args', 0), ('args', 1)])[1]
    p, e = call_or_exc(it, pack_class(it), [None] * how)
    if not expect(ctx, e, 'ChannelPack()'):
        return
    m = it.resolve(it.getattr(p, 'mask'))
    ctx.prove('mask is bool', models.dk(it, m) == 'b')
    ctx.prove('mask is empty', zbool(to_z3(m.content.n) == 0))
    ctx.cover('post')


@op_contract('mask_reset', ['mask_reset', '__setattr__'])
def mask_reset(ctx, it, md):
    sp = SymPack(it, names=False, mindur=md)
    it.call(it.getattr(sp.pack, 'mask_reset'), [])
    return sp.D, sp.pack, sp.D.K, sp.mindur if md else None


@op_contract('assign data', ['mask_reset', '__setattr__'])
def assign_data(ctx, it, md):
    import channelpack.pack as p
    sp = SymPack(it, names=False, mindur=md)
    D = DataMap('new')
    how = ctx.decide([('as', 'dict'), ('as', 'NpDict')])[1]
    cls = it.wrap(p.NpDict) if how == 'NpDict' else None
    it.setattr(sp.pack, 'data', D.dict(cls))
    return D, sp.pack, D.K, sp.mindur if md else None


@op_contract('append_pack', ['append_pack', 'mask_reset', '__setattr__'],
             covers=('post',))
def append_pack(ctx, it, md):
    sp = SymPack(it, names=False, mindur=md)
    o = SymPack(it, 'o', names=False)
    r, e = call_or_exc(it, it.getattr(sp.pack, 'append_pack'), [o.pack])
    if e is not None:
        if exc_name(e) != 'ValueError':
            expect(ctx, e, 'append_pack')
        return None, None, None, None
    return MapData(it, it.resolve(it.getattr(sp.pack, 'data'))), sp.pack, \
        None, sp.mindur if md else None
