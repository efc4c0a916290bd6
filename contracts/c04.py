"""C04: duration requirements clear exactly the wrong-length runs."""
import z3

from pydv.core import I, B, R, to_z3, zbool, PyRaise
from pydv import models
from . import contract
from .packs import (A_DATA, A_INT, SymPack, make_interp, wrong_run, cleared,
                    Clearing, runs_of, call_or_exc, expect, prove_array,
                    c_duration, same_parts, cache_attrs)

F = 'channelpack.pack.ChannelPack.'
A_REAL = ('duration and samplerate are exact numbers: rounding of their '
          'float product is not modelled')


def duration(kind):
    def run(ctx):
        it = make_interp()
        sp = SymPack(it)
        pack = sp.pack
        runs = runs_of(it, sp.mask)
        srt = {'int': I, 'real': R}[kind]
        d, s = ctx.fresh('duration', srt), ctx.fresh('samplerate', srt)
        md = ctx.decide([('mindur', True), ('mindur', False)])[1]
        ctx.cover('pre')
        req = models.mulz(d, s)
        if kind == 'real':
            req = z3.If(req >= 0, z3.ToInt(req), -z3.ToInt(-req))
        wrong = wrong_run(runs, req, md)
        it.theories = [Clearing(runs, wrong)]
        it.max_unroll = 4
        r, e = call_or_exc(it, it.getattr(pack, 'duration'), [d],
                           {'samplerate': s, 'mindur': md})
        if not expect(ctx, e, 'duration'):
            return
        mask = it.resolve(it.getattr(pack, 'mask'))
        ctx.prove('returns the mask of the pack', it.resolve(r) is mask)
        prove_array(ctx, it, 'mask', mask, runs.n, cleared(runs, wrong))
        ctx.cover('post')
    return run


contract('C04', 'duration (integers)', [F + 'duration'],
         callees=['datautils.slicelist'], assumes=[A_DATA, A_INT])(
    duration('int'))
contract('C04', 'duration (reals)', [F + 'duration'],
         callees=['datautils.slicelist'], assumes=[A_DATA, A_REAL])(
    duration('real'))


@contract('C04', 'defaults of duration', [F + 'duration'],
          callees=['datautils.slicelist'])
def defaults(ctx):
    """samplerate defaults to 1 and the requirement to a minimum."""
    it = make_interp()
    sp = SymPack(it)
    runs = runs_of(it, sp.mask)
    d = ctx.fresh('duration', I)
    wrong = wrong_run(runs, d, True)
    it.theories = [Clearing(runs, wrong)]
    it.max_unroll = 4
    r, e = call_or_exc(it, it.getattr(sp.pack, 'duration'), [d])
    if not expect(ctx, e, 'duration'):
        return
    mask = it.resolve(it.getattr(sp.pack, 'mask'))
    ctx.prove('returns the mask of the pack', it.resolve(r) is mask)
    prove_array(ctx, it, 'mask', mask, runs.n, cleared(runs, wrong))
    ctx.cover('post')


def persistent(order):
    def run(ctx):
        it = make_interp({'channelpack.pack.ChannelPack.duration':
                          c_duration})
        sp = SymPack(it, mask=(order == 'mindur last'))
        k = ctx.fresh('mindur', I)
        from .packs import sym_mask
        if order == 'mindur last':
            runs = runs_of(it, sp.mask)
            try:
                it.setattr(sp.pack, 'mindur', k)
            except PyRaise as e:
                return expect(ctx, e.exc, 'set mindur')
        else:
            m, c = sym_mask(sp.n)
            runs = runs_of(it, m)
            try:
                it.setattr(sp.pack, 'mindur', k)
                it.setattr(sp.pack, 'mask', m)
            except PyRaise as e:
                return expect(ctx, e.exc, 'set mindur, mask')
        ctx.prove('mindur is stored', to_z3(it.resolve(
            it.getattr(sp.pack, 'mindur'))) == k)
        mask = it.resolve(it.getattr(sp.pack, 'mask'))
        prove_array(ctx, it, 'mask', mask, runs.n,
                    cleared(runs, wrong_run(runs, k, True)))
        ctx.cover('post')
    return run


for o in ('mindur last', 'mask last'):
    contract('C04', 'persistent minimum, ' + o, [F + '__setattr__'],
             callees=['datautils.slicelist', 'ChannelPack.duration'])(
        persistent(o))
