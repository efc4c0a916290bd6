"""C02: parts are in step with the mask after every operation.

Representation invariant of a pack: its private list of parts is the list of
maximal True runs of its mask.  Every public operation is proved to establish
or keep it from an arbitrary state that has it, so it holds after every
history.
"""
import z3

from pydv.core import I, B, SeqObj, Sym, Unsupported, PyRaise, to_z3, zbool, cur
from pydv import models
from . import contract
from .packs import (A_DATA, A_INT, DataMap, SymPack, make_interp, runs_of,
                    call_or_exc, expect, exc_name, observe_parts, sym_mask,
                    cache_attrs, same_parts, c_duration, c_startstop,
                    wrong_run, Clearing, pack_class)

F = 'channelpack.pack.ChannelPack.'
PUBLIC = {'data', 'mask', 'nof', 'names', 'mindur', 'FALLBACK_PREFIX', 'fn',
          'filenames'}


def check_step(ctx, it, sp, before, D):
    """The invariant, and what is seen of it, in the state now."""
    pack = sp.pack if isinstance(sp, SymPack) else sp
    mask = it.resolve(it.getattr(pack, 'mask'))
    which = ctx.decide([('see', 'cache'), ('see', 'calls')])[1]
    if which == 'calls':
        observe_parts(ctx, it, pack, D)
        ctx.cover('calls')
        return
    private = sorted(a for a in pack.attrs if a not in PUBLIC)
    if before is not None and private != before:
        raise Unsupported('private attributes %s, then %s' % (before,
                                                              private))
    runs = runs_of(it, mask)
    for a in private:
        v = it.resolve(pack.attrs[a])
        if not (isinstance(v, SeqObj) and v.kind == 'list'):
            raise Unsupported('private attribute ' + a)
        q = v.content
        if isinstance(q, Sym):
            same_parts(ctx, it, v, runs, 'stored parts of the mask')
            # the list is made by the pack and not shared with anything
        elif len(q.items) == 0:
            ctx.prove('stored parts of the mask', runs.N == 0)
        else:
            raise Unsupported('private attribute ' + a)
    ctx.cover('step')


def start(ctx, it, names=True, md=None):
    if md is None:
        md = ctx.decide([('mindur', False), ('mindur', True)])[1]
    return SymPack(it, mindur=md, names=names), md


def no_shorter(ctx, it, pack, md):
    """Every run of the mask is at least mindur long."""
    k = it.resolve(it.getattr(pack, 'mindur'))
    mask = it.resolve(it.getattr(pack, 'mask'))
    runs = runs_of(it, mask)
    j = ctx.fresh('jr', I)
    ctx.assume(z3.And(j >= 0, j < runs.N))
    hints = []
    for n0, key0, p in ctx.memo.get('parts', []):
        for t in (runs.RS(j), runs.RS(j) - 1, runs.RE(j), runs.RE(j) - 1):
            hints.append(p.run_of(t) == p.run_of(t))
            hints.append(p.RS(p.run_of(t)) == p.RS(p.run_of(t)))
    for h in hints:
        w = ctx.fresh('hint', I)
        ctx.assume(w == h.arg(0))
    ctx.prove('no run shorter than the minimum',
              runs.RE(j) - runs.RS(j) >= to_z3(k))
    ctx.cover('no shorter')


def op_contract(name, fns, covers=('step', 'calls'), callees=(), extra=None,
                names=True, md=None, **kw):
    con = {'channelpack.pack.ChannelPack.duration': c_duration,
           'channelpack.datautils.startstop_bool': c_startstop}
    con.update(extra or {})

    def deco(op):
        def run(ctx):
            it = make_interp(con)
            try:
                sp, md_ = start(ctx, it, names, md)
                before = sorted(a for a in sp.pack.attrs if a not in PUBLIC)
                r = op(ctx, it, sp, md_)
            except PyRaise as e:
                expect(ctx, e.exc, name)
                return
            if r == 'done':
                return
            D = r if r is not None else sp.D
            check_step(ctx, it, sp, before, D)
        contract('C02', name, [F + f for f in fns], covers=covers,
                 assumes=[A_DATA, A_INT], callees=['datautils.slicelist'] +
                 list(callees), **kw)(run)
        return op
    return deco


@contract('C02', 'construction', [F + '__init__', F + '__setattr__',
                                  F + 'mask_reset', F + 'parts',
                                  F + '__call__', F + '_datakey',
                                  F + '_slicelist'],
          covers=('step', 'calls'), assumes=[A_DATA, A_INT],
          callees=['datautils.slicelist', 'NpDict', 'IntKeyDict'])
def construct(ctx):
    it = make_interp({'channelpack.pack.ChannelPack.duration': c_duration})
    D = DataMap('d')
    how = ctx.decide([('args', 'empty'), ('args', 'data'),
                      ('args', 'data, names')])[1]
    args = {'empty': [], 'data': [D.dict()],
            'data, names': [D.dict(), DataMap('n', 'str').dict()]}[how]
    p, e = call_or_exc(it, pack_class(it), args)
    if not expect(ctx, e, 'ChannelPack()'):
        return
    if how == 'empty':
        ctx.assume(D.K == 0)
        runs = runs_of(it, it.getattr(p, 'mask'))
        q = models.iter_seq(it, it.resolve(it.call(it.getattr(
            p, 'parts'), [])))
        ctx.prove('no parts in an empty pack', zbool(to_z3(q.n) == 0))
        return
    check_step(ctx, it, p, None, D)


ASSIGN = ['__setattr__', 'parts', '__call__', '_datakey', '_slicelist']


@op_contract('assign mask', ASSIGN, covers=('step', 'calls', 'no shorter'),
             callees=['ChannelPack.duration'])
def assign_mask(ctx, it, sp, md):
    n = ctx.fresh('n_new', I)
    ctx.assume(n >= 0)
    m, c = sym_mask(n, 'new')
    it.setattr(sp.pack, 'mask', m)
    if md and ctx.decide([('and', 'step'), ('and', 'runs')])[1] == 'runs':
        no_shorter(ctx, it, sp.pack, md)
        return 'done'


@op_contract('mask &= array', ASSIGN, callees=['ChannelPack.duration'])
def mask_iand(ctx, it, sp, md):
    """pack.mask &= m and pack.mask |= m."""
    import ast
    m, c = sym_mask(sp.n, 'new')
    op = ctx.decide([('op', ast.BitAnd), ('op', ast.BitOr)])[1]
    v = it.getattr(sp.pack, 'mask')
    it.setattr(sp.pack, 'mask', it.binop(op(), v, m, inplace=True))


@op_contract('set mindur', ASSIGN, covers=('step', 'calls', 'no shorter'),
             callees=['ChannelPack.duration'])
def set_mindur(ctx, it, sp, md):
    k = ctx.fresh('k_new', I)
    it.setattr(sp.pack, 'mindur', k)
    if ctx.decide([('and', 'step'), ('and', 'runs')])[1] == 'runs':
        no_shorter(ctx, it, sp.pack, md)
        return 'done'


@op_contract('unset mindur', ASSIGN, callees=['ChannelPack.duration'])
def unset_mindur(ctx, it, sp, md):
    it.setattr(sp.pack, 'mindur', None)


def duration(mx):
    def op(ctx, it, sp, md):
        it.contracts.pop('channelpack.pack.ChannelPack.duration', None)
        d, s = ctx.fresh('duration', I), ctx.fresh('samplerate', I)
        runs = runs_of(it, it.getattr(sp.pack, 'mask'))
        it.theories = [Clearing(runs, wrong_run(runs, models.mulz(d, s),
                                                mx))]
        it.max_unroll = 4
        it.call(it.getattr(sp.pack, 'duration'), [d], {'samplerate': s,
                                                      'mindur': mx})
    return op


for md_ in (False, True):
    for mx_ in (True, False):
        op_contract('duration (%s, %s)' % (
            'mindur set' if md_ else 'no mindur',
            'minimum' if mx_ else 'maximum'), ['duration'] + ASSIGN,
            names=False, md=md_)(duration(mx_))


@op_contract('startstop', ['startstop'] + ASSIGN,
             callees=['ChannelPack.duration', 'datautils.startstop_bool'])
def startstop(ctx, it, sp, md):
    from .c05 import triggers
    a, b, na, nb, sa, sb = triggers(ctx, 'bool arrays')
    ap = ctx.decide([('apply', True), ('apply', False)])[1]
    if ap:
        ctx.assume(z3.If(na <= nb, na, nb) == sp.n)
    it.call(it.getattr(sp.pack, 'startstop'), [a, b], {'apply': ap})


@op_contract('mask_reset', ['mask_reset'] + ASSIGN,
             callees=['ChannelPack.duration'])
def mask_reset(ctx, it, sp, md):
    it.call(it.getattr(sp.pack, 'mask_reset'), [])


@op_contract('assign data', ['mask_reset'] + ASSIGN,
             callees=['ChannelPack.duration', 'NpDict'])
def assign_data(ctx, it, sp, md):
    import channelpack.pack as p
    D = DataMap('new')
    how = ctx.decide([('as', 'dict'), ('as', 'NpDict')])[1]
    cls = it.wrap(p.NpDict) if how == 'NpDict' else None
    it.setattr(sp.pack, 'data', D.dict(cls))
    return D


@op_contract('append_pack', ['append_pack', 'mask_reset'] + ASSIGN,
             callees=['ChannelPack.duration', 'NpDict', 'IntKeyDict'],
             covers=('step', 'calls', 'refused', 'other'))
def append_pack(ctx, it, sp, md):
    o = SymPack(it, 'o')
    r, e = call_or_exc(it, it.getattr(sp.pack, 'append_pack'), [o.pack])
    if e is not None:
        if exc_name(e) != 'ValueError':
            expect(ctx, e, 'append_pack')
            return 'done'
        ctx.cover('refused')
        return
    which = ctx.decide([('pack', 'self'), ('pack', 'other')])[1]
    if which == 'other':
        check_step(ctx, it, o, None, o.D)
        ctx.cover('other')
        return 'done'
    # what part k gives of the new data (the content is the matter of C08)
    data = it.resolve(it.getattr(sp.pack, 'data'))
    return MapData(it, data)


class MapData(object):
    """The data of a pack as it is now, seen like a DataMap."""

    def __init__(self, it, d):
        self.it = it
        self.d = models.dict_copy(it, d)

    def dom(self, t):
        return zbool(models.dict_contains(self.it, self.d, t))

    def L(self, t):
        return to_z3(self.val(t).content.n)

    def A(self, t, j):
        from pydv.core import to_obj
        return to_obj(self.it.resolve(self.val(t).content.at(j)))

    def val(self, t):
        try:
            return self.it.resolve(models.dict_getitem(self.it, self.d, t))
        except PyRaise:         # not in the data: outside of the assumption
            from pydv.core import PathEnd
            if cur().check() == z3.unsat or cur().entails(
                    z3.Not(self.dom(t))):
                raise PathEnd()
            raise


@op_contract('assign names, fn, nof, prefix', ASSIGN,
             callees=['ChannelPack.duration', 'IntKeyDict'])
def assign_other(ctx, it, sp, md):
    from pydv.core import Opaque, Obj
    what = ctx.decide([('set', 'names'), ('set', 'fn'), ('set', 'nof'),
                       ('set', 'FALLBACK_PREFIX')])[1]
    if what == 'names':
        it.setattr(sp.pack, 'names', DataMap('nn', 'str').dict())
    elif what == 'nof':
        v = ctx.decide([('nof', None), ('nof', 'nan'), ('nof', 'filter')])[1]
        it.setattr(sp.pack, 'nof', v)
    else:
        it.setattr(sp.pack, what, Opaque(ctx.fresh('s', Obj), 'str'))
