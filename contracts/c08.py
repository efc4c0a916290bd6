"""C08: appending concatenates every channel or changes nothing."""
import z3

from pydv.core import (I, B, Obj, Opaque, SeqObj, Sym, PyRaise, to_obj,
                       to_z3, zand, zbool)
from pydv import models
from pydv.interp import DictV
from . import contract
from .packs import (A_DATA, A_INT, DataMap, SymPack, make_interp,
                    call_or_exc, expect, exc_name, prove_array, same_value)

F = 'channelpack.pack.ChannelPack.'
CALLEES = ['datautils.slicelist', 'NpDict', 'IntKeyDict',
           'NpDict.__setitem__']


def sym_names(ctx, tag):
    n = ctx.fresh('nf_' + tag, I)
    ctx.assume(n >= 0)
    f = ctx.fresh_fn('fn_' + tag, [I], Obj)
    return SeqObj('list', Sym(n, lambda j: Opaque(f(to_z3(j)), 'str'))), n, f


def packs(ctx, it, how):
    s = SymPack(it, 's', names='names' in how)
    o = SymPack(it, 'o', names='names' in how)
    out = []
    for p, tag in ((s, 's'), (o, 'o')):
        fl, n, f = sym_names(ctx, tag)
        it.setattr(p.pack, 'filenames', fl)
        p.nf, p.fns = n, f
    return s, o


def lookup(it, d, t):
    """(in the dict?, value) without changing it."""
    d = it.resolve(d)
    return d


def unchanged(ctx, it, p, before, tag):
    now = {a: it.resolve(it.getattr(p.pack, a)) for a in before}
    for a, (obj, content) in before.items():
        ok = now[a] is obj and snapshot(obj) == content
        if not ok and a in ('data', 'names'):
            same_map(ctx, it, tag + ': %s as before' % a, now[a], p, a)
            continue
        if not ok and a in ('mask', 'filenames'):
            if a == 'mask':
                prove_array(ctx, it, tag + ': mask as before', now[a], p.n,
                            p.c)
            else:
                same_list(ctx, it, tag + ': filenames as before', now[a],
                          p.nf, lambda j: p.fns(j))
            continue
        ctx.prove(tag + ': %s as before' % a, ok)


class Snap(object):
    def __init__(self, *v):
        self.v = v

    def __eq__(self, o):
        return len(self.v) == len(o.v) and all(
            a is b for a, b in zip(self.v, o.v))


def snapshot(obj):
    if isinstance(obj, SeqObj):
        return Snap(obj.content)
    if isinstance(obj, DictV):
        return Snap(obj._store, obj._sym)
    return Snap()


def state(it, p):
    out = {}
    for a in ('data', 'names', 'mask', 'filenames', 'nof', 'fn'):
        v = it.resolve(it.getattr(p.pack, a))
        out[a] = (v, snapshot(v))
    return out


def same_list(ctx, it, name, v, n, at):
    q = models.iter_seq(it, it.resolve(v))
    ctx.prove(name + ' (number)', zbool(to_z3(q.n) == to_z3(n)))
    j = ctx.fresh('jl', I)
    ctx.assume(z3.And(j >= 0, j < to_z3(n)))
    ctx.prove(name, to_obj(it.resolve(q.at(j))) == at(j))


def same_map(ctx, it, name, d, p, a):
    D = p.D if a == 'data' else p.N
    if D is None:
        ctx.prove(name, isinstance(d, DictV) and d.sym is None and
                  not d.store)
        return
    map_is(ctx, it, name, d, D.dom, D.L, D.A, a, D.nm)


def map_is(ctx, it, name, d, dom, L, A, a, nm=None):
    """Dict d has the keys dom and the values L/A (arrays) or nm."""
    t = ctx.fresh('t', I)
    ctx.prove(name + ': keys', zbool(models.dict_contains(it, d, t)) ==
              zbool(dom(t)))
    ctx.assume(zbool(dom(t)))
    try:
        v = it.resolve(models.dict_getitem(it, d, t))
    except PyRaise:
        from pydv.core import PathEnd
        raise PathEnd()
    if a == 'data':
        prove_array(ctx, it, name, v, L(t), lambda j: A(t, to_z3(j)))
    else:
        ctx.prove(name + ': values', to_obj(v) == nm(t))


WHAT = ['data', 'names', 'filenames', 'mask', 'separate', 'other']


def append(how):
    def run(ctx):
        it = make_interp()
        s, o = packs(ctx, it, how)
        bs, bo = state(it, s), state(it, o)
        t = z3.FreshConst(I, 't')
        differ = lambda a, b: z3.And(a.K > 0, b.K > 0, z3.Not(z3.ForAll(
            [t], a.dom(t) == b.dom(t))))
        bad = differ(s.D, o.D)
        if 'names' in how:
            bad = z3.Or(bad, differ(s.N, o.N))
        r, e = call_or_exc(it, it.getattr(s.pack, 'append_pack'), [o.pack])
        if e is not None:
            ctx.prove('only ValueError', exc_name(e) == 'ValueError')
            ctx.prove('ValueError only for different key sets', bad)
            which = ctx.decide([('see', 'self'), ('see', 'other')])[1]
            if which == 'self':
                unchanged(ctx, it, s, bs, 'refused')
            else:
                unchanged(ctx, it, o, bo, 'refused, other')
            ctx.cover('refused')
            return
        ctx.prove('ValueError for different key sets', z3.Not(bad))
        what = ctx.decide([('see', w) for w in WHAT if w != 'names' or
                           'names' in how])[1]
        if what == 'other':
            unchanged(ctx, it, o, bo, 'other')
        elif what == 'separate':
            for a in ('data', 'names', 'filenames', 'mask'):
                x, y = [it.resolve(it.getattr(p.pack, a)) for p in (s, o)]
                ctx.prove('%s of the packs are separate' % a, x is not y)
        elif what == 'data':
            d = it.resolve(it.getattr(s.pack, 'data'))
            se, oe = s.D.K == 0, o.D.K == 0
            dom = lambda t: z3.If(se, o.D.dom(t), s.D.dom(t))
            L = lambda t: z3.If(se, o.D.L(t), z3.If(
                oe, s.D.L(t), s.D.L(t) + o.D.L(t)))
            A = lambda t, j: z3.If(se, o.D.A(t, j), z3.If(
                j < s.D.L(t), s.D.A(t, j), o.D.A(t, j - s.D.L(t))))
            map_is(ctx, it, 'data', d, dom, L, A, 'data')
        elif what == 'names':
            d = it.resolve(it.getattr(s.pack, 'names'))
            se = s.N.K == 0
            map_is(ctx, it, 'names', d, lambda t: z3.If(
                se, o.N.dom(t), s.N.dom(t)), None, None, 'names',
                lambda t: z3.If(se, o.N.nm(t), s.N.nm(t)))
        elif what == 'filenames':
            same_list(ctx, it, 'filenames', it.getattr(
                s.pack, 'filenames'), s.nf + o.nf, lambda j: z3.If(
                    j < s.nf, s.fns(j), o.fns(j - s.nf)))
        else:
            mask = it.resolve(it.getattr(s.pack, 'mask'))
            ctx.prove('mask is bool', models.dk(it, mask) == 'b')
            t0 = ctx.fresh('lowest', I)
            se, oe = s.D.K == 0, o.D.K == 0
            dom = lambda t: z3.If(se, o.D.dom(t), s.D.dom(t))
            ctx.assume(dom(t0))
            ctx.assume(z3.ForAll([t], z3.Implies(dom(t), t0 <= t)))
            prove_array(ctx, it, 'mask', mask, z3.If(
                se, o.D.L(t0), z3.If(oe, s.D.L(t0),
                                     s.D.L(t0) + o.D.L(t0))),
                lambda j: z3.BoolVal(True))
        ctx.cover(what)
    return run


contract('C08', 'append_pack', [F + 'append_pack', F + 'mask_reset',
                                F + '__setattr__'],
         covers=('refused', 'data', 'filenames', 'mask', 'separate',
                 'other'),
         callees=CALLEES, assumes=[A_DATA, A_INT])(append('data'))
contract('C08', 'append_pack, with names', [F + 'append_pack',
                                            F + '__setattr__'],
         covers=['refused'] + WHAT, callees=CALLEES,
         assumes=[A_DATA, A_INT])(append('data, names'))
