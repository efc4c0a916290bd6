"""C03: a channel call returns exactly the selected elements."""
import z3

from pydv.core import I, B, Obj, Opaque, SeqObj, Sym, to_obj, to_z3, zbool
from pydv import models
from pydv.interp import filter_seq
from . import contract
from .packs import (A_DATA, A_INT, KINDS, NUMERIC, DataMap, SymPack,
                    make_interp, runs_of, call_or_exc, expect, exc_name,
                    prove_array, sym_mask)

F = 'channelpack.pack.ChannelPack.'
A_WHERE = ('np.where picks elements of its arguments; that integers of more '
           'than 53 bits lose digits when numpy mixes them with nan is not '
           'modelled')


def nan_value(kind):
    """What an unselected element is replaced with."""
    num = z3.Or(*[kind == KINDS.index(k) for k in NUMERIC])
    return lambda: z3.If(num, to_obj(float('nan')), to_obj(None))


def c_masked(it, f, args, kw):
    """Contract of datautils.masked (proved below)."""
    if kw or len(args) != 2:
        return NotImplemented
    a, b = [it.resolve(x) for x in args]
    qa, qb = a.content, b.content
    if not models.same_len(it, qa, qb):
        return NotImplemented
    kind = models.dk(it, a)
    from pydv.core import Pieces
    alts = a.extra.get('dkind')
    if not isinstance(alts, Pieces):
        return NotImplemented
    num = z3.Or(*[zbool(c) for c, k in alts.alts if k in NUMERIC])

    def at(j):
        return Opaque(z3.If(zbool(it.truth(qb.at(j))), to_obj(qa.at(j)),
                            z3.If(num, to_obj(float('nan')),
                                  to_obj(None))), 'any')
    return SeqObj('ndarray', Sym(qa.n, at), dkind='O', ndim=1)


@contract('C03', 'masked', ['channelpack.datautils.masked'],
          assumes=[A_DATA, A_WHERE])
def masked(ctx):
    it = make_interp()
    D = DataMap('a')
    t = z3.IntVal(0)
    a = D.val(t)
    n = D.L(t)
    m, c = sym_mask(n)
    f = it.find_func('channelpack.datautils.masked')
    keep = a.content, m.content
    r, e = call_or_exc(it, f, [a, m])
    if not expect(ctx, e, 'masked'):
        return
    nv = nan_value(D.kd(t))
    prove_array(ctx, it, 'masked', r, n, lambda j: z3.If(
        c(to_z3(j)), D.A(t, to_z3(j)), nv()))
    ctx.prove('arguments unchanged', keep[0] is a.content and
              keep[1] is m.content)
    ctx.cover('post')


def call(how):
    def run(ctx):
        it = make_interp({'channelpack.datautils.masked': c_masked})
        sp = SymPack(it, names=False)
        D, n, c = sp.D, sp.n, sp.c
        own = ctx.decide([('self.nof', x) for x in (None, 'nan',
                                                    'filter')])[1]
        it.setattr(sp.pack, 'nof', own)
        t = ctx.fresh('ch', I)
        ctx.assume(D.dom(t))
        a = it.resolve(D.val(t))
        data = it.resolve(it.getattr(sp.pack, 'data'))
        if how == 'part':
            k = ctx.fresh('k', I)
            ctx.assume(k >= 0)
            kw = {'part': k}
            arg = ctx.decide([('nof', x) for x in (None, 'nan', 'filter',
                                                   'ignore')])[1]
            if arg is not None:
                kw['nof'] = arg
            ctx.assume(D.L(t) >= n)
            runs = runs_of(it, sp.mask)
            v, e = call_or_exc(it, sp.pack, [t], kw)
            if e is not None:
                ctx.prove('only IndexError', exc_name(e) == 'IndexError')
                ctx.prove('IndexError only without such a part',
                          k >= runs.N)
                ctx.cover('refused')
                return
            ctx.prove('IndexError without such a part', k < runs.N)
            prove_array(ctx, it, 'part k', v, runs.RE(k) - runs.RS(k),
                        lambda i: D.A(t, runs.RS(k) + to_z3(i)))
            ctx.cover('post')
            return
        kw = {} if how == 'own' else {'nof': how}
        eff = own if how == 'own' else how
        if eff in ('nan', 'filter'):
            ctx.assume(D.L(t) == n)
        v, e = call_or_exc(it, sp.pack, [t], kw)
        if not expect(ctx, e, 'call'):
            return
        if eff == 'filter':
            q = z3.FreshConst(I, 'q')
            fs = filter_seq(it, n, q, c(q))
            prove_array(ctx, it, 'filter', v, fs.cnt_n,
                        lambda i: D.A(t, fs.sel(to_z3(i))))
        elif eff == 'nan':
            nv = nan_value(D.kd(t))
            prove_array(ctx, it, 'nan', v, n, lambda j: z3.If(
                c(to_z3(j)), D.A(t, to_z3(j)), nv()))
        else:
            prove_array(ctx, it, 'as is', v, D.L(t),
                        lambda j: D.A(t, to_z3(j)))
        mask = it.resolve(it.getattr(sp.pack, 'mask'))
        prove_array(ctx, it, 'mask unchanged', mask, n, c)
        ctx.cover('post')
    return run


for h in ('part', 'own', 'nan', 'filter', 'ignore'):
    contract('C03', 'call, ' + {'part': 'part=k', 'own': 'no argument'}.get(
        h, 'nof=' + repr(h)), [F + '__call__', F + '_datakey'],
        covers=('post', 'refused') if h == 'part' else ('post',),
        callees=['datautils.masked', 'datautils.slicelist'],
        assumes=[A_DATA, A_INT])(call(h))


@contract('C03', 'the nof attribute takes only its documented values',
          [F + '__setattr__'], covers=('refused', 'taken'))
def nof_attr(ctx):
    it = make_interp()
    sp = SymPack(it, mask=False, names=False)
    v = Opaque(ctx.fresh('v', Obj), 'str')
    valid = z3.Or(v.term == to_obj('nan'), v.term == to_obj('filter'))
    from pydv.core import PyRaise
    try:
        it.setattr(sp.pack, 'nof', v)
    except PyRaise as e:
        ctx.prove('ValueError', exc_name(e.exc) == 'ValueError')
        ctx.prove('refused only if not valid', z3.Not(valid))
        ctx.prove('not stored', it.resolve(it.getattr(
            sp.pack, 'nof')) is None)
        ctx.cover('refused')
        return
    ctx.prove('taken only if valid', valid)
    ctx.cover('taken')


@contract('C03', 'filter theory is adequate', covers=('pre',))
def adequacy(ctx):
    """sel enumerates the True positions: in range, True, increasing, and
    every True position is one of them."""
    it = make_interp()
    n = ctx.fresh('n', I)
    ctx.assume(n >= 0)
    c = ctx.fresh_fn('m', [I], B)
    q = z3.FreshConst(I, 'q')
    fs = filter_seq(it, n, q, c(q))
    ctx.cover('pre')
    i, j = ctx.fresh('i', I), ctx.fresh('j', I)
    ctx.prove('selected positions are True and increase', z3.Implies(
        z3.And(0 <= i, i < j, j < fs.cnt_n),
        z3.And(c(fs.sel(i)), fs.sel(i) < fs.sel(j), fs.sel(j) < n,
               fs.sel(i) >= 0)))
    ctx.prove('every True position is selected', z3.Implies(
        z3.And(0 <= i, i < n, c(i)),
        z3.And(fs.cnt(i) >= 0, fs.cnt(i) < fs.cnt_n,
               fs.sel(fs.cnt(i)) == i)))
