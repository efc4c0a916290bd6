"""C10: records are the row-wise view of the called channels."""
import z3

from pydv.core import (I, B, Obj, Opaque, SeqObj, Sym, Unsupported, to_obj,
                       to_z3, zbool, zand, cur, is_int)
from pydv import models
from pydv.interp import NTSymV, NTV, py_raise
from pydv.models import iter_seq, uf
from . import contract
from .packs import (A_INT, SymPack, make_interp, call_or_exc, expect,
                    exc_name)

F = 'channelpack.pack.ChannelPack.'
A_NT = ('collections.namedtuple raises ValueError exactly for a list of '
        'names that are not all valid or not distinct, and its records hold '
        'the values given, in order')
A_CALL = ('a call of the pack gives an array (or KeyError) by the key of the '
          'channel, the part and the nof argument (see C02, C06)')


class Calls(object):
    """Contract of ChannelPack.__call__: the array returned is a function of
    the key the channel refers to and of the arguments part and nof."""

    def __init__(self, ctx):
        O3 = [I, Obj, Obj]
        self.ok = ctx.fresh_fn('call_ok', O3, B)
        self.n = ctx.fresh_fn('call_len', O3, I)
        self.el = ctx.fresh_fn('call_el', O3 + [I], Obj)
        self.keyof = ctx.fresh_fn('keyof', [Obj], I)
        x = [z3.FreshConst(I, 'x'), z3.FreshConst(Obj, 'y'),
             z3.FreshConst(Obj, 'z')]
        ctx.fact(z3.ForAll(x, self.n(*x) >= 0, patterns=[self.n(*x)]))
        self.memo = {}

    def bind(self, ctx, N):
        """Names refer to a key that has the name (C06)."""
        t = z3.FreshConst(I, 't')
        k = self.keyof(N.nm(t))
        ctx.fact(z3.ForAll([t], z3.Implies(N.dom(t), z3.And(
            N.dom(k), N.nm(k) == N.nm(t))), patterns=[N.nm(t)]))

    def array(self, key, part, nof):
        a = (to_z3(key), part, nof)
        return SeqObj('ndarray', Sym(self.n(*a), lambda j: Opaque(
            self.el(*(a + (to_z3(j),))))), dkind='O', ndim=1)

    def __call__(self, it, f, args, kw):
        names = ['self', 'ch', 'part', 'nof']
        vals = dict(part=None, nof=None)
        vals.update(zip(names, args))
        vals.update(kw)
        if set(vals) != set(names) or len(args) > 4:
            return NotImplemented
        ch = it.resolve(vals['ch'])
        if is_int(ch):
            key = to_z3(ch)
        elif isinstance(ch, Opaque) and ch.ty == 'str':
            key = self.keyof(ch.term)
        else:
            return NotImplemented
        part, nof = [to_obj(it.resolve(vals[q])) for q in ('part', 'nof')]
        if not cur().branch(self.ok(key, part, nof)):
            py_raise(KeyError, 'no such channel')
        return self.array(key, part, nof)


def records(fallback):
    def run(ctx):
        cl = Calls(ctx)
        it = make_interp({F + '__call__': cl})
        sp = SymPack(it, mask=False)
        D, N = sp.D, sp.N
        cl.bind(ctx, N)
        pref = ctx.fresh('prefix', Obj)
        it.setattr(sp.pack, 'FALLBACK_PREFIX', Opaque(pref, 'str'))
        part, nof = ctx.fresh('part', Obj), ctx.fresh('nof', Obj)
        M = D if fallback else N
        sm = it.resolve(sp.attr('data' if fallback else 'names')).sym
        keys = models.sorted_keys(it, sm if sm is not None else M.map())
        if fallback:
            field = lambda t: models.strcat(
                Opaque(pref, 'str'), models.t_str(it, [t], {}))
        else:
            field = lambda t: Opaque(N.nm(t), 'str')
        fields = Sym(keys.n, lambda j: field(keys.at(j)))
        good = models.valid_fields(fields)
        def go():
            g = it.call(it.getattr(sp.pack, 'records'), [], {
                'part': Opaque(part, 'any'), 'nof': Opaque(nof, 'any'),
                'fallback': fallback})
            return iter_seq(it, it.resolve(g))
        q, e = None, None
        from pydv.core import PyRaise
        try:
            q = go()
        except PyRaise as x:
            e = x.exc
        k = z3.FreshConst(I, 'k')
        if e is not None:
            if exc_name(e) == 'ValueError':
                ctx.prove('ValueError only for invalid names', z3.Not(good))
                ctx.cover('invalid')
            elif exc_name(e) == 'KeyError':
                ctx.prove('valid names', good)
                ctx.prove('KeyError only if a call raises it', z3.Not(
                    z3.ForAll([k], z3.Implies(z3.And(
                        k >= 0, k < to_z3(keys.n)), cl.ok(
                            keys.at(k), part, nof)))))
                ctx.cover('call fails')
            else:
                expect(ctx, e, 'records')
            return
        ctx.prove('names are valid', good)
        n = to_z3(keys.n)
        if ctx.branch(n == 0):
            ctx.prove('no records without channels', to_z3(q.n) == 0)
            ctx.cover('none')
            return
        ln = lambda j: cl.n(keys.at(j), part, nof)
        j = ctx.fresh('j', I)
        ctx.prove('no more records than elements', z3.Implies(
            z3.And(j >= 0, j < n), to_z3(q.n) <= ln(j)))
        ctx.prove('as many as the shortest has', z3.Not(z3.ForAll(
            [k], z3.Implies(z3.And(k >= 0, k < n), to_z3(q.n) < ln(k)))))
        i = ctx.fresh('i', I)
        ctx.assume(z3.And(i >= 0, i < to_z3(q.n)))
        r = it.resolve(q.at(i))
        if not isinstance(r, NTSymV):
            raise Unsupported('record is %r' % (r,))
        ctx.prove('one field per channel', zbool(
            to_z3(r.cls.fields.n) == n))
        ctx.assume(z3.And(j >= 0, j < n))
        ctx.prove('fields in key order', to_obj(r.cls.fields.at(j)) ==
                  to_obj(fields.at(j)))
        ctx.prove('values of the call', to_obj(it.resolve(
            r.content.at(j))) == cl.el(keys.at(j), part, nof, i))
        ctx.cover('post')
    return run


for _f in (False, True):
    contract('C10', 'records' + (' with fallback' if _f else ''),
             [F + 'records'],
             covers=('post', 'none', 'invalid', 'call fails'),
             callees=[F + '__call__'],
             assumes=(A_INT, A_NT, A_CALL))(records(_f))
