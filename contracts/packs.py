"""Symbolic packs, and the contracts of pack functions used at call sites."""
import z3

from pydv.core import (B, I, Obj, R, Conc, Opaque, Pieces, PyRaise, SeqObj,
                       Sym, InstV, SliceV, StrV, Unsupported, cur, is_int,
                       is_z3, to_z3, to_obj, zand, zbool, znot, zor)
from pydv.interp import DictV, Interp, SymMap, ClassV
from pydv import models
from .theory import parts_of, Theory

KINDS = ['i', 'u', 'f', 'c', 'b', 'O', 'U', 'S', 'M', 'm']
NUMERIC = ('i', 'u', 'f', 'c')

A_DATA = ('elements of numpy arrays are opaque values; numpy keeps them '
          'unchanged in copy, slice, filter and append (dtype promotion by '
          'numpy is trusted)')
A_INT = 'Python and numpy integers are mathematical integers'


class DataMap(object):
    """An arbitrary dict of arrays with integer keys."""

    def __init__(self, tag='data', vals='array'):
        ctx = cur()
        self.tag = tag
        self.K = ctx.fresh('K_' + tag, I)
        self.key = ctx.fresh_fn('key_' + tag, [I], I)
        self.pos = ctx.fresh_fn('pos_' + tag, [I], I)
        self.L = ctx.fresh_fn('len_' + tag, [I], I)
        self.A = ctx.fresh_fn('el_' + tag, [I, I], Obj)
        self.kd = ctx.fresh_fn('kind_' + tag, [I], I)
        self.nm = ctx.fresh_fn('val_' + tag, [I], Obj)
        self.vals = vals
        self.memo = {}
        i = z3.FreshConst(I, 'i')
        ctx.assume(self.K >= 0)
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < self.K), self.pos(self.key(i)) == i),
            patterns=[self.key(i)]))
        ctx.fact(z3.ForAll([i], self.L(i) >= 0, patterns=[self.L(i)]))
        self.keys = Sym(self.K, lambda j: self.key(to_z3(j)))

    def dom(self, t):
        return z3.And(self.pos(t) >= 0, self.pos(t) < self.K,
                      self.key(self.pos(t)) == t)

    def kind(self, t):
        ctx = cur()
        ctx.fact(z3.And(self.kd(t) >= 0, self.kd(t) < len(KINDS)))
        return Pieces([(self.kd(t) == k, s) for k, s in enumerate(KINDS)])

    def val(self, t):
        t = to_z3(t)
        if self.vals == 'str':
            return Opaque(self.nm(t), 'str')
        k = t.sexpr()
        if k not in self.memo:
            self.memo[k] = SeqObj(
                'ndarray', Sym(self.L(t), lambda j: Opaque(
                    self.A(t, to_z3(j)), 'any')),
                dkind=self.kind(t), ndim=1)
        return self.memo[k]

    def map(self):
        return SymMap(self.dom, self.val, self.keys, 'int', self.pos)

    def dict(self, cls=None):
        return DictV({}, cls=cls, sym=self.map())


def pack_class(it):
    import channelpack.pack as p
    return it.wrap(p.ChannelPack)


def _is_array(v):
    return isinstance(v, SeqObj) and v.kind == 'ndarray'


def new_dict(it, c, args, kw):
    """Contract of IntKeyDict(x) / NpDict(x) for a dict x with integer keys
    (and array values): a new dict of the same content (see C07)."""
    if kw or len(args) > 1:
        return NotImplemented
    if not args:
        return DictV({}, cls=c)
    src = it.resolve(args[0])
    if not isinstance(src, DictV):
        return NotImplemented
    if src.sym is not None:
        if isinstance(src.sym, SymMap) and src.sym.keysort == 'int':
            m = src.sym if c.name != 'NpDict' else as_arrays(it, src.sym)
            return NotImplemented if m is None else DictV({}, cls=c, sym=m)
        return NotImplemented
    for k, v in src.store.items():
        if not is_int(k):
            return NotImplemented
        if c.name == 'NpDict' and not _is_array(it.resolve(v)):
            return NotImplemented
    return DictV(dict(src.store), cls=c)


def as_arrays(it, m):
    """The map with its values converted to arrays; None if they may not be
    flat sequences."""
    t = z3.FreshConst(I, 't')
    ps = cur().pieces(lambda: (cur().fact(zbool(m.dom(t))),
                               it.resolve(m.val(t)))[1], t)
    vals = [p[3] for p in ps if p[2] == 'val']
    if len(vals) != len(ps):
        return None
    if all(_is_array(v) for v in vals):
        return m
    if not all(isinstance(v, SeqObj) and isinstance(v.content, Sym)
               for v in vals):
        return None
    memo = {}

    def val(t):
        t = to_z3(t)
        if t.sexpr() not in memo:
            v = it.resolve(m.val(t))
            memo[t.sexpr()] = v if _is_array(v) else SeqObj(
                'ndarray', v.content, ndim=1, dkind='O')
        return memo[t.sexpr()]
    return SymMap(m.dom, val, m.keys, m.keysort, m.pos)


def mask_content(it, v):
    """Content of a bool array value as (n, c)."""
    v = it.resolve(v)
    if not _is_array(v):
        raise Unsupported('mask is %r' % (v,))
    q = v.content
    return to_z3(q.n), (lambda j: zbool(it.truth(q.at(j))))


def runs_of(it, v):
    n, c = mask_content(it, v)
    return parts_of(it, n, c)


def c_slicelist(it, f, args, kw):
    """Contract of datautils.slicelist (proved in C01)."""
    if kw or len(args) != 1:
        return NotImplemented
    v = it.resolve(args[0])
    q = models.content_of(it, v)
    if q is None or isinstance(q, Conc):
        return NotImplemented
    r = parts_of(it, to_z3(q.n), lambda j: zbool(it.truth(q.at(j))))
    return SeqObj('list', r.seq())


def wrong_run(runs, req, mindur):
    """Is run r of the wrong length?"""
    def f(r):
        ln = runs.RE(r) - runs.RS(r)
        if mindur is True:
            return ln < req
        if mindur is False:
            return ln > req
        return z3.If(zbool(mindur), ln < req, ln > req)
    return f


def cleared(runs, wrong):
    """Mask after every wrong run is cleared."""
    return lambda j: z3.And(runs.c(j), z3.Not(wrong(runs.run_of(j))))


class Clearing(Theory):
    """The mask while the runs are cleared one after the other."""

    def __init__(self, runs, wrong):
        self.runs, self.wrong = runs, wrong

    def arrays(self, slot):
        r, w = self.runs, self.wrong

        def f(it, j):
            return z3.And(r.c(j), z3.Or(z3.Not(w(r.run_of(j))),
                                        r.run_of(j) >= it))
        return [('mask without the wrong runs so far', f)]


def c_duration(it, f, args, kw):
    """Contract of ChannelPack.duration (proved in C04), for integer
    products of duration and samplerate."""
    names = ['self', 'duration', 'samplerate', 'mindur']
    vals = dict(zip(names, args))
    vals.update(kw)
    self = it.resolve(vals['self'])
    d, s = it.resolve(vals['duration']), it.resolve(vals.get('samplerate', 1))
    md = it.resolve(vals.get('mindur', True))
    if not is_int(d) or s != 1 or not isinstance(md, bool):
        return NotImplemented
    mask = it.resolve(self.attrs.get('mask'))
    if not _is_array(mask) or isinstance(mask.content, Conc):
        return NotImplemented
    caches = cache_attrs(it, self)
    if not caches:
        return NotImplemented
    runs = runs_of(it, mask)
    for a in caches:
        # precondition: the cache is in step with the mask
        same_parts(cur(), it, self.attrs[a], runs,
                   'duration called with parts in step with the mask')
    c = cleared(runs, wrong_run(runs, to_z3(d), md))
    mask.content = Sym(runs.n, lambda j: c(to_z3(j)))
    new = runs_of(it, mask)
    for a in caches:
        it.raw_setattr(self, a, SeqObj('list', new.seq()))
    return mask


def cache_attrs(it, pack):
    """Private attributes that hold the parts of the mask."""
    out = []
    for a, v in pack.attrs.items():
        if isinstance(v, SeqObj) and v.kind == 'list' and isinstance(
                v.content, Sym) and 'runs' in v.content.tags:
            out.append(a)
    return out


def same_parts(ctx, it, v, runs, name):
    """Prove that list v is the list of parts of runs."""
    q = models.iter_seq(it, it.resolve(v))
    if getattr(q, 'tags', {}).get('runs') is runs:
        return ctx.prove(name, True)
    ok = ctx.prove(name + ' (number)', to_z3(q.n) == runs.N)
    if not ok:
        return False
    j = ctx.fresh('jp', I)
    ctx.assume(z3.And(j >= 0, j < runs.N))
    e = it.resolve(q.at(j))
    return ctx.prove(name + ' (slices)', zbool(zand(
        to_z3(e.start) == runs.RS(j), to_z3(e.stop) == runs.RE(j))))


def c_update(it, f, args, kw):
    """Contract of IntKeyDict.update / NpDict.update for a dict with integer
    keys (and array values): every item is put into the dict (see C07)."""
    if kw or len(args) != 2:
        return NotImplemented
    d, src = it.resolve(args[0]), it.resolve(args[1])
    if not isinstance(src, DictV) or not isinstance(d, DictV):
        return NotImplemented
    if src.sym is not None:
        if not isinstance(src.sym, SymMap) or src.sym.keysort != 'int':
            return NotImplemented
        if d.cls is not None and d.cls.name == 'NpDict':
            m = as_arrays(it, src.sym)
            if m is None:
                return NotImplemented
            if m is not src.sym:
                src = DictV({}, sym=m)
    else:
        for k, v in src.store.items():
            if not is_int(k):
                return NotImplemented
            if d.cls is not None and d.cls.name == 'NpDict' and not \
                    _is_array(it.resolve(v)):
                return NotImplemented
    models.dict_update(it, [d, src], {})
    return None


BASE = {
    'channelpack.pack.NpDict.update': c_update,
    'channelpack.pack.IntKeyDict.update': c_update,
    'new:channelpack.pack.NpDict': new_dict,
    'new:channelpack.pack.IntKeyDict': new_dict,
    'channelpack.datautils.slicelist': c_slicelist,
}


def make_interp(extra=None, drop=()):
    con = dict(BASE)
    con.update(extra or {})
    for d in drop:
        con.pop(d, None)
    return Interp(con)


def sym_mask(n, tag='m'):
    ctx = cur()
    c = ctx.fresh_fn(tag, [I], B)
    return SeqObj('ndarray', Sym(n, lambda j: c(to_z3(j))), dkind='b',
                  ndim=1), c


class SymPack(object):
    """A pack in an arbitrary state, built by the code itself: constructed
    from arbitrary data, then given an arbitrary mask (and nof)."""

    def __init__(self, it, tag='p', mask=True, names=True, mindur=False):
        ctx = cur()
        self.it = it
        self.D = DataMap('d' + tag)
        self.N = DataMap('n' + tag, 'str') if names else None
        args = [self.D.dict()]
        if names:
            args.append(self.N.dict())
        self.pack = it.call(pack_class(it), args)
        self.n = ctx.fresh('n_' + tag, I)
        ctx.assume(self.n >= 0)
        if mindur:
            self.mindur = ctx.fresh('mindur_' + tag, I)
            it.setattr(self.pack, 'mindur', self.mindur)
        if mask:
            self.mask, self.c = sym_mask(self.n, 'm' + tag)
            it.setattr(self.pack, 'mask', self.mask)

    def attr(self, name):
        return self.it.getattr(self.pack, name)


def call_or_exc(it, f, args, kw=None):
    """(value, None) or (None, exception)."""
    try:
        return it.call(f, args, kw or {}), None
    except PyRaise as e:
        return None, e.exc


def method(it, o, name):
    return it.getattr(o, name)


def exc_name(e):
    c = e.cls
    if isinstance(c, type):
        return c.__name__
    return getattr(c, 'name', None) or getattr(c, '__name__', str(c))


def expect(ctx, exc, name):
    """An unexpected exception is a failed obligation; True to go on."""
    if exc is None:
        return True
    ctx.fail('%s: no %s raised' % (name, exc_name(exc)),
             detail=repr(getattr(exc, 'args', '')))
    return False


def same_value(a, b):
    """Equality of two values as a formula (objects by identity)."""
    if isinstance(a, SeqObj) or isinstance(b, SeqObj):
        return a is b
    if a is None or b is None or isinstance(a, (str, bytes, bool)) or \
            isinstance(b, (str, bytes, bool)):
        if is_z3(a) or is_z3(b) or isinstance(a, Opaque) or \
                isinstance(b, Opaque):
            return to_obj(a) == to_obj(b)
        return type(a) is type(b) and a == b
    return to_obj(a) == to_obj(b)


def prove_array(ctx, it, name, v, n, at, kind=None):
    """v is a 1-d array of length n with elements at(j)."""
    v = it.resolve(v)
    if not isinstance(v, SeqObj):
        ctx.fail(name + ': is an array')
        return
    q = v.content
    ctx.prove(name + ': length', zbool(to_z3(q.n) == to_z3(n)))
    j = ctx.fresh('ja', I)
    ctx.assume(zbool(zand(j >= 0, j < to_z3(n))))
    e = it.resolve(q.at(j))
    want = at(j)
    if is_z3(want) and isinstance(want, z3.BoolRef):
        ctx.prove(name + ': elements', zbool(it.truth(e)) == want)
    else:
        ctx.prove(name + ': elements', to_obj(e) == to_obj(want))


def observe_parts(ctx, it, pack, D, tag=''):
    """parts() and call(part=k) agree with the mask of the pack now."""
    mask = it.resolve(it.getattr(pack, 'mask'))
    runs = runs_of(it, mask)
    ps, e = call_or_exc(it, it.getattr(pack, 'parts'), [])
    if not expect(ctx, e, 'parts%s' % tag):
        return
    q = models.iter_seq(it, it.resolve(ps))
    ctx.prove('parts%s: one per run' % tag, to_z3(q.n) == runs.N)
    j = ctx.fresh('jq', I)
    which = ctx.decide([('observe', 'parts'), ('observe', 'call')])
    if which == ('observe', 'parts'):
        ctx.assume(z3.And(j >= 0, j < runs.N))
        ctx.prove('parts%s: consecutive' % tag,
                  zbool(to_z3(it.resolve(q.at(j))) == j))
        ctx.cover('parts')
        return
    t = ctx.fresh('ch', I)
    k = ctx.fresh('k', I)
    ctx.assume(k >= 0)
    ctx.assume(D.dom(t))
    ctx.assume(D.L(t) == runs.n)
    v, e = call_or_exc(it, pack, [t], {'part': k})
    if e is not None:
        if exc_name(e) != 'IndexError':
            ctx.fail('part%s: only IndexError' % tag)
        ctx.prove('part%s: IndexError only without such a part' % tag,
                  k >= runs.N)
        ctx.cover('noparts')
        return
    ctx.prove('part%s: exists' % tag, k < runs.N)
    prove_array(ctx, it, 'part%s: elements of run k' % tag, v,
                runs.RE(k) - runs.RS(k),
                lambda i: D.A(t, runs.RS(k) + i))
    ctx.cover('call')


def min_len(a, b):
    return z3.If(a <= b, a, b)


def c_startstop(it, f, args, kw):
    """Contract of datautils.startstop_bool (proved in C05)."""
    from .theory import Trigger
    if kw or len(args) != 2:
        return NotImplemented
    qs = [models.content_of(it, it.resolve(a)) for a in args]
    if any(q is None or isinstance(q, Conc) for q in qs):
        return NotImplemented
    ctx = cur()
    n = min_len(to_z3(qs[0].n), to_z3(qs[1].n))
    tr = Trigger(n, lambda j: zbool(it.truth(qs[0].at(j))),
                 lambda j: zbool(it.truth(qs[1].at(j))))
    ctx.ghost['trigger'] = tr
    return SeqObj('list', Sym(n, tr.result))
