"""C07: data and names only hold integer keys and flat arrays."""
import z3

from pydv.core import (I, B, Obj, Opaque, Pieces, SeqObj, Sym, Conc, TAGS,
                       Unsupported, _tag, _ival, to_obj, to_z3, zand, zbool,
                       zor, cur, is_int, is_bool)
from pydv import models
from pydv.interp import DictV, Interp, SymMap
from pydv.models import ArrLike, uf
from . import contract
from .packs import (A_INT, DataMap, call_or_exc, exc_name, expect)

F = 'channelpack.pack.'
A_NP = ('np.array(v, copy=False) is an array whose ndim, length and elements '
        'are functions of v (a one-dimensional array is returned as is)')
A_KEY = 'an object is an integer exactly when isinstance says so'


def dict_class(it, cls):
    import channelpack.pack as p
    return it.wrap(getattr(p, cls))


class Target(object):
    """A dict of the class with arbitrary content."""

    def __init__(self, it, cls):
        self.it, self.cls = it, cls
        self.D = DataMap('own', 'array' if cls == 'NpDict' else 'str')
        self.d = self.D.dict(dict_class(it, cls))
        self.before = self.d.sym

    def unchanged(self, ctx, name):
        d = self.d
        if d.sym is self.before and not d.store:
            ctx.prove(name, True)
            return
        t = ctx.fresh('t', I)
        dom, val = content(self.it, d)
        ctx.prove(name + ' (keys)', zbool(dom(t)) == self.D.dom(t))
        ctx.assume(self.D.dom(t))
        self.same_old(ctx, name + ' (values)', val(t), t)

    def same_old(self, ctx, name, v, t):
        v = self.it.resolve(v)
        if self.cls == 'NpDict':
            ctx.prove(name, v is self.D.val(t))
        else:
            ctx.prove(name, to_obj(v) == self.D.nm(t))


def content(it, d):
    """(dom, val) of a dict with integer keys."""
    if isinstance(d.sym, SymMap):
        return d.sym.dom, d.sym.val
    items = [(it.resolve(k), v) for k, v in d.store.items()]

    def term(k):
        if isinstance(k, Opaque):
            return _ival(k.term)
        return to_z3(it.num(k))

    def val(t):
        for k, v in items:
            c = zbool(term(k) == t)
            if cur().entails(c) or cur().branch(c):
                return v
        raise Unsupported('no such key')
    return (lambda t: zor(*[zbool(term(k) == t) for k, v in items])), val


def is_int_obj(t):
    return z3.Or(_tag(t) == TAGS['int'], _tag(t) == TAGS['bool'])


class Item(object):
    def __init__(self, ctx, cls, k=0, key=None):
        self.cls = cls
        if key is None:
            self.kt = ctx.fresh('key%d' % k, Obj)
            self.key = Opaque(self.kt, 'any')
            self.good_key = is_int_obj(self.kt)
            self.num = _ival(self.kt)
        else:
            self.key = self.num = key
            self.good_key = z3.BoolVal(True)
        self.vt = ctx.fresh('value%d' % k, Obj)
        self.value = ArrLike(self.vt) if cls == 'NpDict' else Opaque(
            self.vt, 'any')
        self.good_val = uf('ndim_of', Obj, I)(self.vt) == 1 \
            if cls == 'NpDict' else z3.BoolVal(True)

    def stored(self, ctx, it, name, v):
        is_value(ctx, it, name, v, self.vt, self.cls)


def is_value(ctx, it, name, v, vt, cls):
    v = it.resolve(v)
    if cls != 'NpDict':
        ctx.prove(name, to_obj(v) == vt)
        return
    ok = isinstance(v, SeqObj) and v.kind == 'ndarray'
    ctx.prove(name + ' is an array', ok)
    if not ok:
        return
    ctx.prove(name + ' is flat', zbool(to_z3(v.extra.get('ndim')) == 1))
    n = uf('len_of', Obj, I)(vt)
    ctx.prove(name + ' has the length given', zbool(to_z3(v.content.n) == n))
    j = ctx.fresh('j', I)
    ctx.prove(name + ' has the elements given', z3.Implies(
        z3.And(j >= 0, j < n),
        to_obj(v.content.at(j)) == uf('elem_of', Obj, I, Obj)(vt, j)))


def refused(ctx, e, items, tgt, name):
    """Check an exception: the right one, and nothing changed."""
    nm = exc_name(e)
    if nm == 'TypeError':
        ctx.prove(name + ': TypeError only for a key that is no integer',
                  z3.Not(z3.And(*[i.good_key for i in items]))
                  if items else False)
    elif nm == 'ValueError':
        ctx.prove(name + ': ValueError only for a value that is not flat',
                  z3.Not(z3.And(*[i.good_val for i in items]))
                  if items else False)
    else:
        expect(ctx, e, name)
        return
    ctx.cover('refused')
    if tgt is not None:
        tgt.unchanged(ctx, name + ': content as it was')


def accepted(ctx, items, name):
    ctx.prove(name + ': keys are integers',
              z3.And(*([i.good_key for i in items] or [z3.BoolVal(True)])))
    ctx.prove(name + ': values are flat',
              z3.And(*([i.good_val for i in items] or [z3.BoolVal(True)])))


def holds(ctx, it, d, items, tgt, name, first=False):
    """d is the content of the target with the items put in, in order."""
    dom, val = content(it, d)
    t = ctx.fresh('t', I)
    old = tgt.D.dom(t) if tgt is not None else z3.BoolVal(False)
    put = [t == i.num for i in items]
    ctx.prove(name + ': keys', zbool(dom(t)) == z3.Or(old, *put))
    ctx.assume(zbool(dom(t)))
    if first and ctx.branch(old):
        tgt.same_old(ctx, name + ': an item is kept', val(t), t)
        return
    for i, p in list(zip(items, put))[::-1]:
        if ctx.branch(p):
            i.stored(ctx, it, name + ': value', val(t))
            return
    if tgt is not None:
        tgt.same_old(ctx, name + ': other items as before', val(t), t)


def setitem(cls):
    def run(ctx):
        it = Interp({})
        tgt = Target(it, cls)
        x = Item(ctx, cls)
        f = it.getattr(tgt.d, '__setitem__')
        v, e = call_or_exc(it, f, [x.key, x.value])
        if e is not None:
            refused(ctx, e, [x], tgt, 'setitem')
            return
        accepted(ctx, [x], 'setitem')
        holds(ctx, it, tgt.d, [x], tgt, 'setitem')
        ctx.cover('post')
    return run


def setdefault(cls):
    def run(ctx):
        it = Interp({})
        tgt = Target(it, cls)
        x = Item(ctx, cls)
        f = it.getattr(tgt.d, 'setdefault')
        v, e = call_or_exc(it, f, [x.key, x.value])
        if e is not None:
            refused(ctx, e, [x], tgt, 'setdefault')
            return
        accepted(ctx, [x], 'setdefault')
        if ctx.branch(tgt.D.dom(x.num)):
            tgt.same_old(ctx, 'setdefault: returns the item', v, x.num)
        else:
            x.stored(ctx, it, 'setdefault: returns', v)
        holds(ctx, it, tgt.d, [x], tgt, 'setdefault', first=True)
        ctx.cover('post')
    return run


COV = ('post', 'refused')
for _c in ('IntKeyDict', 'NpDict'):
    for _n, _m in (('__setitem__', setitem), ('setdefault', setdefault)):
        contract('C07', '%s.%s' % (_c, _n), [F + _c + '.' + _n],
                 covers=COV, assumes=(A_INT, A_NP, A_KEY))(_m(_c))


def source(it, how, items):
    if how == 'dict':
        return DictV({i.key: i.value for i in items})
    prs = [(i.key, i.value) for i in items]
    if how == 'lists':
        prs = [SeqObj('list', Conc(p)) for p in prs]
    return SeqObj('list', Conc(prs))


def some_items(cls, how, n, op):
    def run(ctx):
        it = Interp({})
        items = [Item(ctx, cls, k) for k in range(n)]
        src = source(it, how, items)
        if how == 'dict':
            for a in range(n):
                for b in range(a):
                    # the keys of a dict are distinct
                    ctx.assume(z3.And(
                        items[a].kt != items[b].kt, z3.Not(zbool(models.eq(
                            it, items[a].key, items[b].key))), z3.Not(z3.And(
                            items[a].good_key, items[b].good_key,
                            items[a].num == items[b].num))))
        name = '%s from %s' % (op, how)
        if op == 'update':
            tgt = Target(it, cls)
            v, e = call_or_exc(it, it.getattr(tgt.d, 'update'), [src])
            d = tgt.d
        else:
            tgt = None
            v, e = call_or_exc(it, dict_class(it, cls), [src])
            d = it.resolve(v)
        if e is not None:
            refused(ctx, e, items, tgt, name)
            return
        accepted(ctx, items, name)
        ctx.cover('post')
        holds(ctx, it, d, items, tgt, name)
    return run


for _c in ('IntKeyDict', 'NpDict'):
    for _op in ('update', 'new'):
        for _how in ('dict', 'pairs', 'lists'):
            for _n in (0, 1, 2):
                contract('C07', '%s %s from %s of %d' % (_c, _op, _how, _n),
                         [F + _c + '.update'] + (
                             [F + _c + '.__init__'] if _op == 'new' else []),
                         covers=COV if _n else ('post',),
                         bound='%d items put in (the content of the dict is '
                               'arbitrary)' % _n,
                         assumes=(A_INT, A_NP, A_KEY))(
                    some_items(_c, _how, _n, _op))


def many(cls, how, op):
    """Any number of items with distinct integer keys, any values."""
    def run(ctx):
        it = Interp({})
        S = DataMap('src', 'str')
        if cls == 'NpDict':
            S.val = lambda t: ArrLike(S.nm(to_z3(t)))
        nd = uf('ndim_of', Obj, I)
        if how == 'dict':
            src = S.dict()
        else:
            src = SeqObj('list', Sym(S.K, lambda j: (
                S.key(to_z3(j)), S.val(S.key(to_z3(j))))))
        if op == 'update':
            tgt = Target(it, cls)
            v, e = call_or_exc(it, it.getattr(tgt.d, 'update'), [src])
            d = tgt.d
        else:
            tgt = None
            v, e = call_or_exc(it, dict_class(it, cls), [src])
            d = it.resolve(v)
        i = z3.FreshConst(I, 'i')
        flat = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.K), nd(
            S.nm(S.key(i))) == 1))
        if e is not None:
            ok = exc_name(e) == 'ValueError' and cls == 'NpDict'
            if not ok:
                expect(ctx, e, op)
                return
            ctx.prove('ValueError only for a value that is not flat',
                      z3.Not(flat))
            if tgt is not None:
                tgt.unchanged(ctx, 'content as it was')
            ctx.cover('refused')
            return
        if cls == 'NpDict':
            j = ctx.fresh('j', I)
            ctx.prove('values are flat', z3.Implies(
                z3.And(j >= 0, j < S.K), nd(S.nm(S.key(j))) == 1))
        dom, val = content(it, d)
        t = ctx.fresh('t', I)
        old = tgt.D.dom(t) if tgt is not None else z3.BoolVal(False)
        ctx.prove('keys', zbool(dom(t)) == z3.Or(old, S.dom(t)))
        if ctx.branch(S.dom(t)):
            is_value(ctx, it, 'value', val(t), S.nm(t), cls)
        elif tgt is not None and ctx.branch(old):
            tgt.same_old(ctx, 'other items as before', val(t), t)
        ctx.cover('post')
    return run


for _c in ('IntKeyDict', 'NpDict'):
    for _op in ('update', 'new'):
        for _how in ('dict', 'pairs'):
            contract('C07', '%s %s from %s of any size' % (_c, _op, _how),
                     [F + _c + '.update'] + (
                         [F + _c + '.__init__'] if _op == 'new' else []),
                     covers=('post', 'refused') if _c == 'NpDict' else (
                         'post',),
                     assumes=(A_INT, A_NP, A_KEY,
                              'the integer keys of the source are distinct'))(
                many(_c, _how, _op))
