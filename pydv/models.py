"""Assumed contracts on Python builtins and numpy, as symbolic models.

Everything here is trusted base: it states what CPython/numpy do on the
operations the code under contract uses.  The oracles exercise the same
operations on the real interpreter.
"""
import ast
import operator
import re
import string

import numpy as np
import z3

from .core import (B, I, R, Obj, Unsupported, PathEnd, PyRaise, Value, ExcV,
                   Opaque, Junk, UNBOUND, HV, SliceV, Seq, Conc, Sym, TupV,
                   StrV, Pieces, Heap, SeqObj, InstV, is_z3, is_int, is_bool,
                   is_real, is_num, real_val, const_obj, const_value, to_obj,
                   sort_of,
                   to_z3, from_z3, zand, zor, znot, zimp, zbool, zeq, subst,
                   cur, _truthy, _pyeq, _tag, _ival, TAGS)
from .interp import (FuncV, BoundV, Builtin, ModV, ClassV, SuperV, NTClass,
                     NTV, NTSym, NTSymV, OpaqueFn, GenV, DictV, SymMap, SetV, StarV,
                     YieldAll, SKIP, MODELS, TYPECALL, py_raise, PieceSeq,
                     filter_seq, is_exc_class, ReturnEx, _unsup)
from . import loops
from .loops import concat, peeled, is_gather, reading, gather_read, extend_gather, REMOVED

NAN = float('nan')


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = Builtin(n, fn)
        return fn
    return deco


def uf(name, *sorts):
    return z3.Function(name, *sorts)


# ------------------------------------------------------------ wrapping

def wrap_special(interp, v):
    if isinstance(v, np.generic):
        return interp.wrap(v.item())
    if type(v).__name__ == 'Pattern':
        return RxV(v.pattern, v.flags)
    if type(v).__name__ == 'Struct' and hasattr(v, 'unpack'):
        return StructV(v.format)
    if type(v).__name__ in ('builtin_function_or_method', 'ufunc',
                            'method_descriptor', 'type'):
        return None
    if isinstance(v, __import__('datetime').datetime):
        from .ext import wrap_datetime
        return wrap_datetime(v)
    return None


class PyConst(Value):
    """A concrete Python object passed around untouched."""

    def __init__(self, real):
        self.real = real


class RxV(Value):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags


class StructV(Value):
    def __init__(self, fmt):
        self.fmt = fmt


class DType(Value):
    def __init__(self, arr):
        self.arr = arr


# ------------------------------------------------------------ sequences

def content_of(interp, v):
    """Seq content of a sequence value, or None."""
    if isinstance(v, tuple):
        return Conc(v)
    if isinstance(v, SeqObj):
        if is_gather(v.content):
            return reading(v.content)
        return v.content
    if isinstance(v, (TupV, StrV)):
        return v.content
    if isinstance(v, NTV):
        return Conc(v.values)
    if isinstance(v, NTSymV):
        return v.content
    if isinstance(v, str):
        return Conc(list(v))
    if isinstance(v, bytes):
        return Conc(list(v))
    return None


def iter_seq(interp, v):
    if isinstance(v, StrV):
        if v.isbytes:
            return v.content
        c = v.content
        if isinstance(c, Conc):
            return Conc([char_at(v, k) for k in range(c.n)])
        return Sym(c.n, lambda i: char_at(v, i))
    if isinstance(v, str):
        return Conc(list(v))
    c = content_of(interp, v)
    if c is not None:
        return c
    if isinstance(v, DictV):
        return dict_keys(interp, v)
    if isinstance(v, SetV):
        if v.pred_trivial() if hasattr(v, 'pred_trivial') else False:
            return v.seq
        raise Unsupported('iteration over a set')
    if isinstance(v, GenV):
        return collect(interp, v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, InstV):
        h = getattr(v.cls, 'iter_seq', None)
        if h is not None:
            return h(interp, v)
        if isinstance(v.cls, ClassV):
            m = interp.find_attr(v.cls, '__iter__')
            if m is not None:
                return iter_seq(interp, interp.call(m, [v]))
        py_raise(TypeError, 'not iterable')
    if isinstance(v, StarV):
        return v.seq
    h = getattr(v, 'iter_seq', None)
    if h is not None:
        return h(interp)
    if v is None or is_num(v):
        py_raise(TypeError, 'not iterable')
    raise Unsupported('iteration over %r' % (v,))


def char_at(s, i):
    """One-character string of a StrV."""
    return StrV(Conc([s.content.at(i)]), s.isbytes)


def collect(interp, g):
    """Everything a generator still yields."""
    if g.collected is not None:
        raise Unsupported('generator consumed twice')
    cur().mutating(g, 'content')
    parts = getattr(g, 'pending', None)
    segs = [parts] if parts is not None else []
    g.pending = None
    buf = []
    if not g.done:
        for y in g.it:
            if isinstance(y, YieldAll):
                if buf:
                    segs.append(Conc(buf))
                    buf = []
                segs.append(y.seq)
            else:
                buf.append(y)
    if buf:
        segs.append(Conc(buf))
    g.done = True
    g.collected = True
    out = Conc([])
    for s in segs:
        out = concat(interp, out, s)
    return out


def gen_next(interp, g):
    if getattr(g, 'pending', None) is not None:
        q = g.pending
        if isinstance(q.n, int):
            if q.n > 0:
                v = q.at(0)
                g.pending = drop(q, 1)
                return v
        elif cur().branch(q.n > 0):
            g.pending = drop(q, 1)
            return q.at(0)
        g.pending = None
    if g.done:
        py_raise(StopIteration)
    cur().mutating(g, 'content')
    for y in g.it:
        if isinstance(y, YieldAll):
            g.pending = y.seq
            return gen_next(interp, g)
        return y
    g.done = True
    py_raise(StopIteration)


def drop(q, k):
    if isinstance(q, Conc):
        return Conc(q.items[k:])
    return Sym(q.n - k, lambda j: q.at(j + k))


def seq_len(v):
    return v.n


def clamp_slice(interp, sl, n):
    """start, stop of slice(start, stop) over length n, step 1."""
    st, en = sl.start, sl.stop
    if isinstance(n, int) and all(x is None or isinstance(x, int)
                                  for x in (st, en)):
        s, e, _ = slice(st, en).indices(n)
        return s, max(s, e)
    n = to_z3(n)

    def norm(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, int):
            if x >= 0:
                return z3.If(n < x, n, z3.IntVal(x))
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        ctx = cur()
        if ctx.entails(zand(x >= 0, x <= n)):
            return x
        return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x),
                     z3.If(x > n, n, x))
    s = norm(st, z3.IntVal(0))
    e = norm(en, n)
    if cur().entails(s <= e):
        return s, e
    return s, z3.If(e < s, s, e)


def slice_seq(interp, c, sl):
    step = sl.step
    if step not in (None, 1):
        if isinstance(c, Conc) and all(x is None or isinstance(x, int) for x
                                       in (sl.start, sl.stop, sl.step)):
            return Conc(c.items[slice(sl.start, sl.stop, sl.step)])
        if step == -1 and sl.start is None and sl.stop is None:
            return Sym(c.n, lambda j: c.at(to_z3(c.n) - 1 - j))
        raise Unsupported('slice step')
    for x in (sl.start, sl.stop):
        if not (x is None or is_int(x)):
            if isinstance(x, (str, float)):
                py_raise(TypeError, 'slice indices')
            raise Unsupported('slice index')
    p = peeled(c)
    if p is not None and sl.stop is None and isinstance(
            sl.start, int) and sl.start == p[0].n:
        return p[1]
    s, e = clamp_slice(interp, sl, c.n)
    if isinstance(s, int) and isinstance(e, int) and isinstance(c, Conc):
        return Conc(c.items[s:e])
    if isinstance(c, Conc) and is_z3(s) and is_z3(e):
        s2, e2 = z3.simplify(to_z3(s)), z3.simplify(to_z3(e))
        if z3.is_int_value(s2) and z3.is_int_value(e2):
            return Conc(c.items[s2.as_long():e2.as_long()])
    n = z3.simplify(to_z3(e) - to_z3(s))
    if z3.is_int_value(n):
        n = n.as_long()
        return Conc([c.at(at_plus(s, k)) for k in range(n)])
    return Sym(n, lambda j: c.at(at_plus(s, j)))


def at_plus(s, j):
    if isinstance(s, int) and isinstance(j, int):
        return s + j
    r = z3.simplify(to_z3(s) + to_z3(j))
    return r.as_long() if z3.is_int_value(r) else r


def index_seq(interp, c, i, exc=IndexError):
    n = c.n
    i = interp.num(i)
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return c.at(i % n if n else 0)
        py_raise(exc, 'index out of range')
    ctx = cur()
    if isinstance(i, int):
        if i >= 0:
            if ctx.branch(to_z3(n) > i):
                return c.at(i)
        elif ctx.branch(to_z3(n) >= -i):
            return c.at(to_z3(n) + i)
        py_raise(exc, 'index out of range')
    if ctx.branch(z3.And(i >= 0, i < n)):
        return c.at(i)
    if ctx.branch(z3.And(i < 0, i >= -to_z3(n))):
        return c.at(i + n)
    py_raise(exc, 'index out of range')


def like(interp, v, c):
    """A new value of v's type with content c."""
    if isinstance(v, (tuple, TupV, NTV)):
        return c.items if isinstance(c, Conc) else TupV(c)
    if isinstance(v, (StrV, str, bytes)):
        return mkstr(c, isinstance(v, bytes) or getattr(v, 'isbytes', False))
    if isinstance(v, SeqObj):
        ex = {k: x for k, x in v.extra.items() if k != 'ident'}
        return SeqObj(v.kind, c, **ex)
    raise Unsupported('like')


def mkstr(c, isbytes=False):
    if isinstance(c, Conc):
        if isbytes and all(isinstance(x, int) for x in c.items):
            return bytes(c.items)
        if not isbytes and all(isinstance(x, str) and len(x) == 1
                               for x in c.items):
            return ''.join(c.items)
        if not isbytes and all(isinstance(x, int) for x in c.items):
            return ''.join(map(chr, c.items))
    return StrV(c, isbytes)


def as_strv(v):
    """Concrete str/bytes as StrV."""
    if isinstance(v, StrV):
        return v
    if isinstance(v, str):
        return StrV(Conc([ord(x) for x in v]))
    if isinstance(v, bytes):
        return StrV(Conc(list(v)), True)
    return None


def getitem(interp, o, i):
    ctx = cur()
    if isinstance(i, (HV, Pieces)):
        i = interp.resolve(i)
    if isinstance(o, str) and isinstance(i, int):
        try:
            return o[i]
        except IndexError:
            py_raise(IndexError, 'string index')
    if isinstance(o, (str, bytes)) and isinstance(i, SliceV) and all(
            x is None or isinstance(x, int)
            for x in (i.start, i.stop, i.step)):
        return o[i.start:i.stop:i.step]
    if isinstance(o, DictV):
        if o.cls is not None:
            m = interp.find_attr(o.cls, '__getitem__')
            if isinstance(m, FuncV):
                return interp.call(m, [o, i])
        return dict_getitem(interp, o, i)
    if isinstance(o, str):
        o = as_strv(o)
    if isinstance(o, Opaque) and isinstance(i, SliceV):
        from .ext import chunk, chunk_args
        ca = chunk_args(o)
        if ca is not None and i.step in (None, 1):
            s, e = clamp_slice(interp, i, ca[2])
            return chunk(ca[0], ca[1] + s, to_z3(e) - to_z3(s))
    c = content_of(interp, o)
    if c is not None:
        if isinstance(i, SliceV):
            r = slice_seq(interp, c, i)
            v = like(interp, o, r)
            if isinstance(o, SeqObj) and o.kind == 'ndarray' and \
                    'ident' in o.extra and is_z3(o.extra['ident']):
                pass
            return v
        if is_int(i) or is_bool(i):
            v = index_seq(interp, c, i)
            if isinstance(o, StrV) and not o.isbytes:
                return mkstr(Conc([v]))
            return v
        if isinstance(o, SeqObj) and o.kind == 'ndarray':
            return arr_index(interp, o, i)
        if isinstance(i, (str, float)) or i is None:
            py_raise(TypeError, 'indices must be integers')
        raise Unsupported('index %r' % (i,))
    h = getattr(o, 'getitem', None)
    if h is not None:
        return h(interp, i)
    if isinstance(o, InstV):
        h = getattr(o.cls, 'getitem', None)
        if h is not None:
            return h(interp, o, i)
        if isinstance(o.cls, ClassV):
            m = interp.find_attr(o.cls, '__getitem__')
            if isinstance(m, FuncV):
                return interp.call(m, [o, i])
    if isinstance(o, Opaque):
        if isinstance(i, SliceV):
            f = uf('slice_of', Obj, Obj, Obj, Obj)
            return Opaque(f(o.term, to_obj(i.start), to_obj(i.stop)), o.ty)
        f = uf('item_of', Obj, Obj, Obj)
        return Opaque(f(o.term, to_obj(i)), 'any')
    raise Unsupported('subscript of %r' % (o,))


def setitem(interp, o, i, v):
    ctx = cur()
    if isinstance(o, DictV):
        if o.cls is not None:
            m = interp.find_attr(o.cls, '__setitem__')
            if isinstance(m, FuncV):
                interp.call(m, [o, i, v])
                return
        dict_setitem(interp, o, i, v)
        return
    if isinstance(o, SeqObj):
        if is_gather(o.content):
            raise Unsupported('item assignment under construction')
        c = o.content
        if o.kind == 'ndarray' and isinstance(i, (SliceV, SeqObj)):
            return arr_setslice(interp, o, i, v)
        if isinstance(i, SliceV):
            raise Unsupported('list slice assignment')
        if not (is_int(i) or is_bool(i)):
            raise Unsupported('item index')
        n = c.n
        i = interp.num(i)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                py_raise(IndexError, 'assignment index')
            items = list(c.items)
            items[i] = v
            o.content = Conc(items)
            return
        if not ctx.branch(z3.And(to_z3(i) >= -to_z3(n), to_z3(i) <
                                 to_z3(n))):
            py_raise(IndexError, 'assignment index')
        if not ctx.branch(to_z3(i) >= 0):
            i = i + n
        if isinstance(c, Conc):
            items = []
            for k, x in enumerate(c.items):
                if ctx.branch(to_z3(i) == k):
                    items = list(c.items)
                    items[k] = v
                    o.content = Conc(items)
                    return
            raise PathEnd()
        v = arr_cast(interp, o, v)

        def at(j, c=c, i=i, v=v):
            e = c.at(j)
            jj = to_z3(j)
            if sort_of(e) is not None and sort_of(e) == sort_of(v):
                return from_z3(z3.If(jj == i, to_z3(v), to_z3(e)), e)
            return Pieces([(jj == i, v), (jj != i, e)])
        o.content = Sym(n, at)
        return
    if isinstance(o, InstV):
        h = getattr(o.cls, 'setitem', None)
        if h is not None:
            return h(interp, o, i, v)
    raise Unsupported('item assignment on %r' % (o,))


def delitem(interp, o, i):
    if isinstance(o, DictV):
        return dict_delitem(interp, o, i)
    if isinstance(o, SeqObj) and o.kind == 'list' and isinstance(
            o.content, Conc) and isinstance(i, int):
        items = list(o.content.items)
        try:
            del items[i]
        except IndexError:
            py_raise(IndexError, 'del')
        o.content = Conc(items)
        return
    raise Unsupported('del item')


# ------------------------------------------------------------ truth, eq

def truth(interp, v):
    if v is None:
        return False
    if isinstance(v, (bool, z3.BoolRef)):
        return v
    if isinstance(v, (int, float, str, bytes)):
        return bool(v)
    if isinstance(v, z3.ArithRef):
        return v != 0
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, NTV):
        return len(v.values) > 0
    if isinstance(v, SeqObj):
        if v.kind == 'ndarray':
            raise Unsupported('truth of an array')
        if is_gather(v.content):
            return nonzero(reading(v.content).n)
        return nonzero(v.content.n)
    if isinstance(v, (TupV, StrV)):
        return nonzero(v.content.n)
    if isinstance(v, Opaque):
        return _truthy(v.term)
    if isinstance(v, DictV):
        if v.cls is not None:
            for nm in ('__bool__', '__len__'):
                m = interp.find_attr(v.cls, nm)
                if isinstance(m, FuncV):
                    return truth(interp, interp.call(m, [v]))
        if is_gather(v.sym):
            raise Unsupported('read of a dict under construction')
        if v.sym is not None:
            return nonzero(v.sym.keys.n)
        return len(v.store) > 0
    if isinstance(v, SetV):
        return set_nonempty(interp, v)
    if isinstance(v, (FuncV, BoundV, Builtin, ClassV, type, OpaqueFn,
                      NTClass, GenV, RxV, ExcV)):
        return True
    if isinstance(v, InstV):
        h = getattr(v.cls, 'truth', None)
        if h is not None:
            return h(interp, v)
        if isinstance(v.cls, ClassV):
            for nm in ('__bool__', '__len__'):
                m = interp.find_attr(v.cls, nm)
                if isinstance(m, FuncV):
                    return truth(interp, interp.call(m, [v]))
        return True
    h = getattr(v, 'truth', None)
    if h is not None:
        return h(interp)
    raise Unsupported('truth of %r' % (v,))


def nonzero(n):
    return n > 0


def seq_eq(interp, a, b):
    if isinstance(a, Conc) and isinstance(b, Conc):
        if a.n != b.n:
            return False
        return zand(*[eq(interp, interp.resolve(x), interp.resolve(y))
                      for x, y in zip(a.items, b.items)])
    if isinstance(a.n, int) or isinstance(b.n, int):
        n = a.n if isinstance(a.n, int) else b.n
        if not cur().branch(to_z3(a.n) == to_z3(b.n)):
            return False
        return zand(*[eq(interp, interp.resolve(a.at(k)),
                         interp.resolve(b.at(k))) for k in range(n)])
    j = z3.FreshConst(I, 'j')
    e = each(interp, j, a.n, lambda: eq(
        interp, interp.resolve(a.at(j)), interp.resolve(b.at(j))))
    return zand(to_z3(a.n) == to_z3(b.n), z3.ForAll(
        [j], z3.Implies(z3.And(j >= 0, j < to_z3(a.n)), e)))


def kindname(v):
    """Coarse Python type of a value, '' when it could be several."""
    if v is None:
        return 'none'
    if is_bool(v):
        return 'num'
    if is_num(v):
        return 'num'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, StrV):
        return 'bytes' if v.isbytes else 'str'
    if isinstance(v, (tuple, TupV, NTV)):
        return 'tuple'
    if isinstance(v, SeqObj):
        return v.kind
    if isinstance(v, DictV):
        return 'dict'
    if isinstance(v, SetV):
        return 'set'
    if isinstance(v, Opaque):
        return {'str': 'str', 'bytes': 'bytes', 'float': 'num',
                'int': 'num'}.get(v.ty, '')
    if isinstance(v, (FuncV, BoundV, Builtin, OpaqueFn, ClassV, type)):
        return 'fn'
    if isinstance(v, SliceV):
        return 'slice'
    return '?'


def eq(interp, a, b):
    """Python == as a condition (scalars and sequences)."""
    if isinstance(a, (Pieces, HV)):
        a = interp.resolve(a)
    if isinstance(b, (Pieces, HV)):
        b = interp.resolve(b)
    prim = (type(None), bool, int, float, str, bytes)
    if isinstance(a, prim) and isinstance(b, prim):
        return a == b
    if isinstance(a, Value) and hasattr(a, 'eq'):
        return a.eq(interp, b)
    if isinstance(b, Value) and hasattr(b, 'eq'):
        return b.eq(interp, a)
    if is_num(a) and is_num(b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return False
        x, y = interp.num(a), interp.num(b)
        if is_bool(a) and is_bool(b):
            return zbool(a) == zbool(b)
        x, y = to_z3(x), to_z3(y)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        return x == y
    ka, kb = kindname(a), kindname(b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if ka and kb and ka != kb:
            return False
        if ka in ('str', 'bytes') and kb in ('str', 'bytes'):
            try:
                return to_obj(a) == to_obj(b)
            except Unsupported:
                return str_eq(interp, a, b)
        if a is None or b is None:
            o = b if a is None else a
            if kindname(o):
                return False
            return to_obj(a) == to_obj(b)
        if isinstance(a, SeqObj) or isinstance(b, SeqObj):
            raise Unsupported('comparison with an array')
        x, y = to_obj(a), to_obj(b)
        if ka in ('str', 'bytes') or kb in ('str', 'bytes'):
            # the unknown side equals a string iff it is that string
            return x == y
        isint = lambda t: z3.Or(_tag(t) == TAGS['int'],
                                _tag(t) == TAGS['bool'])
        cur().fact(z3.And(
            _pyeq(x, y) == _pyeq(y, x), z3.Implies(
                z3.And(isint(x), isint(y)),
                _pyeq(x, y) == (_ival(x) == _ival(y)))), universal=True)
        return _pyeq(x, y)
    if ka != kb and not (ka in ('list', 'ndarray') and kb in
                         ('list', 'ndarray')):
        if '?' in (ka, kb):
            if a is b:
                return True
            raise Unsupported('== of %r and %r' % (a, b))
        return False
    if ka in ('str', 'bytes'):
        return str_eq(interp, a, b)
    if ka in ('tuple', 'list'):
        return seq_eq(interp, content_of(interp, a), content_of(interp, b))
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return zand(eq(interp, a.start, b.start), eq(interp, a.stop, b.stop))
    if ka == 'set':
        return set_eq(interp, a, b)
    if ka == 'fn':
        return same(a, b)
    if ka == 'dict' and a.sym is None and b.sym is None:
        if set(a.store) != set(b.store):
            return False
        return zand(*[eq(interp, interp.resolve(a.store[k]),
                         interp.resolve(b.store[k])) for k in a.store])
    if a is b:
        return True
    raise Unsupported('== of %r and %r' % (a, b))


def str_eq(interp, a, b):
    ia, ib = getattr(a, 'ident', None), getattr(b, 'ident', None)
    x, y = as_strv(a), as_strv(b)
    if x is None or y is None:
        return to_obj(a) == to_obj(b)
    return seq_eq(interp, x.content, y.content)


def same(a, b):
    """Python `is` for values where it is decidable."""
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a is b or (a.node is b.node and (
            a.closure is b.closure or a.closure is not None and
            b.closure is not None and
            a.closure.live() is b.closure.live()))
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return a.real is b.real
    if isinstance(a, OpaqueFn) and isinstance(b, OpaqueFn):
        return a.term == b.term
    if isinstance(a, OpaqueFn) or isinstance(b, OpaqueFn):
        f = a if isinstance(a, OpaqueFn) else b
        return False if not getattr(f, 'maybe', None) else False
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return a.name == b.name and a is b
    return a is b


def compare(interp, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(interp, a, b)
        return r if isinstance(op, ast.Is) else znot(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(interp, b, a)
        return r if isinstance(op, ast.In) else znot(r)
    if (isinstance(a, SeqObj) and a.kind == 'ndarray') or (
            isinstance(b, SeqObj) and b.kind == 'ndarray'):
        return arr_compare(interp, op, a, b)
    if isinstance(op, ast.Eq):
        return eq(interp, a, b)
    if isinstance(op, ast.NotEq):
        return znot(eq(interp, a, b))
    fn = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
          ast.GtE: operator.ge}[type(op)]
    if is_num(a) and is_num(b):
        x, y = interp.num(a), interp.num(b)
        if not is_z3(x) and not is_z3(y):
            return fn(x, y)
        x, y = to_z3(x), to_z3(y)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        return fn(x, y)
    if isinstance(a, (str, bytes)) and type(a) is type(b):
        return fn(a, b)
    ka, kb = kindname(a), kindname(b)
    if ka != kb and ka and kb and '?' not in (ka, kb):
        py_raise(TypeError, 'unorderable')
    if ka in ('str', 'bytes') and kb == ka:
        x, y = as_strv(a), as_strv(b)
        if x is not None and y is not None and x.content.n == 1 and \
                y.content.n == 1:
            return fn(to_z3(x.content.at(0)), to_z3(y.content.at(0)))
        raise Unsupported('string order')
    if ka == 'tuple' and kb == 'tuple':
        x, y = content_of(interp, a), content_of(interp, b)
        if isinstance(x, Conc) and isinstance(y, Conc):
            return tuple_order(interp, fn, list(x.items), list(y.items))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        f = uf('cmp_%s' % type(op).__name__, Obj, Obj, B)
        return f(to_obj(a), to_obj(b))
    if isinstance(a, SetV) and isinstance(b, SetV):
        if isinstance(op, ast.LtE):
            return znot(set_nonempty(interp, set_diff(interp, a, b)))
        if isinstance(op, ast.GtE):
            return znot(set_nonempty(interp, set_diff(interp, b, a)))
    raise Unsupported('order of %r and %r' % (a, b))


def tuple_order(interp, fn, xs, ys):
    strict = fn in (operator.lt, operator.gt)
    lt = operator.lt if fn in (operator.lt, operator.le) else operator.gt
    if not xs or not ys:
        return fn(len(xs), len(ys))
    e = eq(interp, xs[0], ys[0])
    first = compare(interp, ast.Lt() if lt is operator.lt else ast.Gt(),
                    xs[0], ys[0])
    return zor(first, zand(e, tuple_order(interp, fn, xs[1:], ys[1:])))


def is_(interp, a, b):
    if a is None or b is None:
        o = b if a is None else a
        if o is None:
            return True
        if isinstance(o, Opaque):
            if o.ty != 'any':
                return False
            return o.term == const_obj(None)
        return False
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool,
                                                            z3.BoolRef)):
        return zbool(a) == zbool(b)
    if isinstance(a, bool) or isinstance(b, bool):
        o = b if isinstance(a, bool) else a
        if isinstance(o, Opaque) and o.ty == 'any':
            return o.term == to_obj(a if isinstance(a, bool) else b)
        return False
    if isinstance(a, type) and isinstance(b, type):
        return a is b
    if isinstance(a, type) or isinstance(b, type):
        if isinstance(a, ClassV):
            return a.real is b
        if isinstance(b, ClassV):
            return b.real is a
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            t = a if isinstance(a, TypeOf) else b
            c = b if t is a else a
            return t.is_type(interp, c)
        return False
    if isinstance(a, (str, bytes, int)) and isinstance(b, (str, bytes, int)):
        raise Unsupported('identity of literals')
    if isinstance(a, (FuncV, Builtin, ClassV, OpaqueFn)) or isinstance(
            b, (FuncV, Builtin, ClassV, OpaqueFn)):
        return same(a, b)
    if isinstance(a, (Heap,)) or isinstance(b, (Heap,)):
        return a is b
    raise Unsupported('is')


class TypeOf(Value):
    """type(v) for a value of unknown type."""

    def __init__(self, v):
        self.v = v

    def is_type(self, interp, c):
        if c in (int, str, bytes, float, bool, type(None)):
            tn = {int: 'int', str: 'str', bytes: 'bytes', float: 'float',
                  bool: 'bool', type(None): 'none'}[c]
            return _tag(self.v.term) == TAGS[tn]
        raise Unsupported('type test')


def contains(interp, c, x):
    ctx = cur()
    if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
        if type(c) is not type(x):
            py_raise(TypeError, 'in <string>')
        return x in c
    if isinstance(c, DictV):
        return dict_contains(interp, c, x)
    if isinstance(c, SetV):
        return set_contains(interp, c, x)
    if isinstance(c, (str, bytes, StrV)) and isinstance(x, (str, bytes,
                                                            StrV)):
        cs, xs = as_strv(c), as_strv(x)
        if isinstance(xs.content, Conc) and xs.content.n == 1:
            v = xs.content.at(0)
            if isinstance(cs.content, Conc):
                return zor(*[to_z3(e) == to_z3(v) for e in cs.content.items])
            j = z3.FreshConst(I, 'j')
            return z3.Exists([j], z3.And(j >= 0, j < cs.content.n,
                                         to_z3(cs.content.at(j)) ==
                                         to_z3(v)))
        if isinstance(cs.content, Conc) and isinstance(xs.content, Conc):
            n, m = cs.content.n, xs.content.n
            return zor(*[zand(*[to_z3(cs.content.at(k + q)) ==
                                to_z3(xs.content.at(q)) for q in range(m)])
                         for k in range(n - m + 1)])
        raise Unsupported('substring')
    if isinstance(c, (str, bytes)) and isinstance(x, Opaque):
        if x.ty in ('str', 'bytes'):
            f = uf('substr_in', Obj, Obj, B)
            return f(x.term, const_obj(c))
        raise Unsupported('in string')
    if isinstance(c, Opaque):
        f = uf('contains', Obj, Obj, B)
        return f(c.term, to_obj(x))
    h = getattr(c, 'contains', None)
    if h is not None:
        return h(interp, x)
    if isinstance(c, InstV):
        h = getattr(c.cls, 'contains', None)
        if h is not None:
            return h(interp, c, x)
    q = iter_seq(interp, c)
    if isinstance(q.n, int):
        return zor(*[eq(interp, interp.resolve(q.at(k)), x)
                     for k in range(q.n)])
    j = z3.FreshConst(I, 'j')
    e = each(interp, j, q.n, lambda: eq(interp, interp.resolve(q.at(j)), x))
    return z3.Exists([j], z3.And(j >= 0, j < q.n, e))


# ------------------------------------------------------------ arithmetic

def bitand_const(x, m):
    """x & m for a constant mask m >= 0 (two's complement)."""
    out = None
    lo = 0
    while m >> lo:
        if not (m >> lo) & 1:
            lo += 1
            continue
        hi = lo
        while (m >> hi) & 1:
            hi += 1
        q = x / (1 << lo) if lo else x
        t = (q % (1 << (hi - lo)))
        t = t * (1 << lo) if lo else t
        out = t if out is None else out + t
        lo = hi
    return out if out is not None else z3.IntVal(0)


def binop(interp, op, a, b, inplace=False):
    ctx = cur()
    t = type(op)
    prim = (bool, int, float, str, bytes)
    if isinstance(a, prim) and isinstance(b, prim):
        f = {ast.Add: operator.add, ast.Sub: operator.sub,
             ast.Mult: operator.mul, ast.Div: operator.truediv,
             ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
             ast.Pow: operator.pow, ast.BitAnd: operator.and_,
             ast.BitOr: operator.or_, ast.BitXor: operator.xor,
             ast.LShift: operator.lshift, ast.RShift: operator.rshift}.get(t)
        if f is None:
            raise Unsupported('operator')
        try:
            return f(a, b)
        except Exception as e:
            py_raise(type(e), *[str(x) for x in e.args])
    if t is ast.Mod and isinstance(a, (str, bytes)):
        return percent(interp, a, b)
    arr = [v for v in (a, b) if isinstance(v, SeqObj) and
           v.kind == 'ndarray']
    if arr:
        return arr_binop(interp, t, a, b, inplace)
    if t is ast.Sub and isinstance(a, SetV) and isinstance(b, SetV):
        return set_diff(interp, a, b)
    if t is ast.Sub and isinstance(a, (KeysV, SetV)) and isinstance(
            b, (KeysV, SetV)):
        return set_diff(interp, as_set(interp, a), as_set(interp, b))
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(
            a, (SetV, KeysV)) and isinstance(b, (SetV, KeysV)):
        return set_op(interp, t, as_set(interp, a), as_set(interp, b))
    if is_num(a) and is_num(b):
        return num_op(interp, t, interp.num(a), interp.num(b), a, b)
    if t is ast.Add:
        if isinstance(a, SeqObj) and a.kind == 'list' and (
                inplace or isinstance(b, SeqObj)):
            if inplace:
                list_extend(interp, a, b)
                return a
            return SeqObj('list', concat(interp, content_of(interp, a),
                                         content_of(interp, b)))
        if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
            c = concat(interp, content_of(interp, a), content_of(interp, b))
            return c.items if isinstance(c, Conc) else TupV(c)
        x, y = as_strv(a), as_strv(b)
        if x is not None and y is not None and x.isbytes == y.isbytes:
            return mkstr(concat(interp, x.content, y.content), x.isbytes)
        if kindname(a) in ('str', 'bytes') and kindname(a) == kindname(b):
            return strcat(a, b)
        if {kindname(a), kindname(b)} == {'str', 'num'}:
            py_raise(TypeError, 'concatenate')
    if t is ast.Mult and isinstance(a, SeqObj) and is_int(b):
        return list_repeat(interp, a, b)
    if t is ast.Mult and isinstance(b, SeqObj) and is_int(a):
        return list_repeat(interp, b, a)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if kindname(a) in ('num', '') and kindname(b) in ('num', ''):
            f = uf('py_' + t.__name__, Obj, Obj, Obj)
            return Opaque(f(to_obj(a), to_obj(b)), 'any' if '' in (
                kindname(a), kindname(b)) else 'float')
    for v in (a, b):
        h = getattr(v, 'binop', None)
        if h is not None:
            r = h(interp, t, a, b)
            if r is not NotImplemented:
                return r
    raise Unsupported('operator %s on %r, %r' % (t.__name__, a, b))


def divz(x, y):
    """Quotient by a positive non-constant, like mulz."""
    q = uf('div_Int', I, I, I)(z3.simplify(x), y)
    m = mulz(q, y)
    cur().fact(z3.Implies(y > 0, z3.And(m <= x, x < m + y)))
    return q


def mulz(x, y):
    """Product; of two non-constants as an uninterpreted, commutative
    function (an abstraction: nothing is assumed of it)."""
    for a, b in ((x, y), (y, x)):
        v = z3.simplify(a)
        if z3.is_int_value(v) or z3.is_rational_value(v):
            return v * b
    if cur().ghost.get('nonlinear'):
        return x * y
    if str(y.sexpr()) < str(x.sexpr()):
        x, y = y, x
    srt = x.sort()
    return z3.Function('mul_%s' % srt, srt, srt, srt)(x, y)


def linear(t):
    """Integer term as ({id: (atom, coef)}, const)."""
    out, const = {}, 0
    st = [(t, 1)]
    while st:
        e, c = st.pop()
        if z3.is_int_value(e):
            const += c * e.as_long()
            continue
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            st.extend((x, c) for x in ch)
        elif k == z3.Z3_OP_SUB:
            st.append((ch[0], c))
            st.extend((x, -c) for x in ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            st.append((ch[0], -c))
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0]):
            st.append((ch[1], c * ch[0].as_long()))
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[1]):
            st.append((ch[0], c * ch[1].as_long()))
        else:
            a, old = out.get(e.get_id(), (e, 0))
            out[e.get_id()] = (a, old + c)
    return out, const


def _split(t, c):
    """t = c * q + r with the multiples of c in q, or None."""
    atoms, const = linear(t)
    q = [(a, k // c) for a, k in atoms.values() if k and k % c == 0]
    if not q:
        return None
    qt = z3.Sum([k * a if k != 1 else a for a, k in q]) if len(q) > 1 else (
        q[0][1] * q[0][0] if q[0][1] != 1 else q[0][0])
    rt = z3.IntVal(const % c)
    for a, k in atoms.values():
        if k and k % c:
            rt = rt + (k * a if k != 1 else a)
    return qt + const // c, rt


def zdiv(t, c):
    """Floor division by a positive constant."""
    sp = _split(t, c)
    if sp is None:
        return t / z3.IntVal(c)
    return sp[0] + z3.simplify(sp[1]) / z3.IntVal(c)


def zmod(t, c):
    sp = _split(t, c)
    if sp is None:
        return t % z3.IntVal(c)
    return z3.simplify(sp[1]) % z3.IntVal(c)


def real_int_part(t):
    """t = ToReal(i) + rest as (i, rest), taking integer atoms out."""
    st, ints, rest = [(t, 1)], [], []
    while st:
        e, c = st.pop()
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            st.extend((x, c) for x in ch)
        elif k == z3.Z3_OP_SUB:
            st.append((ch[0], c))
            st.extend((x, -c) for x in ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            st.append((ch[0], -c))
        elif k == z3.Z3_OP_TO_REAL:
            ints.append(ch[0] if c == 1 else -ch[0])
        else:
            rest.append(e if c == 1 else -e)
    if not ints:
        return None
    i = z3.Sum(ints) if len(ints) > 1 else ints[0]
    r = z3.Sum(rest) if len(rest) > 1 else (rest[0] if rest else
                                            z3.RealVal(0))
    return z3.simplify(i), z3.simplify(r)


def zfloor(t):
    """Floor of a real term."""
    sp = real_int_part(t)
    if sp is None:
        return z3.ToInt(t)
    i, r = sp
    if cur().entails(z3.And(r >= 0, r < 1)):
        return i
    return i + z3.ToInt(r)


def num_op(interp, t, x, y, a, b):
    ctx = cur()
    isf = lambda v: isinstance(v, float)
    if (isf(x) and x != x) or (isf(y) and y != y):
        return NAN
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and is_bool(a) and \
            is_bool(b):
        p, q = zbool(a), zbool(b)
        return {ast.BitAnd: z3.And(p, q), ast.BitOr: z3.Or(p, q),
                ast.BitXor: z3.Xor(p, q)}[t]
    zx, zy = to_z3(x), to_z3(y)
    bothint = zx.is_int() and zy.is_int()
    if not bothint or t is ast.Div:
        rx = z3.ToReal(zx) if zx.is_int() else zx
        ry = z3.ToReal(zy) if zy.is_int() else zy
        if t in (ast.Div, ast.FloorDiv, ast.Mod):
            if not ctx.branch(ry != 0):
                py_raise(ZeroDivisionError, 'division')
        if t is ast.Add:
            return rx + ry
        if t is ast.Sub:
            return rx - ry
        if t is ast.Mult:
            return mulz(rx, ry)
        if t is ast.Div:
            return rx / ry
        if t is ast.FloorDiv:
            return z3.ToReal(z3.ToInt(rx / ry))
        if t is ast.Mod:
            return rx - ry * z3.ToReal(z3.ToInt(rx / ry))
        if t is ast.Pow and isinstance(y, int) and 0 <= y <= 4:
            r = z3.RealVal(1)
            for _ in range(y):
                r = r * rx
            return r
        raise Unsupported('real operator')
    if t is ast.Add:
        return zx + zy
    if t is ast.Sub:
        return zx - zy
    if t is ast.Mult:
        return mulz(zx, zy)
    if t in (ast.FloorDiv, ast.Mod):
        if isinstance(y, int) and y > 0:
            return zdiv(zx, y) if t is ast.FloorDiv else zmod(zx, y)
        if not ctx.branch(zy != 0):
            py_raise(ZeroDivisionError, 'division')
        if ctx.branch(zy > 0):
            if ctx.ghost.get('linear'):
                q = divz(zx, zy)
                return q if t is ast.FloorDiv else zx - mulz(q, zy)
            return zx / zy if t is ast.FloorDiv else zx % zy
        q = (-zx) / (-zy)
        return q if t is ast.FloorDiv else zx - zy * q
    if t is ast.Pow:
        if isinstance(y, int) and 0 <= y <= 8:
            r = z3.IntVal(1)
            for _ in range(y):
                r = r * zx
            return r
        if isinstance(x, int) and x > 0:
            if not ctx.branch(zy >= 0):
                raise Unsupported('negative exponent')
            return pow_const(x, zy)
    if t is ast.BitAnd:
        if isinstance(y, int) and y >= 0:
            return bitand_const(zx, y)
        if isinstance(x, int) and x >= 0:
            return bitand_const(zy, x)
        if isinstance(y, int) and y < 0:
            return zx - bitand_const(zx, ~y)
    if t is ast.BitOr:
        if isinstance(y, int) and y >= 0:
            return zx + y - bitand_const(zx, y)
        if isinstance(x, int) and x >= 0:
            return zy + x - bitand_const(zy, x)
        for k in (8, 16, 24, 32, 4, 1, 2, 3, 5, 6, 7, 20, 30):
            p = 1 << k
            if ctx.entails(z3.And(zx % p == 0, zy >= 0, zy < p)) or \
                    ctx.entails(z3.And(zy % p == 0, zx >= 0, zx < p)):
                return zx + zy
    if t is ast.BitXor:
        if isinstance(y, int) and y >= 0:
            return zx + y - 2 * bitand_const(zx, y)
    if t is ast.LShift and isinstance(y, int) and y >= 0:
        return zx * (1 << y)
    if t is ast.RShift and isinstance(y, int) and y >= 0:
        return zdiv(zx, 1 << y)
    if t is ast.LShift and isinstance(x, int) and x > 0:
        return x * pow_const(2, zy)
    if t is ast.RShift:
        return zx / pow_const(2, zy)
    raise Unsupported('integer operator %s' % t.__name__)


_pows = {}


def pow_const(base, e):
    """base ** e for a constant base, e >= 0: recursive definition."""
    f = uf('pow_%d' % base, I, I)
    ctx = cur()
    key = ('pow', base)
    if key not in ctx.memo:
        ctx.memo[key] = f
        k = z3.FreshConst(I, 'k')
        ctx.fact(f(z3.IntVal(0)) == 1)
        ctx.fact(z3.ForAll([k], z3.Implies(k >= 0, z3.And(
            f(k) >= 1, f(k + 1) == base * f(k))), patterns=[f(k)])
            if False else z3.ForAll([k], z3.Implies(
                k > 0, z3.And(f(k) == base * f(k - 1), f(k) >= 1)),
                patterns=[f(k)]))
    return f(e)


def percent(interp, fmt, args):
    vals = args if isinstance(args, tuple) else (args,)
    if all(isinstance(v, (int, float, str, bytes)) for v in vals):
        try:
            return fmt % (args if isinstance(args, tuple) else args)
        except Exception as e:
            py_raise(type(e), str(e))
    if isinstance(fmt, str) and any(isinstance(interp.resolve(v), StrV)
                                    for v in vals):
        from .strings import fmt_strv
        r = fmt_strv(interp, fmt, vals)
        if r is not None:
            return r
    r = plain_percent(interp, fmt, vals)
    if r is not None:
        return r
    return opaque_format(interp, fmt, list(vals))


def plain_percent(interp, fmt, vals):
    """fmt % vals with plain %d of ints and %s only, else None."""
    if not isinstance(fmt, str):
        return None
    parts, vals = [], [interp.resolve(v) for v in vals]
    for x in re.findall(r'%.?|[^%]+', fmt):
        if x in ('%d', '%i', '%s'):
            if not vals or (x != '%s' and not is_int(vals[0])):
                return None
            parts.append(vals.pop(0))
        elif x == '%%':
            parts.append('%')
        elif x[0] == '%':
            return None
        else:
            parts.append(x)
    return None if vals else cat_texts(interp, parts)


def strcat(a, b):
    """Concatenation of unknown texts, associated to the right."""
    f = uf('strcat', Obj, Obj, Obj)
    x, y = to_obj(a), to_obj(b)
    ps = []
    while z3.is_app(x) and x.decl().eq(f):
        ps.append(x.arg(0))
        x = x.arg(1)
    ps.append(x)
    for x in ps[::-1]:
        y = f(x, y)
    return Opaque(y, kindname(a))


def cat_texts(interp, parts):
    """The concatenation of str(p) for p in parts, None if unknown."""
    vs = []
    for p in parts:
        p = interp.resolve(p)
        if p == '':
            continue
        if is_int(p) or kindname(p) == 'str':
            vs.append(t_str(interp, [p], {}))
        else:
            return None
    if not vs:
        return ''
    r = vs[-1]
    for v in vs[:-1][::-1]:
        r = binop(interp, ast.Add(), v, r)
    return r


def plain_format(interp, fmt, args):
    """fmt.format(*args) with plain fields only, else None."""
    import string
    parts, auto = [], 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if fld is None:
                continue
            if spec or conv not in (None, 's'):
                return None
            if fld == '':
                fld, auto = auto, auto + 1
            elif not fld.isdigit():
                return None
            parts.append(args[int(fld)])
    except (ValueError, IndexError):
        return None
    return cat_texts(interp, parts)


def opaque_format(interp, fmt, parts):
    """A formatted string: an uninterpreted function of its inputs."""
    args = []
    for p in parts:
        try:
            args.append(to_obj(interp.resolve(p)))
        except Unsupported:
            args.append(const_obj('?%r' % type(p)))
    f = uf('fmt_%s_%d' % (fmt, len(args)), *([Obj] * len(args) + [Obj]))
    t = f(*args) if args else const_obj(fmt)
    r = Opaque(t, 'str')
    r.fmt = (fmt, list(parts))
    return r


# ------------------------------------------------------------ ndarray

def mkarr(c, **extra):
    return SeqObj('ndarray', c, **extra)


def as_arr_content(interp, v, n=None):
    """Broadcast: array content, or constant of length n."""
    if isinstance(v, SeqObj):
        return v.content
    if isinstance(v, (tuple, TupV)):
        return content_of(interp, v)
    return Sym(n, lambda j: v)


def arr_map(interp, a, fn, dkind):
    c = a.content
    if isinstance(c, Conc):
        return mkarr(Conc([fn(x) for x in c.items]), dkind=dkind, ndim=1)
    return mkarr(Sym(c.n, lambda j: fn(c.at(j))), dkind=dkind, ndim=1)


def same_len(interp, a, b):
    """Fork on equality of two lengths (broadcast of length 1 is cut)."""
    na, nb = a.n, b.n
    if na is nb:
        return True
    return cur().branch(to_z3(na) == to_z3(nb))


def zip_arr(interp, a, b, fn, dkind):
    if isinstance(a, SeqObj) and isinstance(b, SeqObj):
        if not same_len(interp, a.content, b.content):
            if cur().branch(zor(to_z3(a.content.n) == 1,
                                to_z3(b.content.n) == 1)):
                raise Unsupported('numpy broadcast of a length-1 array')
            py_raise(ValueError, 'operands could not be broadcast')
        n = a.content.n
    else:
        n = (a if isinstance(a, SeqObj) else b).content.n
    ca, cb = as_arr_content(interp, a, n), as_arr_content(interp, b, n)
    if isinstance(n, int):
        return mkarr(Conc([fn(ca.at(k), cb.at(k)) for k in range(n)]),
                     dkind=dkind, ndim=1)
    return mkarr(Sym(n, lambda j: fn(ca.at(j), cb.at(j))), dkind=dkind,
                 ndim=1)


def arr_compare(interp, op, a, b):
    if isinstance(op, ast.Eq):
        return zip_arr(interp, a, b, lambda x, y: elem_eq(interp, x, y), 'b')
    if isinstance(op, ast.NotEq):
        return zip_arr(interp, a, b,
                       lambda x, y: znot(elem_eq(interp, x, y)), 'b')
    return zip_arr(interp, a, b, lambda x, y: compare(interp, op, x, y), 'b')


def elem_eq(interp, x, y):
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return _pyeq(to_obj(x), to_obj(y))
    return eq(interp, x, y)


def dk(interp, a):
    d = a.extra.get('dkind')
    return interp.resolve(d) if d is not None else None


def arr_binop(interp, t, a, b, inplace):
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        for v in (a, b):
            if isinstance(v, SeqObj):
                k = dk(interp, v)
                if k not in ('b',):
                    if k in ('f', 'U', 'S'):
                        py_raise(TypeError, 'ufunc bitwise not supported')
                    raise Unsupported('bitwise on non-bool array')
        f = {ast.BitAnd: lambda x, y: zand(interp.truth(x), interp.truth(y)),
             ast.BitOr: lambda x, y: zor(interp.truth(x), interp.truth(y)),
             ast.BitXor: lambda x, y: z3.Xor(zbool(interp.truth(x)),
                                             zbool(interp.truth(y)))}[t]
        r = zip_arr(interp, a, b, f, 'b')
        if inplace and isinstance(a, SeqObj):
            a.content = r.content
            return a
        return r
    if t in (ast.Add, ast.Sub, ast.Mult, ast.Div):
        op = {ast.Add: ast.Add(), ast.Sub: ast.Sub(), ast.Mult: ast.Mult(),
              ast.Div: ast.Div()}[t]
        return zip_arr(interp, a, b,
                       lambda x, y: binop(interp, op, x, y), 'f')
    raise Unsupported('array operator')


def arr_index(interp, o, i):
    """Boolean (filter) indexing."""
    if isinstance(i, SeqObj):
        k = dk(interp, i)
        c = o.content
        if k != 'b':
            raise Unsupported('array index of dtype kind %r' % (k,))
        if not same_len(interp, c, i.content):
            py_raise(IndexError, 'boolean index did not match')
        return mkarr(bool_filter(interp, c, i.content),
                     **{k: v for k, v in o.extra.items() if k != 'ident'})
    raise Unsupported('array index')


def bool_filter(interp, c, m):
    if isinstance(c.n, int) and isinstance(m, Conc):
        return Conc([c.at(k) for k in range(c.n)
                     if interp.truth_branch(m.at(k))])
    k = z3.FreshConst(I, 'k')
    fs = filter_seq(interp, m.n, k, zbool(interp.truth(m.at(k))))
    return Sym(fs.cnt_n, lambda j: c.at(fs.sel(j)), filt=fs)


def arr_cast(interp, o, v):
    if o.kind == 'ndarray' and dk(interp, o) == 'b':
        return interp.truth(v)
    return v


def arr_setslice(interp, o, i, v):
    c = o.content
    v = interp.resolve(v)
    if isinstance(v, (SeqObj, tuple, TupV)):
        raise Unsupported('array slice assignment from a sequence')
    v = arr_cast(interp, o, v)
    if isinstance(i, SeqObj):
        if dk(interp, i) != 'b':
            raise Unsupported('fancy assignment')
        if not same_len(interp, c, i.content):
            py_raise(IndexError, 'boolean index did not match')
        m = i.content
        cond = lambda j: zbool(interp.truth(m.at(j)))
    else:
        if i.step not in (None, 1):
            raise Unsupported('slice step')
        s, e = clamp_slice(interp, i, c.n)
        cond = lambda j: z3.And(to_z3(j) >= s, to_z3(j) < e)
    if isinstance(c, Conc) and isinstance(i, SliceV) and isinstance(
            s, int) and isinstance(e, int):
        o.content = Conc([v if s <= k < e else x
                          for k, x in enumerate(c.items)])
        return

    def at(j):
        x = c.at(j)
        if sort_of(x) is not None and sort_of(x) == sort_of(v):
            return from_z3(z3.If(cond(j), to_z3(v), to_z3(x)), x)
        return Opaque(z3.If(cond(j), to_obj(v), to_obj(x)), 'any')
    o.content = Sym(c.n, at)


def arr_ident(a):
    return a.extra.get('ident')


class NdimV(object):
    pass


def np_array(interp, v, copy=None, dtype=None):
    v = interp.resolve(v)
    if isinstance(v, SeqObj) and v.kind == 'ndarray':
        if copy is False and dtype is None:
            return v
        ex = dict(v.extra)
        if dtype is not None:
            return cast_array(interp, v, dtype)
        return mkarr(v.content, **ex)
    if isinstance(v, (SeqObj, tuple, TupV)):
        c = content_of(interp, v)
        if dtype is bool or getattr(dtype, 'np', None) == 'b':
            return mkarr(map_seq(c, lambda x: interp.truth(x)), dkind='b',
                         ndim=1)
        return mkarr(*array_of(interp, c)[:1], **array_of(interp, c)[1])
    if isinstance(v, GenV):
        raise Unsupported('array of a generator')
    if isinstance(v, ArrLike):
        return v.asarray(interp)
    if isinstance(v, DictV) or v is None or is_num(v) or isinstance(v, str):
        a = mkarr(Conc([v]), dkind='O', ndim=0)
        return a
    raise Unsupported('np.array(%r)' % (v,))


class ArrLike(Value):
    """A value numpy turns into an array of symbolic dimension."""

    def __init__(self, term):
        self.term = term

    def asarray(self, interp):
        nd = uf('ndim_of', Obj, I)(self.term)
        cur().fact(nd >= 0, universal=True)
        n = uf('len_of', Obj, I)(self.term)
        cur().fact(n >= 0, universal=True)
        el = uf('elem_of', Obj, I, Obj)
        return mkarr(Sym(n, lambda j: Opaque(el(self.term, to_z3(j)))),
                     ndim=nd, ident=uf('array_of', Obj, Obj)(self.term),
                     src=self.term, dkind='O')


def map_seq(c, fn):
    if isinstance(c, Conc):
        return Conc([fn(x) for x in c.items])
    return Sym(c.n, lambda j: fn(c.at(j)))


def array_of(interp, c):
    """Content and dtype kind numpy gives a flat sequence."""
    if isinstance(c.n, int) and c.n == 0:
        return Conc([]), dict(dkind='f', ndim=1)
    try:
        if isinstance(c, Conc):
            probe = [interp.resolve(x) for x in c.items]
            c = Conc(probe)
        else:
            probe = [c.at(z3.FreshConst(I, 'p'))]
    except Unsupported:
        raise
    srt = {kindname(p) if not is_bool(p) else 'bool' for p in probe}
    if srt == {'bool'}:
        if isinstance(c.n, int):
            return c, dict(dkind='b', ndim=1)
        # an empty sequence gives a float array
        return c, dict(dkind=Pieces([(to_z3(c.n) > 0, 'b'),
                                     (z3.Not(to_z3(c.n) > 0), 'f')]), ndim=1)
    if srt == {'num'} and all(is_int(p) for p in probe):
        return c, dict(dkind=Pieces([(to_z3(c.n) > 0, 'i'),
                                     (z3.Not(to_z3(c.n) > 0), 'f')])
                       if not isinstance(c.n, int) else 'i', ndim=1)
    if srt <= {'num'}:
        return c, dict(dkind='f', ndim=1)
    if srt & {'list', 'tuple', 'ndarray'}:
        raise Unsupported('array of sequences')
    # mixed or opaque values: elements kept as given
    return c, dict(dkind=Opaque(cur().fresh('dkind', Obj), 'str'), ndim=1,
                   conv=True)


def cast_array(interp, v, dtype):
    if dtype is bool or getattr(dtype, 'np', None) == 'b':
        return mkarr(map_seq(v.content, lambda x: interp.truth(x)),
                     dkind='b', ndim=1)
    raise Unsupported('array cast')


def as_int_arg(v):
    return v


@model('numpy.array', 'numpy.asarray')
def m_array(interp, args, kw):
    return np_array(interp, args[0], kw.get('copy'),
                    kw.get('dtype', args[1] if len(args) > 1 else None))


MODELS['numpy.asarray'] = Builtin('asarray', lambda it, a, k: np_array(
    it, a[0], False, k.get('dtype', a[1] if len(a) > 1 else None)))


def fill(interp, n, v, dkind):
    n = interp.resolve(n)
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported('2-d array')
        n = n[0]
    if isinstance(n, int):
        if n < 0:
            py_raise(ValueError, 'negative dimensions')
        return mkarr(Conc([v] * n), dkind=dkind, ndim=1)
    return mkarr(Sym(n, lambda j: v), dkind=dkind, ndim=1)


def dtype_fill(interp, n, val, dtype):
    dtype = getattr(dtype, 'np', dtype)
    if dtype is bool or dtype == 'b' or dtype == 'bool':
        return fill(interp, n, bool(val), 'b')
    if dtype is int:
        return fill(interp, n, int(val), 'i')
    if dtype is None or dtype is float:
        return fill(interp, n, real_val(val), 'f')
    raise Unsupported('dtype')


MODELS['numpy.ones'] = Builtin('ones', lambda it, a, k: dtype_fill(
    it, a[0] if a else k['shape'], 1,
    k.get('dtype', a[1] if len(a) > 1 else None)))
MODELS['numpy.zeros'] = Builtin('zeros', lambda it, a, k: dtype_fill(
    it, a[0] if a else k['shape'], 0,
    k.get('dtype', a[1] if len(a) > 1 else None)))


@model('numpy.full')
def m_full(interp, args, kw):
    v = args[1] if len(args) > 1 else kw['fill_value']
    dt = kw.get('dtype', args[2] if len(args) > 2 else None)
    k = 'O'
    if is_bool(v):
        k = 'b'
    elif is_int(v):
        k = 'i'
    elif isinstance(v, float):
        k = 'f'
    if dt is bool:
        v, k = interp.truth(v), 'b'
    elif dt is object:
        k = 'O'
    elif dt is not None:
        raise Unsupported('dtype')
    return fill(interp, args[0] if args else kw['shape'], v, k)


def like_fill(val):
    def f(interp, args, kw):
        a = interp.resolve(args[0])
        return dtype_fill(interp, content_of(interp, a).n, val,
                          kw.get('dtype', args[1] if len(args) > 1
                                 else None)) if (
            kw.get('dtype') is not None or len(args) > 1) else _u('like')
    return f


def _u(x):
    raise Unsupported(x)


MODELS['numpy.ones_like'] = Builtin('ones_like', like_fill(1))
MODELS['numpy.zeros_like'] = Builtin('zeros_like', like_fill(0))


@model('numpy.full_like')
def m_full_like(interp, args, kw):
    a = interp.resolve(args[0])
    kw = dict(kw)
    if kw.get('dtype') is None and len(args) < 3:
        raise Unsupported('full_like without dtype')
    return m_full(interp, [content_of(interp, a).n] + args[1:], kw)


@model('numpy.where')
def m_where(interp, args, kw):
    if len(args) != 3:
        raise Unsupported('np.where')
    c, a, b = [interp.resolve(x) for x in args]
    if not isinstance(c, SeqObj):
        raise Unsupported('np.where')
    n = c.content.n
    for v in (a, b):
        if isinstance(v, SeqObj) and not same_len(interp, c.content,
                                                  v.content):
            if cur().branch(zor(to_z3(n) == 1, to_z3(v.content.n) == 1)):
                raise Unsupported('broadcast')
            py_raise(ValueError, 'operands could not be broadcast')
    ca, cb = as_arr_content(interp, a, n), as_arr_content(interp, b, n)

    def at(j):
        t = interp.truth(c.content.at(j))
        x, y = ca.at(j), cb.at(j)
        if sort_of(x) is not None and sort_of(x) == sort_of(y):
            return from_z3(z3.If(zbool(t), to_z3(x), to_z3(y)), x)
        return Opaque(z3.If(zbool(t), to_obj(x), to_obj(y)), 'any')
    k = None
    ks = []
    for v in (a, b):
        ks.append(dk(interp, v) if isinstance(v, SeqObj) else None)
    if ks[0] in ('i', 'u', 'f', 'c', 'b') and ks[1] == 'f':
        k = 'c' if ks[0] == 'c' else 'f'
    else:
        k = 'O'
    if ks[1] == 'f' and ks[0] not in ('i', 'u', 'f', 'c', 'b'):
        # numpy promotes e.g. str with float nan: values change
        raise Unsupported('np.where promotes %r with %r' % tuple(ks))
    if isinstance(n, int):
        return mkarr(Conc([at(j) for j in range(n)]), dkind=k, ndim=1)
    return mkarr(Sym(n, at), dkind=k, ndim=1)


@model('numpy.append')
def m_append(interp, args, kw):
    if kw or len(args) != 2:
        raise Unsupported('np.append')
    a, b = [np_array(interp, x, False) for x in args]
    return np_concat(interp, [a, b])


@model('numpy.concatenate', 'numpy.hstack')
def m_concatenate(interp, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('np.concatenate')
    q = iter_seq(interp, interp.resolve(args[0]))
    if not isinstance(q.n, int):
        raise Unsupported('np.concatenate')
    return np_concat(interp, [np_array(interp, q.at(k), False)
                              for k in range(q.n)])


def np_concat(interp, arrs):
    c = Conc([])
    for a in arrs:
        c = concat(interp, c, a.content)
    return mkarr(c, dkind=Opaque(cur().fresh('dkind', Obj), 'str'), ndim=1,
                 cat=[a.extra.get('ident') for a in arrs])


@model('numpy.copy')
def m_copy(interp, args, kw):
    a = np_array(interp, args[0], False)
    return mkarr(a.content, **a.extra)


@model('numpy.logical_and')
def m_land(interp, args, kw):
    a, b = [interp.resolve(x) for x in args[:2]]
    r = zip_arr(interp, a, b, lambda x, y: zand(interp.truth(x),
                                                interp.truth(y)), 'b')
    if 'out' in kw:
        kw['out'].content = r.content
        return kw['out']
    return r


@model('numpy.logical_or')
def m_lor(interp, args, kw):
    return zip_arr(interp, args[0], args[1], lambda x, y: zor(
        interp.truth(x), interp.truth(y)), 'b')


@model('numpy.logical_not')
def m_lnot(interp, args, kw):
    return arr_map(interp, args[0], lambda x: znot(interp.truth(x)), 'b')


@model('numpy.flatnonzero')
def m_flatnonzero(interp, args, kw):
    a = interp.resolve(args[0])
    c = a.content
    k = z3.FreshConst(I, 'k')
    if isinstance(c.n, int):
        return mkarr(Conc([j for j in range(c.n)
                           if interp.truth_branch(c.at(j))]), dkind='i',
                     ndim=1)
    fs = filter_seq(interp, c.n, k, zbool(interp.truth(c.at(k))))
    return mkarr(Sym(fs.cnt_n, fs.sel, filt=fs), dkind='i', ndim=1)


@model('numpy.fromiter')
def m_fromiter(interp, args, kw):
    c = iter_seq(interp, interp.resolve(args[0]))
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    if dt is bool or getattr(dt, 'np', None) == 'b':
        return mkarr(map_seq(c, lambda x: interp.truth(x)), dkind='b',
                     ndim=1)
    raise Unsupported('np.fromiter')


def arr_attr(interp, a, name):
    c = a.content
    if name == 'size':
        return (c.n,)
    if name == 'shape':
        return ((c.n,),)
    if name == 'ndim':
        return (a.extra.get('ndim', 1),)
    if name == 'dtype':
        return (DType(a),)
    if name == 'T':
        return (a,)
    m = {
        'copy': lambda it, ar, kw: mkarr(a.content, **a.extra),
        'tolist': lambda it, ar, kw: SeqObj('list', a.content),
        'any': lambda it, ar, kw: any_of(it, a.content),
        'all': lambda it, ar, kw: all_of(it, a.content),
        'astype': lambda it, ar, kw: cast_array(it, a, ar[0]),
        'fill': lambda it, ar, kw: arr_setslice(it, a, SliceV(None, None),
                                                ar[0]),
        'sum': lambda it, ar, kw: _u('sum'),
        '__getitem__': lambda it, ar, kw: getitem(it, a, ar[0]),
        '__len__': lambda it, ar, kw: a.content.n,
    }.get(name)
    if m is not None:
        return (Builtin(name, m),)
    return None


# ------------------------------------------------------------ dict

class KeysV(Value):
    def __init__(self, d):
        self.d = d

    def iter_seq(self, interp):
        return dict_keys(interp, self.d)

    def contains(self, interp, x):
        return dict_contains(interp, self.d, x)

    def truth(self, interp):
        return truth(interp, self.d)

    def eq(self, interp, o):
        return set_eq(interp, as_set(interp, self), as_set(interp, o))


def dict_keys(interp, d):
    if is_gather(d.sym):
        raise Unsupported('read of a dict under construction')
    if d.sym is not None:
        return d.sym.keys
    return Conc(list(d.store))


def norm_key(interp, k):
    k = interp.resolve(k)
    if isinstance(k, bool):
        return int(k)
    return k


def prim_key(k):
    return k is None or isinstance(k, (bool, int, float, str, bytes)) or (
        isinstance(k, tuple) and all(prim_key(x) for x in k))


def key_term(interp, m, k):
    """(condition that k is of the map's key sort, the key term)."""
    if m.keysort == 'int':
        if is_int(k) or is_bool(k):
            return True, to_z3(interp.num(k))
        if isinstance(k, Opaque):
            if k.ty in ('str', 'bytes'):
                return False, None
            if k.ty == 'int':
                return True, _ival(k.term)
            return (z3.Or(_tag(k.term) == TAGS['int'],
                          _tag(k.term) == TAGS['bool']), _ival(k.term))
        if isinstance(k, float) or isinstance(k, z3.ArithRef):
            raise Unsupported('float key')
        if isinstance(k, (DictV, SeqObj, SetV)):
            py_raise(TypeError, 'unhashable')
        return False, None
    return True, to_obj(k)


def dict_contains(interp, d, k):
    k = norm_key(interp, k)
    if isinstance(k, (DictV, SeqObj, SetV)):
        py_raise(TypeError, 'unhashable')
    if is_gather(d.sym):
        w, v = gather_read(interp, d.sym, k)
        return True if w == 'item' else dict_contains(interp, v, k)
    if d.sym is not None:
        c, t = key_term(interp, d.sym, k)
        if c is False:
            return False
        return zand(c, d.sym.dom(t))
    if prim_key(k) and all(prim_key(x) for x in d.store):
        return k in d.store
    return zor(*[key_eq(interp, x, k) for x in d.store])


def key_eq(interp, x, k):
    """Equality of keys: identity is enough."""
    if x is k or isinstance(x, Opaque) and isinstance(k, Opaque) and \
            x.term.eq(k.term):
        return True
    return eq(interp, x, k)


def dict_find(interp, d, k):
    """The store key equal to k on this path, or None."""
    k = norm_key(interp, k)
    if prim_key(k) and all(prim_key(x) for x in d.store):
        return (k,) if k in d.store else None
    for x in d.store:
        if key_eq(interp, x, k) is True:
            return (x,)
    for x in d.store:
        if cur().branch(key_eq(interp, x, k)):
            return (x,)
    return None


def char_table(interp, d, k):
    """d[k] for a one-character k and integer values, without forking over
    the keys: (found, value) or None."""
    if not (isinstance(k, StrV) and isinstance(k.content, Conc) and
            k.content.n == 1 and d.store and all(
                isinstance(x, str) for x in d.store) and all(
                isinstance(v, int) and not isinstance(v, bool)
                for v in d.store.values())):
        return None
    c = to_z3(k.content.at(0))
    found, val = [], z3.IntVal(0)
    items = sorted((ord(x), v) for x, v in d.store.items() if len(x) == 1)
    if True:
        # intervals by value minus code, constants where shorter
        out = []
        i = 0
        while i < len(items):
            j1 = i
            while j1 + 1 < len(items) and items[j1 + 1][0] == \
                    items[j1][0] + 1 and items[j1 + 1][1] == \
                    items[j1][1] + 1:
                j1 += 1
            j2 = i
            while j2 + 1 < len(items) and items[j2 + 1][0] == \
                    items[j2][0] + 1 and items[j2 + 1][1] == items[j2][1]:
                j2 += 1
            if j2 > j1:
                out.append((items[i][0], items[j2][0], None, items[i][1]))
                i = j2 + 1
            else:
                out.append((items[i][0], items[j1][0],
                            items[i][1] - items[i][0], None))
                i = j1 + 1
        for lo, hi, off, v in out:
            g = z3.And(c >= lo, c <= hi)
            found.append(g)
            val = z3.If(g, c + off if v is None else z3.IntVal(v), val)
    return z3.Or(*found), val


def dict_getitem(interp, d, k):
    k = norm_key(interp, k)
    if isinstance(k, (DictV, SeqObj, SetV, SliceV)):
        py_raise(TypeError, 'unhashable')
    if is_gather(d.sym):
        w, v = gather_read(interp, d.sym, k)
        if w == 'item':
            return v
        if getattr(d, 'factory', None) is not None:
            raise Unsupported('defaultdict under construction')
        return dict_getitem(interp, v, k)
    if d.sym is not None:
        c, t = key_term(interp, d.sym, k)
        ok = zand(c, d.sym.dom(t)) if c is not False else False
        if cur().branch(ok):
            return d.sym.val(t)
    else:
        ct = char_table(interp, d, k)
        if ct is not None:
            if cur().branch(ct[0]):
                return ct[1]
            py_raise(KeyError, k)
        f = dict_find(interp, d, k)
        if f is not None:
            return d.store[f[0]]
    if getattr(d, 'factory', None) is not None:
        v = interp.call(d.factory, [])
        dict_setitem(interp, d, k, v)
        return v
    py_raise(KeyError, k)


def dict_setitem(interp, d, k, v):
    k = norm_key(interp, k)
    if isinstance(k, (DictV, SeqObj, SetV)):
        py_raise(TypeError, 'unhashable')
    if is_gather(d.sym):
        cur().mutating(d, 'content')
        d._sym = extend_gather(d.sym, [(k, v)])
        return
    if d.sym is not None:
        d.set_sym(symmap_set(interp, d.sym, k, v))
        return
    f = dict_find(interp, d, k)
    s = dict(d.store)
    s[f[0] if f is not None else k] = v
    d.set_store(s)


def symmap_set(interp, m, k, v):
    c, t = key_term(interp, m, k)
    if c is not True:
        if not cur().branch(c):
            raise Unsupported('key of another sort')
    new = znot(m.dom(t))
    dom0, val0, keys0 = m.dom, m.val, m.keys
    dom = lambda q: zor(dom0(q), q == t)

    def val(q):
        if is_z3(q) and q.eq(t):
            return v
        if cur().entails(zbool(q != t)):
            return val0(q)
        if cur().entails(zbool(q == t)):
            return v
        if cur().branch(q == t):
            return v
        return val0(q)
    if cur().entails(zbool(m.dom(t))):
        keys = keys0
    elif cur().entails(zbool(new)):
        keys = concat(interp, keys0, Conc([t]))
    else:
        if cur().branch(zbool(m.dom(t))):
            keys = keys0
        else:
            keys = concat(interp, keys0, Conc([t]))
    return SymMap(dom, val, keys, m.keysort, **m.tags)


def dict_put_pairs(interp, d, q):
    """Insert a sequence of (key, value) pairs."""
    if isinstance(q.n, int):
        for k in range(q.n):
            kk, vv = interp.unpack(q.at(k), 2)
            dict_setitem(interp, d, kk, vv)
        return
    if d.sym is None and not d.store:
        r = dict_from_pairs(interp, q)
        d._sym = r.sym
        d._store = {}
        return
    # overwriting every key of the map in its own order
    if d.sym is not None:
        k = z3.FreshConst(I, 'k')
        pr = q.at(k)
        kk, vv = interp.unpack(pr, 2)
        ks = d.sym.keys
        if is_z3(ks.n) and is_z3(q.n):
            c = z3.And(ks.n == q.n, z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < ks.n),
                to_z3(ks.at(k)) == to_z3(kk))))
            if cur().entails(c):
                pos = d.sym.pos
                if pos is None:
                    raise Unsupported('dict update')

                def val(t):
                    return interp.unpack(q.at(pos(t)), 2)[1]
                d.set_sym(SymMap(d.sym.dom, val, ks, d.sym.keysort, pos))
                return
        if is_int(kk):
            # distinct keys that are all in the map
            j = z3.FreshConst(I, 'j')
            kj = interp.unpack(q.at(j), 2)[0]
            n = to_z3(q.n)
            ctx = cur()
            if ctx.entails(z3.Implies(
                    z3.And(k >= 0, k < j, j < n), kk != kj)) and \
                    ctx.entails(z3.Implies(z3.And(k >= 0, k < n),
                                           zbool(d.sym.dom(kk)))):
                pf = ctx.fresh_fn('pos', [I], I)
                ctx.fact(z3.ForAll(
                    [k], z3.Implies(z3.And(k >= 0, k < n), pf(kk) == k),
                    patterns=[kk] if z3.is_app(kk) and kk.num_args()
                    else []))
                old = d.sym

                def val2(t):
                    ind = z3.And(pf(t) >= 0, pf(t) < n,
                                 subst(kk, [(k, pf(t))]) == t)
                    if ctx.entails(ind) or ctx.branch(ind):
                        return interp.unpack(q.at(pf(t)), 2)[1]
                    return old.val(t)
                d.set_sym(SymMap(old.dom, val2, ks, old.keysort, old.pos))
                return
        r = dict_from_pairs(interp, q)
        merge_maps(d, r.sym)
        return
    raise Unsupported('dict update with a symbolic sequence')


def dict_from_pairs(interp, q):
    """{k: v for k, v in q}, for distinct integer keys."""
    ctx = cur()
    k = z3.FreshConst(I, 'k')
    j = z3.FreshConst(I, 'j')
    kk = interp.unpack(q.at(k), 2)[0]
    kj = interp.unpack(q.at(j), 2)[0]
    if not is_int(kk):
        raise Unsupported('symbolic dict of non-integer keys')
    n = to_z3(q.n)
    if z3.is_const(kk) is False and not ctx.entails(z3.ForAll(
            [k, j], z3.Implies(z3.And(k >= 0, k < j, j < n), kk != kj))):
        raise Unsupported('symbolic dict with possibly repeated keys')
    # kk == k: identity keys
    if ctx.entails(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                                             kk == k))):
        pos = lambda t: t
        dom = lambda t: zand(t >= 0, t < n)
    else:
        pf = ctx.fresh_fn('pos', [I], I)
        pos = pf
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                                           pf(kk) == k), patterns=[kk]
                           if z3.is_app(kk) and kk.num_args() else []))

        def dom(t):
            return zand(pf(t) >= 0, pf(t) < n,
                        subst(kk, [(k, pf(t))]) == t)
    keys = Sym(q.n, lambda i: interp.unpack(q.at(i), 2)[0])
    return_ = DictV({}, sym=SymMap(
        dom, lambda t: interp.unpack(q.at(pos(t)), 2)[1], keys, 'int', pos))
    return return_


def dict_delitem(interp, d, k):
    k = norm_key(interp, k)
    if is_gather(d.sym):
        gather_remove(interp, d, k, ())
        return
    if d.sym is not None:
        symmap_pop(interp, d, k, ())
        return
    f = dict_find(interp, d, k)
    if f is None:
        py_raise(KeyError, k)
    s = dict(d.store)
    del s[f[0]]
    d.set_store(s)


def merge_maps(d, new):
    """d.update(new)."""
    ctx, old = cur(), d.sym
    t = z3.FreshConst(I, 't')
    dom, keys, pos = old.dom, old.keys, old.pos
    if not ctx.entails(z3.Implies(zbool(new.dom(t)), zbool(old.dom(t)))):
        dom = lambda q: zor(old.dom(q), new.dom(q))
        pos = None

        def no(j):
            raise Unsupported('order of the keys of a merged dict')
        nk = ctx.fresh('nkeys', I)
        ctx.fact(z3.And(nk >= to_z3(old.keys.n), nk >= to_z3(new.keys.n),
                        nk <= to_z3(old.keys.n) + to_z3(new.keys.n)))
        keys = Sym(nk, no)

    def val(t):
        c = zbool(new.dom(t))
        if ctx.entails(c) or ctx.branch(c):
            return new.val(t)
        return old.val(t)
    d.set_sym(SymMap(dom, val, keys, old.keysort, pos))


def dict_update(interp, args, kwargs):
    """dict.update(self, ...) / dict.__init__(self, ...)."""
    d = args[0]
    rest = args[1:]
    if len(rest) > 1:
        py_raise(TypeError, 'update expected at most 1 argument')
    if rest:
        src = interp.resolve(rest[0])
        if isinstance(src, DictV):
            if src.sym is not None and not is_gather(src.sym):
                if d.sym is None and not d.store:
                    cur().mutating(d, 'content')
                    d._sym = src.sym
                    d._store = {}
                elif isinstance(d.sym, SymMap) and isinstance(
                        src.sym, SymMap) and d.sym.keysort == \
                        src.sym.keysort == 'int':
                    merge_maps(d, src.sym)
                else:
                    raise Unsupported('update from a symbolic dict')
            else:
                for k in list(dict_keys(interp, src).items):
                    dict_setitem(interp, d, k, src.store[k])
        elif isinstance(src, (SeqObj, tuple, TupV, GenV, SetV, Seq)) or \
                hasattr(src, 'iter_seq'):
            q = iter_seq(interp, src)
            if not isinstance(q.n, int):
                dict_put_pairs(interp, d, q)
            else:
                for k in range(q.n):
                    el = interp.resolve(q.at(k))
                    kk = kindname(el)
                    if is_num(el) or el is None:
                        py_raise(TypeError, 'cannot convert element')
                    p = iter_seq(interp, el)
                    if isinstance(p.n, int) and p.n != 2:
                        py_raise(ValueError, 'sequence element length')
                    a, b = interp.unpack(el, 2)
                    dict_setitem(interp, d, a, b)
        elif isinstance(src, str):
            if src:
                py_raise(ValueError, 'sequence element')
        elif src is None or is_num(src):
            py_raise(TypeError, 'not iterable')
        else:
            raise Unsupported('dict update from %r' % (src,))
    for k, v in kwargs.items():
        if k == '**':
            raise Unsupported('symbolic keywords')
        dict_setitem(interp, d, k, v)
    return None


def dict_get(interp, d, k, dflt=None):
    c = dict_contains(interp, d, k)
    if cur().branch(c):
        return dict_getitem(interp, d, k)
    return dflt


def dict_setdefault(interp, args, kw):
    d, k = args[0], args[1]
    v = args[2] if len(args) > 2 else kw.get('default')
    if cur().branch(dict_contains(interp, d, k)):
        return dict_getitem(interp, d, k)
    dict_setitem(interp, d, k, v)
    return v


def dict_items(interp, d):
    ks = dict_keys(interp, d)
    if isinstance(ks, Conc):
        return SeqObj('list', Conc([(k, dict_getitem(interp, d, k))
                                    for k in ks.items]))
    m = d.sym
    return SeqObj('list', Sym(ks.n, lambda j: (ks.at(j), m.val(to_z3(
        ks.at(j))))))


def dict_remove(interp, d, pcs, itc, m):
    """Take out the keys that iterations 0..m-1 of a loop remove: pcs are
    (conditions, definitions, [(key, mark)]) in terms of the iteration."""
    ctx, old = cur(), d.sym
    if not isinstance(old, SymMap) or old.keysort != 'int':
        raise Unsupported('keys removed in a loop')
    i = z3.FreshConst(I, 'i')
    hits = []
    for conds, defs, items in pcs:
        for kk, _ in items:
            kk = interp.resolve(kk)
            if not is_int(kk) or defs:
                raise Unsupported('keys removed in a loop')
            hits.append((to_z3(subst(to_z3(kk), [(itc, i)])), z3.And(
                [zbool(subst(zbool(c), [(itc, i)])) for c in conds] or
                [z3.BoolVal(True)])))

    def gone(t):
        return z3.Or(*[z3.Exists([i], z3.And(
            i >= 0, i < to_z3(m), kk == t, c)) for kk, c in hits])
    dom = lambda t: zand(old.dom(t), znot(gone(t)))
    k = z3.FreshConst(I, 'k')
    fs = filter_seq(interp, old.keys.n, k, z3.Not(gone(
        to_z3(old.keys.at(k)))))
    keys = Sym(fs.cnt_n, lambda j: old.keys.at(fs.sel(j)), filt=fs)
    d.set_sym(SymMap(dom, old.val, keys, old.keysort, None))


def symmap_pop(interp, d, k, dflt):
    cur().mutating(d, 'content')
    k = norm_key(interp, k)
    if not cur().branch(dict_contains(interp, d, k)):
        if dflt:
            return dflt[0]
        py_raise(KeyError, k)
    v = dict_getitem(interp, d, k)
    old = d.sym
    if old.keysort != 'int':
        raise Unsupported('pop of a symbolic dict')
    t = key_term(interp, old, k)[1]
    i = z3.FreshConst(I, 'i')
    fs = filter_seq(interp, old.keys.n, i, to_z3(old.keys.at(i)) != t)
    d.set_sym(SymMap(
        lambda q: zand(old.dom(q), q != t), old.val, Sym(
            fs.cnt_n, lambda j: old.keys.at(fs.sel(j)), filt=fs), 'int',
        None))
    return v


def gather_remove(interp, d, k, dflt):
    """pop / del in the body of a loop, of a dict that the loop changes."""
    k = norm_key(interp, k)
    if cur().branch(dict_contains(interp, d, k)):
        v = dict_getitem(interp, d, k)
        cur().mutating(d, 'content')
        d._sym = extend_gather(d.sym, [(k, REMOVED)])
        return v
    if dflt:
        return dflt[0]
    py_raise(KeyError, k)


def dict_pop(interp, args, kw):
    d, k = args[0], args[1]
    if is_gather(d.sym):
        return gather_remove(interp, d, k, args[2:])
    if d.sym is not None:
        return symmap_pop(interp, d, k, args[2:])
    f = dict_find(interp, d, k)
    if f is None:
        if len(args) > 2:
            return args[2]
        py_raise(KeyError, k)
    s = dict(d.store)
    v = s.pop(f[0])
    d.set_store(s)
    return v


def dict_copy(interp, d):
    r = DictV(dict(d.store), sym=d.sym)
    return r


def dict_clear(interp, d):
    cur().mutating(d, 'content')
    d._store, d._sym = {}, None


def dict_ior(interp, args, kw):
    dict_update(interp, args, kw)
    return args[0]


def dict_or(interp, args, kw):
    a, b = args[0], interp.resolve(args[1])
    if not isinstance(b, DictV):
        py_raise(TypeError, 'unsupported operand')
    r = dict_copy(interp, a)
    dict_update(interp, [r, b], {})
    return r


BMETHODS = {
    (dict, '__init__'): dict_update,
    (dict, 'update'): dict_update,
    (dict, '__setitem__'): lambda it, a, k: dict_setitem(it, *a),
    (dict, '__getitem__'): lambda it, a, k: dict_getitem(it, *a),
    (dict, '__delitem__'): lambda it, a, k: dict_delitem(it, *a),
    (dict, '__contains__'): lambda it, a, k: dict_contains(it, *a),
    (dict, '__len__'): lambda it, a, k: dict_keys(it, a[0]).n,
    (dict, '__iter__'): lambda it, a, k: SeqObj('list',
                                                dict_keys(it, a[0])),
    (dict, 'setdefault'): dict_setdefault,
    (dict, 'get'): lambda it, a, k: dict_get(it, *a, **k),
    (dict, 'items'): lambda it, a, k: dict_items(it, a[0]),
    (dict, 'keys'): lambda it, a, k: KeysV(a[0]),
    (dict, 'values'): lambda it, a, k: dict_values(it, a[0]),
    (dict, 'pop'): dict_pop,
    (dict, 'copy'): lambda it, a, k: dict_copy(it, a[0]),
    (dict, 'clear'): lambda it, a, k: dict_clear(it, a[0]),
    (dict, '__ior__'): dict_ior,
    (dict, '__or__'): dict_or,
    (object, '__setattr__'): lambda it, a, k: it.raw_setattr(*a),
    (object, '__delattr__'): lambda it, a, k: raw_delattr(it, *a),
    (object, '__getattribute__'): lambda it, a, k: it.getattr(*a),
}


def dict_values(interp, d):
    ks = dict_keys(interp, d)
    if isinstance(ks, Conc):
        return SeqObj('list', Conc([dict_getitem(interp, d, k)
                                    for k in ks.items]))
    m = d.sym
    return SeqObj('list', Sym(ks.n, lambda j: m.val(to_z3(ks.at(j)))))


def raw_delattr(interp, o, name):
    if name not in o.attrs:
        py_raise(AttributeError, name)
    cur().mutating(o, name)
    del o.attrs[name]


def unbound_builtin(k, name):
    m = BMETHODS.get((k, name))
    if m is None:
        raise Unsupported('%s.%s' % (k.__name__, name))
    return Builtin(name, m)


# ------------------------------------------------------------ set

def as_set(interp, v):
    if isinstance(v, SetV):
        return v
    return SetV(iter_seq(interp, v))


def set_contains(interp, s, x):
    q = s.seq
    if isinstance(q.n, int):
        return zor(*[zand(zbool(s.pred(q.at(k))),
                          eq(interp, interp.resolve(q.at(k)), x))
                     for k in range(q.n)])
    j = z3.FreshConst(I, 'j')

    def test():
        e = interp.resolve(q.at(j))
        return zand(s.pred(e), eq(interp, e, x))
    return z3.Exists([j], z3.And(j >= 0, j < q.n, each(
        interp, j, q.n, test)))


def each(interp, j, n, fn):
    """fn() for an arbitrary index j < n as a formula, whatever cases fn
    distinguishes on the way."""
    ctx = cur()

    def thunk():
        ctx.fact(z3.And(j >= 0, j < to_z3(n)))
        return zbool(fn())
    ps = ctx.pieces(thunk, j)
    if any(p[2] != 'val' for p in ps):
        raise Unsupported('an error for some element')
    rng = z3.And(j >= 0, j < to_z3(n))
    for conds, defs, _, v in ps:
        for d in defs:
            d = zbool(d)
            if d.get_id() in ctx.universal or d.eq(rng):
                continue
            pre = z3.And([rng] + [zbool(c) for c in conds])
            ctx.fact(z3.ForAll([j], z3.Implies(pre, d)))
    if len(ps) == 1 and not ps[0][0]:
        return ps[0][3]
    return zbool(zor(*[z3.And([zbool(c) for c in conds] + [v])
                       for conds, defs, _, v in ps]))


def set_diff(interp, a, b):
    pa = a.pred
    return SetV(a.seq, lambda v: zand(pa(v), znot(set_contains(interp, b,
                                                               v))))


def set_op(interp, t, a, b):
    if t is ast.BitAnd:
        pa = a.pred
        return SetV(a.seq, lambda v: zand(pa(v), set_contains(interp, b, v)))
    if t is ast.BitOr and isinstance(a.seq, Conc) and isinstance(b.seq, Conc):
        k = [x for x in a.seq.items if a.pred(x) is True] + [
            x for x in b.seq.items if b.pred(x) is True]
        return SetV(Conc(k))
    raise Unsupported('set operator')


def set_nonempty(interp, s):
    q = s.seq
    if isinstance(q.n, int):
        return zor(*[s.pred(q.at(k)) for k in range(q.n)])
    j = z3.FreshConst(I, 'j')
    return z3.Exists([j], z3.And(j >= 0, j < q.n, each(
        interp, j, q.n, lambda: s.pred(interp.resolve(q.at(j))))))


def set_subset(interp, a, b):
    q = a.seq
    if isinstance(q.n, int):
        return zand(*[zimp(a.pred(q.at(k)), set_contains(
            interp, b, interp.resolve(q.at(k)))) for k in range(q.n)])
    j = z3.FreshConst(I, 'j')

    def test():
        e = interp.resolve(q.at(j))
        return zimp(a.pred(e), set_contains(interp, b, e))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.n), each(
        interp, j, q.n, test)))


def set_eq(interp, a, b):
    a, b = as_set(interp, a), as_set(interp, b)
    ka, kb = getattr(a, 'keysof', None), getattr(b, 'keysof', None)
    if ka is not None and kb is not None and ka.keysort == kb.keysort:
        t = z3.FreshConst(I if ka.keysort == 'int' else Obj, 't')
        return z3.ForAll([t], zbool(ka.dom(t)) == zbool(kb.dom(t)))
    return zand(set_subset(interp, a, b), set_subset(interp, b, a))


def mkset(interp, v):
    v = interp.resolve(v)
    if isinstance(v, KeysV):
        s = SetV(iter_seq(interp, v))
        if v.d.sym is not None:
            s.keysof = v.d.sym
        return s
    if isinstance(v, DictV):
        s = SetV(iter_seq(interp, v))
        if v.sym is not None:
            s.keysof = v.sym
        return s
    if isinstance(v, SetV):
        return SetV(v.seq, v.pred)
    return SetV(iter_seq(interp, v))


# ------------------------------------------------------------ builtins

def any_of(interp, c):
    if isinstance(c.n, int):
        return zor(*[interp.truth(c.at(k)) for k in range(c.n)])
    j = z3.FreshConst(I, 'j')
    return z3.Exists([j], z3.And(j >= 0, j < c.n, each(
        interp, j, c.n, lambda: interp.truth(c.at(j)))))


def all_of(interp, c):
    if isinstance(c.n, int):
        return zand(*[interp.truth(c.at(k)) for k in range(c.n)])
    j = z3.FreshConst(I, 'j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c.n), each(
        interp, j, c.n, lambda: interp.truth(c.at(j)))))


@model('builtins.len')
def m_len(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, DictV):
        return dict_keys(interp, v).n
    if isinstance(v, KeysV):
        return dict_keys(interp, v.d).n
    if isinstance(v, SetV):
        if isinstance(v.seq, Conc):
            items = [x for x in v.seq.items if v.pred(x) is True]
            if len(items) == v.seq.n:
                out = []
                for x in items:
                    es = [eq(interp, x, y) for y in out]
                    if any(not isinstance(e, bool) for e in es):
                        if cur().branch(zor(*es)):
                            continue
                    elif any(es):
                        continue
                    out.append(x)
                return len(out)
        raise Unsupported('len of a set')
    if isinstance(v, SeqObj) and v.kind == 'ndarray' and v.extra.get(
            'ndim', 1) == 0:
        py_raise(TypeError, 'len() of unsized object')
    c = content_of(interp, v)
    if c is not None:
        return c.n
    if isinstance(v, InstV) and isinstance(v.cls, ClassV):
        m = interp.find_attr(v.cls, '__len__')
        if m is not None:
            return interp.call(m, [v])
    h = getattr(v, 'length', None)
    if h is not None:
        return h(interp)
    if isinstance(v, Opaque):
        n = uf('len_of', Obj, I)(v.term)
        cur().fact(n >= 0)
        if v.ty in ('str', 'bytes'):
            cur().fact((n > 0) == _truthy(v.term))
        return n
    if v is None or is_num(v) or isinstance(v, GenV):
        py_raise(TypeError, 'object has no len()')
    raise Unsupported('len of %r' % (v,))


def alias(n):
    """The name a contract has for this number."""
    ctx = cur()
    for t in getattr(ctx, 'aliases', ()):
        if n.eq(t) or ctx.entails(n == t):
            return t
    return n


@model('builtins.range')
def m_range(interp, args, kw):
    a = [interp.num(interp.resolve(x)) for x in args]
    for x in a:
        if not is_int(x):
            py_raise(TypeError, 'range expects int')
    if len(a) == 1:
        a = [0] + a
    step = a[2] if len(a) > 2 else 1
    if all(isinstance(x, int) for x in a):
        if step == 0:
            py_raise(ValueError, 'range step')
        return SeqObj('list', Conc(list(range(*a))))
    lo, hi = to_z3(a[0]), to_z3(a[1])
    if step == 1:
        n = z3.simplify(hi - lo)
        if z3.is_int_value(n):
            return SeqObj('list', Conc([at_plus(lo, k) for k in
                                        range(max(0, n.as_long()))]))
        if cur().entails(hi >= lo):
            pass
        else:
            n = z3.If(hi >= lo, n, z3.IntVal(0))
        return SeqObj('list', Sym(alias(n), lambda j: at_plus(lo, j)))
    if step == -1:
        n = z3.If(lo >= hi, lo - hi, z3.IntVal(0))
        return SeqObj('list', Sym(n, lambda j: lo - to_z3(j)))
    if isinstance(step, int) and step > 0:
        n = z3.If(hi > lo, (hi - lo + (step - 1)) / step, z3.IntVal(0))
        return SeqObj('list', Sym(n, lambda j: lo + to_z3(j) * step))
    raise Unsupported('range step')


@model('builtins.enumerate')
def m_enumerate(interp, args, kw):
    c = iter_seq(interp, interp.resolve(args[0]))
    st = kw.get('start', args[1] if len(args) > 1 else 0)
    if isinstance(c, Conc):
        return SeqObj('list', Conc([(at_plus(st, k), x)
                                    for k, x in enumerate(c.items)]))
    return SeqObj('list', Sym(c.n, lambda j: (at_plus(st, j), c.at(j))))


def min_len(ns):
    ints = [n for n in ns if isinstance(n, int)]
    syms = []
    for n in ns:
        if not isinstance(n, int) and not any(n.eq(x) for x in syms):
            syms.append(n)
    if not syms:
        return min(ints)
    if ints:
        m = min(ints)
        if m == 0:
            return 0
        # decide where the concrete bound sits
        ctx = cur()
        for s in syms:
            ctx.fact(s >= 0)
        if all(ctx.entails(s >= m) for s in syms):
            return m
        for k in range(m):
            if ctx.branch(zor(*[s == k for s in syms])):
                return k
        return m
    r = syms[0]
    ctx = cur()
    for s in syms[1:]:
        if ctx.entails(r == s) or ctx.entails(r <= s):
            continue
        if ctx.entails(s <= r):
            r = s
            continue
        r = z3.If(r <= s, r, s)
    return r


@model('builtins.zip')
def m_zip(interp, args, kw):
    args = [interp.resolve(x) for x in args]
    if len(args) == 1 and isinstance(args[0], StarV):
        return transpose(interp, args[0].seq)
    if any(isinstance(a, StarV) for a in args):
        raise Unsupported('zip with *')
    if not args:
        return SeqObj('list', Conc([]))
    cs = [iter_seq(interp, a) for a in args]
    n = min_len([c.n for c in cs])
    if isinstance(n, int):
        return SeqObj('list', Conc([tuple(c.at(k) for c in cs)
                                    for k in range(n)]))
    r = Sym(n, lambda j: tuple(c.at(j) for c in cs))
    ps = [peeled(c) for c in cs]
    h = max(p[0].n if p else 0 for p in ps)
    if h and cur().entails(to_z3(n) >= h):
        rest = [p[1].at if p and p[0].n == h else
                lambda j, c=c: c.at(to_z3(j) + h) for p, c in zip(ps, cs)]
        m = min_len([p[1].n if p and p[0].n == h else z3.simplify(
            to_z3(c.n) - h) for p, c in zip(ps, cs)])
        r.peel = (Conc([tuple(c.at(k) for c in cs) for k in range(h)]),
                  Sym(m, lambda j: tuple(f(j) for f in rest)))
    return SeqObj('list', r)


def transpose(interp, rows):
    """zip(*rows) for a symbolic number of rows of a fixed width."""
    ctx = cur()
    if not ctx.branch(to_z3(rows.n) > 0):
        return SeqObj('list', Conc([]))
    k = z3.FreshConst(I, 'k')
    ws = []

    def thunk():
        ctx.fact(zand(k >= 0, k < rows.n))
        r = interp.resolve(rows.at(k))
        q = iter_seq(interp, r)
        return q
    ps = ctx.pieces(thunk, k)
    for conds, defs, kind, q in ps:
        if kind != 'val':
            raise Unsupported('zip(*) element')
        if not isinstance(q.n, int):
            return transpose_wide(interp, rows)
        ws.append(q.n)
    if not ws:
        raise PathEnd()
    if len(set(ws)) == 1:
        w = ws[0]
    else:
        # width is the least over rows: decide it
        w = None
        for cand in sorted(set(ws)):
            conds = [zand(*[zbool(c) for c in p[0] + p[1]])
                     for p, wi in zip(ps, ws) if wi == cand]
            ex = z3.Exists([k], z3.And(k >= 0, k < rows.n,
                                       zbool(zor(*conds))))
            if ctx.branch(ex):
                w = cand
                break
        if w is None:
            raise PathEnd()

    def col(c):
        def at(j):
            r = interp.resolve(rows.at(j))
            return iter_seq(interp, r).at(c)
        return Sym(rows.n, at)
    return SeqObj('list', Conc([TupV(col(c)) for c in range(w)]))


def transpose_wide(interp, rows):
    """zip(*rows) for rows of symbolic width: as many as the shortest."""
    ctx = cur()
    row = lambda k: iter_seq(interp, interp.resolve(rows.at(k)))
    n = to_z3(rows.n)
    k = z3.FreshConst(I, 'k')
    m = to_z3(row(k).n)
    if not loops.mentions(m, k):
        return SeqObj('list', Sym(m, lambda i: TupV(Sym(
            rows.n, lambda k: row(k).at(i)))))
    m, w = ctx.fresh('width', I), ctx.fresh('shortest', I)
    ctx.fact(z3.And(w >= 0, w < n))
    ctx.fact(m == to_z3(row(w).n))
    ctx.fact(m >= 0)
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                                       m <= to_z3(row(k).n))))
    return SeqObj('list', Sym(m, lambda i: TupV(Sym(
        rows.n, lambda k: row(k).at(i)))))


@model('builtins.map')
def m_map(interp, args, kw):
    f = args[0]
    cs = [iter_seq(interp, interp.resolve(a)) for a in args[1:]]
    if len(cs) != 1:
        raise Unsupported('map of several sequences')
    c = cs[0]
    if isinstance(c.n, int):
        return SeqObj('list', Conc([interp.call(f, [c.at(k)])
                                    for k in range(c.n)]))
    return SeqObj('list', interp.generic_map(
        c, lambda x: interp.call(f, [x])))


@model('builtins.filter')
def m_filter(interp, args, kw):
    f, c = args[0], iter_seq(interp, interp.resolve(args[1]))

    def body(x):
        t = interp.truth_branch(x if f is None else interp.call(f, [x]))
        return x if t else SKIP
    if isinstance(c.n, int):
        out = [body(c.at(k)) for k in range(c.n)]
        return SeqObj('list', Conc([x for x in out if x is not SKIP]))
    return SeqObj('list', interp.generic_map(c, body, True))


@model('builtins.sorted')
def m_sorted(interp, args, kw):
    v = interp.resolve(args[0])
    if kw.get('key') is not None:
        raise Unsupported('sorted key')
    c = v.seq if isinstance(v, SetV) else iter_seq(interp, v)
    rev = kw.get('reverse', False)
    if isinstance(c, Conc) and all(isinstance(x, (int, str)) for x
                                   in c.items):
        items = c.items
        if isinstance(v, SetV):
            items = set(x for x in items if v.pred(x) is True)
        return SeqObj('list', Conc(sorted(items, reverse=bool(rev))))
    if rev:
        raise Unsupported('sorted reverse')
    if isinstance(c, Conc):
        # insertion sort by branching
        out = []
        for x in c.items:
            x = interp.resolve(x)
            if not is_int(x):
                raise Unsupported('sorted of non-integers')
            if isinstance(v, SetV):
                if v.pred(x) is not True:
                    raise Unsupported('sorted set')
                if any(cur().branch(zbool(eq(interp, x, y))) for y in out):
                    continue
            k = 0
            while k < len(out) and cur().branch(
                    zbool(to_z3(out[k]) <= to_z3(x))):
                k += 1
            out.insert(k, x)
        return SeqObj('list', Conc(out))
    # symbolic: a permutation in order
    ctx = cur()
    m = (v.sym if isinstance(v, DictV) else
         v.d.sym if isinstance(v, KeysV) else getattr(v, 'keysof', None))
    if m is not None and m.keysort == 'int':
        return SeqObj('list', sorted_keys(interp, m))
    if isinstance(v, SetV):
        return sorted_set(interp, v, c)
    probe = c.at(z3.FreshConst(I, 'p'))
    if not is_int(probe):
        raise Unsupported('sorted of a symbolic sequence')
    n = to_z3(c.n)
    j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    if ctx.entails(z3.Implies(z3.And(j >= 0, j < k, k < n),
                              to_z3(c.at(j)) <= to_z3(c.at(k)))):
        return SeqObj('list', c)
    f, p, q = (ctx.fresh_fn(x, [I], I) for x in ('srt', 'from', 'to'))
    ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
        p(j) >= 0, p(j) < n, q(p(j)) == j, f(j) == to_z3(c.at(p(j))))),
        patterns=[f(j)]))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
        q(k) >= 0, q(k) < n, p(q(k)) == k, f(q(k)) == to_z3(c.at(k)))),
        patterns=[q(k)]))
    ctx.fact(z3.ForAll([j, k], z3.Implies(
        z3.And(j >= 0, j < k, k < n), f(j) <= f(k)),
        patterns=[z3.MultiPattern(f(j), f(k))]))
    return SeqObj('list', Sym(c.n, lambda i: f(to_z3(i)), perm=(p, q),
                              sorted_of=c))


def sorted_set(interp, v, c):
    """The distinct elements of c in increasing order."""
    ctx = cur()
    t = z3.FreshConst(I, 't')
    if not is_int(c.at(t)) or v.pred(t) is not True:
        raise Unsupported('sorted of a symbolic set')
    n, m = to_z3(c.n), ctx.fresh('nset', I)
    f, p, q = (ctx.fresh_fn(x, [I], I) for x in ('sset', 'from', 'to'))
    j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    ctx.fact(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(
        p(j) >= 0, p(j) < n, f(j) == to_z3(c.at(p(j))))), patterns=[f(j)]))
    ck = to_z3(c.at(k))
    fact = z3.Implies(z3.And(k >= 0, k < n), z3.And(
        q(k) >= 0, q(k) < m, f(q(k)) == ck))
    ctx.fact(z3.ForAll([k], fact, patterns=[ck]) if z3.is_app(ck) and
             ck.decl().kind() == z3.Z3_OP_UNINTERPRETED and ck.num_args() and
             loops.mentions(ck, k) else z3.ForAll([k], fact))
    ctx.fact(z3.ForAll([j, k], z3.Implies(
        z3.And(j >= 0, j < k, k < m), f(j) < f(k)),
        patterns=[z3.MultiPattern(f(j), f(k))]))
    return SeqObj('list', Sym(m, lambda i: f(to_z3(i))))


def sorted_keys(interp, m):
    """The keys of an integer map in increasing order."""
    ctx = cur()
    if m.tags.get('sorted') is not None:
        return m.tags['sorted']
    f = ctx.fresh_fn('skey', [I], I)
    p = ctx.fresh_fn('spos', [I], I)
    n = to_z3(m.keys.n)
    j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    if ctx.entails(z3.Implies(z3.And(j >= 0, j < k, k < n), to_z3(
            m.keys.at(j)) < to_z3(m.keys.at(k)))):
        m.tags['sorted'] = m.keys
        return m.keys
    ctx.fact(z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < n), z3.And(zbool(m.dom(f(j))), p(f(j)) == j)),
        patterns=[f(j)]))
    ctx.fact(z3.ForAll([k], z3.Implies(
        zbool(m.dom(k)), z3.And(p(k) >= 0, p(k) < n, f(p(k)) == k)),
        patterns=[p(k)]))
    ctx.fact(z3.ForAll([j, k], z3.Implies(
        z3.And(j >= 0, j < k, k < n), f(j) < f(k)),
        patterns=[z3.MultiPattern(f(j), f(k))]))
    # every key's position is at least the first one
    ctx.fact(z3.ForAll([k], z3.Implies(
        zbool(m.dom(k)), z3.And(n > 0, f(z3.IntVal(0)) <= k)),
        patterns=[m.dom(k)] if is_z3(m.dom(k)) and
        z3.is_app(m.dom(k)) and m.dom(k).num_args() and
        m.dom(k).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    s = Sym(m.keys.n, lambda i: f(to_z3(i)))
    m.tags['sorted'] = s
    return s


@model('builtins.reversed')
def m_reversed(interp, args, kw):
    c = iter_seq(interp, interp.resolve(args[0]))
    if isinstance(c, Conc):
        return SeqObj('list', Conc(c.items[::-1]))
    return SeqObj('list', Sym(c.n, lambda j: c.at(to_z3(c.n) - 1 - j)))


def minmax(op):
    def f(interp, args, kw):
        if kw.get('key') is not None:
            raise Unsupported('min/max key')
        if len(args) == 1:
            v = interp.resolve(args[0])
            m = (v.sym if isinstance(v, DictV) else
                 v.d.sym if isinstance(v, KeysV) else None)
            if m is not None:
                if not cur().branch(to_z3(m.keys.n) > 0):
                    if 'default' in kw:
                        return kw['default']
                    py_raise(ValueError, 'empty')
                s = sorted_keys(interp, m)
                return s.at(0 if op is operator.le else to_z3(s.n) - 1)
            c = iter_seq(interp, v)
            if not isinstance(c.n, int):
                raise Unsupported('min/max of symbolic')
            args = [c.at(k) for k in range(c.n)]
            if not args:
                if 'default' in kw:
                    return kw['default']
                py_raise(ValueError, 'empty')
        r = interp.resolve(args[0])
        for x in args[1:]:
            x = interp.resolve(x)
            if not (is_num(r) and is_num(x)):
                raise Unsupported('min/max')
            if not is_z3(r) and not is_z3(x):
                r = r if op(r, x) else x
            else:
                a, b = to_z3(interp.num(r)), to_z3(interp.num(x))
                r = z3.If(op(a, b), a, b)
        return r
    return f


MODELS['builtins.min'] = Builtin('min', minmax(operator.le))
MODELS['builtins.max'] = Builtin('max', minmax(operator.ge))
MODELS['builtins.any'] = Builtin('any', lambda it, a, k: any_of(
    it, iter_seq(it, it.resolve(a[0]))))
MODELS['builtins.all'] = Builtin('all', lambda it, a, k: all_of(
    it, iter_seq(it, it.resolve(a[0]))))


@model('builtins.sum')
def m_sum(interp, args, kw):
    c = iter_seq(interp, interp.resolve(args[0]))
    if not isinstance(c.n, int):
        raise Unsupported('sum of symbolic')
    r = args[1] if len(args) > 1 else 0
    for k in range(c.n):
        r = binop(interp, ast.Add(), r, interp.resolve(c.at(k)))
    return r


def isinst(interp, v, t):
    """isinstance as a condition."""
    t = interp.resolve(t)
    if isinstance(t, tuple):
        return zor(*[isinst(interp, v, x) for x in t])
    if isinstance(t, ClassV):
        if isinstance(v, (InstV, DictV)) and isinstance(v.cls, ClassV):
            return issubclass(v.cls.real, t.real)
        if isinstance(v, ExcV):
            c = v.cls.real if isinstance(v.cls, ClassV) else v.cls
            return issubclass(c, t.real)
        return False
    if not isinstance(t, type):
        raise Unsupported('isinstance against %r' % (t,))
    if t is object:
        return True
    if isinstance(v, (ArrLike,)):
        if t in (int, str, bytes, float, bool, dict):
            return False
        raise Unsupported('isinstance')
    py = pytype(v)
    if py is not None:
        return issubclass(py, t)
    if isinstance(v, Opaque):
        tn = {int: ('int', 'bool'), str: ('str',), bytes: ('bytes',),
              float: ('float',), bool: ('bool',),
              dict: (), list: (), tuple: (), set: ()}.get(t)
        if tn is None:
            if t is np.ndarray:
                return False
            raise Unsupported('isinstance %s' % t)
        if t is int and False:
            pass
        return zor(*[_tag(v.term) == TAGS[x] for x in tn])
    raise Unsupported('isinstance of %r' % (v,))


def pytype(v):
    """The Python type of a value where it is determined."""
    if v is None:
        return type(None)
    if is_bool(v):
        return bool
    if is_int(v):
        return int
    if is_real(v):
        return float
    if isinstance(v, str):
        return str
    if isinstance(v, bytes):
        return bytes
    if isinstance(v, StrV):
        return bytes if v.isbytes else str
    if isinstance(v, (tuple, TupV, NTV)):
        return tuple
    if isinstance(v, SeqObj):
        return {'list': list, 'ndarray': np.ndarray}.get(v.kind)
    if isinstance(v, DictV):
        return v.cls.real if isinstance(v.cls, ClassV) else dict
    if isinstance(v, SetV):
        return set
    if isinstance(v, SliceV):
        return slice
    if isinstance(v, GenV):
        import types
        return types.GeneratorType
    if isinstance(v, (FuncV, BoundV)):
        import types
        return types.FunctionType
    if isinstance(v, Opaque):
        return {'str': str, 'bytes': bytes, 'float': float,
                'int': int}.get(v.ty)
    if isinstance(v, InstV):
        if isinstance(v.cls, ClassV):
            return v.cls.real
        return getattr(v.cls, 'pytype', object)
    if isinstance(v, ExcV):
        return v.cls if isinstance(v.cls, type) else v.cls.real
    if isinstance(v, PyConst):
        return type(v.real)
    if isinstance(v, (type, ClassV)):
        return type
    return None


@model('builtins.isinstance')
def m_isinstance(interp, args, kw):
    v = interp.resolve(args[0])
    return isinst(interp, v, args[1])


@model('builtins.issubclass')
def m_issubclass(interp, args, kw):
    a = [x.real if isinstance(x, ClassV) else x for x in args]
    return issubclass(*a)


@model('builtins.callable')
def m_callable(interp, args, kw):
    return isinstance(args[0], (FuncV, BoundV, Builtin, ClassV, OpaqueFn,
                                type))


@model('builtins.hasattr')
def m_hasattr(interp, args, kw):
    v = interp.resolve(args[0])
    name = args[1]
    if isinstance(v, InstV) and hasattr(v.cls, 'hasattr'):
        return v.cls.hasattr(interp, v, name)
    if isinstance(v, (InstV, DictV)) and isinstance(v.cls, ClassV):
        return name in v.attrs or hasattr(v.cls.real, name)
    if isinstance(v, ArrLike):
        if name in ('__iter__', '__getitem__', '__len__'):
            return uf('has_' + name, Obj, B)(v.term)
        raise Unsupported('hasattr')
    t = pytype(v)
    if t is not None and not isinstance(v, (ExcV, PyConst)):
        return hasattr(t, name)
    if isinstance(v, Opaque):
        return uf('has_' + name, Obj, B)(v.term)
    if isinstance(v, (KeysV,)):
        return hasattr({}.keys(), name)
    raise Unsupported('hasattr of %r' % (v,))


@model('builtins.getattr')
def m_getattr(interp, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('getattr name')
    if len(args) > 2:
        try:
            return interp.getattr(args[0], args[1])
        except PyRaise as e:
            if e.exc.cls is AttributeError:
                return args[2]
            raise
    return interp.getattr(args[0], args[1])


@model('builtins.setattr')
def m_setattr(interp, args, kw):
    interp.setattr(args[0], args[1], args[2])


@model('builtins.next')
def m_next(interp, args, kw):
    g = interp.resolve(args[0])
    try:
        if isinstance(g, GenV):
            return gen_next(interp, g)
        h = getattr(g, 'next', None)
        if h is not None:
            return h(interp)
    except PyRaise as e:
        if len(args) > 1 and e.exc.cls is StopIteration:
            return args[1]
        raise
    raise Unsupported('next of %r' % (g,))


@model('io.open', 'builtins.open', 'codecs.open')
def m_open(interp, args, kw):
    h = interp.contracts.get('io.open')
    if h is None:
        raise Unsupported('open')
    return h(interp, None, args, kw)


@model('locale.getpreferredencoding')
def m_preferred(interp, args, kw):
    h = interp.contracts.get('locale.getpreferredencoding')
    if h is None:
        raise Unsupported('locale')
    return h(interp, None, args, kw)


@model('builtins.iter')
def m_iter(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, GenV):
        return v
    q = iter_seq(interp, v)

    def it():
        yield YieldAll(q)
    return GenV(it(), 'iter')


@model('builtins.print')
def m_print(interp, args, kw):
    return None


@model('builtins.repr')
def m_repr(interp, args, kw):
    v = interp.resolve(args[0])
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return repr(v)
    return opaque_format(interp, 'repr', [v])


@model('builtins.ord')
def m_ord(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, (str, bytes)):
        if len(v) != 1:
            py_raise(TypeError, 'ord')
        return ord(v)
    if isinstance(v, StrV) and v.content.n == 1:
        return v.content.at(0)
    raise Unsupported('ord')


@model('builtins.chr')
def m_chr(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, int):
        return chr(v)
    return StrV(Conc([v]))


@model('builtins.divmod')
def m_divmod(interp, args, kw):
    a, b = args
    return (interp.binop(ast.FloorDiv(), a, b), interp.binop(ast.Mod(), a,
                                                             b))


@model('builtins.abs')
def m_abs(interp, args, kw):
    v = interp.num(interp.resolve(args[0]))
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, z3.ArithRef):
        return z3.If(v >= 0, v, -v)
    raise Unsupported('abs')


@model('builtins.round')
def m_round(interp, args, kw):
    v = interp.num(interp.resolve(args[0]))
    if isinstance(v, (int, float)) and len(args) == 1:
        return round(v)
    if isinstance(v, z3.ArithRef) and v.is_real() and len(args) == 1:
        f = z3.ToInt(v)
        d = v - z3.ToReal(f)
        half = z3.Q(1, 2)
        return z3.If(d < half, f, z3.If(d > half, f + 1,
                                        z3.If(f % 2 == 0, f, f + 1)))
    raise Unsupported('round')


@model('builtins.id')
def m_id(interp, args, kw):
    raise Unsupported('id')


def t_int(interp, args, kw):
    if not args:
        return 0
    v = interp.resolve(args[0])
    if len(args) > 1 or kw:
        if all(isinstance(a, (int, str, bytes)) for a in args):
            try:
                return int(*args)
            except ValueError:
                py_raise(ValueError, 'int()')
        raise Unsupported('int with base')
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            py_raise(type(e))
    if isinstance(v, z3.BoolRef):
        return interp.num(v)
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return v
        if cur().entails(v >= 0):
            return zfloor(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isinstance(v, (str, bytes)):
        try:
            return int(v)
        except ValueError:
            py_raise(ValueError, 'int()')
    if isinstance(v, StrV):
        d = getattr(v, 'decimal', None)
        if d is not None:
            return d
        r = parse_int(interp, v)
        if r is not None:
            return r
    if isinstance(v, (Opaque, StrV)):
        t = without_strip(to_obj(v))
        ok = uf('int_ok', Obj, B)(t)
        if isinstance(v, Opaque) and v.ty == 'float':
            return uf('trunc', Obj, I)(t)
        if not cur().branch(ok):
            py_raise(ValueError, 'int()')
        return uf('int_of', Obj, I)(t)
    if v is None or isinstance(v, (SeqObj, DictV, tuple)):
        py_raise(TypeError, 'int()')
    raise Unsupported('int(%r)' % (v,))


def parse_int(interp, v):
    """Decimal value of a StrV all of whose characters are digits."""
    c = v.content
    if isinstance(c, Conc):
        if c.n == 0:
            py_raise(ValueError, 'int()')
        digits = zand(*[zand(to_z3(x) >= 48, to_z3(x) <= 57)
                        for x in c.items])
        if cur().entails(zbool(digits)):
            r = 0
            for x in c.items:
                r = r * 10 + (to_z3(x) - 48)
            return r
        return None
    from .strings import all_codes, is_digit, decimal_value
    if not cur().branch(to_z3(c.n) > 0):
        py_raise(ValueError, 'int()')
    if cur().entails(all_codes(c, is_digit)):
        return decimal_value(c)
    return None


def t_float(interp, args, kw):
    if not args:
        return 0.0
    v = interp.resolve(args[0])
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, z3.BoolRef):
        v = interp.num(v)
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, (str, bytes)):
        try:
            return float(v)
        except ValueError:
            py_raise(ValueError, 'could not convert string to float')
    if isinstance(v, (Opaque, StrV)):
        t = without_strip(to_obj(v))
        if isinstance(v, Opaque) and v.ty == 'float':
            return v
        ok = uf('float_ok', Obj, B)(t)
        if not cur().branch(ok):
            py_raise(ValueError, 'could not convert string to float')
        return Opaque(uf('float_of', Obj, Obj)(t), 'float')
    py_raise(TypeError, 'float()')


def t_str(interp, args, kw):
    if len(args) == 2:
        return interp.call(interp.getattr(interp.resolve(args[0]), 'decode'),
                           [args[1]], {})
    if not args:
        return ''
    v = interp.resolve(args[0])
    if len(args) > 1 or kw:
        raise Unsupported('str(bytes, enc)')
    if isinstance(v, (str,)):
        return v
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return str(v)
    if kindname(v) == 'str':
        return v
    if is_int(v):
        return Opaque(uf('str_of_int', I, Obj)(v), 'str')
    return opaque_format(interp, 'str', [v])


def t_bool(interp, args, kw):
    return interp.truth(args[0]) if args else False


def t_list(interp, args, kw):
    if not args:
        return SeqObj('list', Conc([]))
    return SeqObj('list', iter_seq(interp, interp.resolve(args[0])))


def t_tuple(interp, args, kw):
    if not args:
        return ()
    c = iter_seq(interp, interp.resolve(args[0]))
    return tuple(c.items) if isinstance(c, Conc) else TupV(c)


def t_dict(interp, args, kw):
    d = DictV({})
    dict_update(interp, [d] + list(args), kw)
    return d


def t_set(interp, args, kw):
    if not args:
        return SetV(Conc([]))
    return mkset(interp, args[0])


def t_slice(interp, args, kw):
    if len(args) == 1:
        return SliceV(None, args[0])
    return SliceV(*args)


def t_type(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, (InstV, DictV)) and isinstance(v.cls, ClassV):
        return v.cls
    t = pytype(v)
    if t is not None:
        return t
    if isinstance(v, Opaque):
        return TypeOf(v)
    raise Unsupported('type()')


def t_bytes(interp, args, kw):
    if not args:
        return b''
    v = interp.resolve(args[0])
    if kindname(v) == 'bytes':
        return v
    if isinstance(v, int):
        return bytes(v)
    if len(args) == 2 and kindname(v) == 'str':
        return interp.call(interp.getattr(v, 'encode'), [args[1]], {})
    q = content_of(interp, v)
    if isinstance(q, Conc) and all(is_int(x) for x in q.items):
        if not cur().branch(zbool(zand(*[zand(to_z3(x) >= 0, to_z3(x) < 256)
                                         for x in q.items]))):
            py_raise(ValueError, 'bytes must be in range(0, 256)')
        return mkstr(q, True)
    raise Unsupported('bytes()')


def t_ndarray(interp, args, kw):
    raise Unsupported('ndarray()')


TYPECALL.update({int: t_int, float: t_float, str: t_str, bool: t_bool,
                 list: t_list, tuple: t_tuple, dict: t_dict, set: t_set,
                 frozenset: t_set, slice: t_slice, type: t_type,
                 bytes: t_bytes, bytearray: t_bytes,
                 zip: lambda it, a, k: MODELS['builtins.zip'].fn(it, a, k),
                 range: lambda it, a, k: MODELS['builtins.range'].fn(it, a, k),
                 object: lambda it, a, k: InstV(PlainCls())})


class PlainCls(object):
    name = 'object'


# ------------------------------------------------------------ list methods

def list_append(interp, o, x):
    g = extend_gather(o.content, [x])
    if g is not None:
        o.content = g
        return
    c = o.content
    if isinstance(c, Conc):
        o.content = Conc(c.items + (x,))
    else:
        o.content = concat(interp, c, Conc([x]))


def list_extend(interp, o, v):
    q = iter_seq(interp, interp.resolve(v))
    if is_gather(o.content):
        if isinstance(q.n, int):
            o.content = extend_gather(o.content, [q.at(k)
                                                  for k in range(q.n)])
            return
        raise Unsupported('symbolic extend in a loop')
    o.content = concat(interp, o.content, q)


def list_repeat(interp, o, n):
    c = o.content
    if isinstance(n, int) and isinstance(c, Conc):
        return SeqObj('list', Conc(c.items * n))
    if isinstance(c, Conc) and c.n == 1:
        x = c.items[0]
        if cur().entails(to_z3(n) >= 0):
            return SeqObj('list', Sym(n, lambda j: x))
        return SeqObj('list', Sym(z3.If(to_z3(n) >= 0, n, z3.IntVal(0)),
                                  lambda j: x))
    raise Unsupported('list repeat')


def list_method(interp, o, name):
    if name == 'append':
        return lambda it, a, k: list_append(it, o, a[0])
    if name == 'extend':
        return lambda it, a, k: list_extend(it, o, a[0])
    if name == 'insert':
        def f(it, a, k):
            c = content_of(it, o)
            if isinstance(c, Conc) and isinstance(a[0], int):
                items = list(c.items)
                items.insert(a[0], a[1])
                o.content = Conc(items)
            elif a[0] == 0:
                o.content = concat(it, Conc([a[1]]), c)
            else:
                raise Unsupported('insert')
        return f
    if name == 'pop':
        def f(it, a, k):
            c = content_of(it, o)
            if isinstance(c, Conc) and (not a or isinstance(a[0], int)):
                items = list(c.items)
                try:
                    v = items.pop(*a)
                except IndexError:
                    py_raise(IndexError, 'pop')
                o.content = Conc(items)
                return v
            raise Unsupported('pop')
        return f
    if name == 'copy':
        return lambda it, a, k: SeqObj('list', content_of(it, o))
    if name == 'sort':
        def f(it, a, k):
            if is_gather(o.content):
                raise Unsupported('sort')
            r = m_sorted(it, [SeqObj('list', o.content)], k)
            o.content = r.content
        return f
    if name == 'reverse':
        def f(it, a, k):
            o.content = m_reversed(it, [SeqObj('list', o.content)],
                                   {}).content
        return f
    if name == 'index':
        def f(it, a, k):
            c = content_of(it, o)
            if isinstance(c, Conc):
                for j, x in enumerate(c.items):
                    if cur().branch(zbool(eq(it, it.resolve(x), a[0]))):
                        return j
                py_raise(ValueError, 'index')
            raise Unsupported('list.index')
        return f
    if name == 'clear':
        def f(it, a, k):
            o.content = Conc([])
        return f
    if name == '__getitem__':
        return lambda it, a, k: getitem(it, o, a[0])
    if name == '__len__':
        return lambda it, a, k: m_len(it, [o], {})
    if name == 'count':
        return None
    return None


# ------------------------------------------------------------ str methods

def isspace_code(c):
    """ASCII whitespace as str.strip/bytes.strip see it (codes < 128)."""
    c = to_z3(c)
    return z3.Or(z3.And(c >= 9, c <= 13), c == 32,
                 z3.And(c >= 28, c <= 31))


def upper_code(c):
    if isinstance(c, int):
        return ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c
    ctx = cur()
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def lower_code(c):
    if isinstance(c, int):
        return ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def ascii_guard(interp, v):
    """Case mapping is modelled for ASCII only."""
    c = v.content
    if isinstance(c, Conc):
        ok = zand(*[to_z3(x) < 128 for x in c.items])
    else:
        j = z3.FreshConst(I, 'j')
        ok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c.n),
                                       to_z3(c.at(j)) < 128))
    if not cur().entails(zbool(ok)):
        raise Unsupported('case mapping beyond ASCII')


def str_method(interp, o, name):
    """Methods of str/bytes values."""
    if isinstance(o, (str, bytes)):
        def conc(it, a, k):
            a = [it.resolve(x) for x in a]
            if name == 'join':
                q = iter_seq(it, a[0])
                if isinstance(q.n, int):
                    xs = [it.resolve(q.at(j)) for j in range(q.n)]
                    if all(type(x) is type(o) for x in xs):
                        return o.join(xs)
                    return join_mixed(it, o, xs)
                if not o:
                    return JoinV(q)
                raise Unsupported('join of symbolic')
            if name == 'format':
                if all(isinstance(x, (str, int)) for x in a) and not k:
                    return o.format(*a)
                r = plain_format(it, o, a) if not k else None
                if r is not None:
                    return r
                return opaque_format(it, o, a)
            if name == 'replace' and isinstance(a[0], Opaque) and \
                    a[0].ty in ('str', 'bytes') and len(a) == 2:
                if not cur().branch(contains(it, o, a[0])):
                    return o
            if all(x is None or isinstance(x, (str, bytes, int, tuple))
                   for x in a) and not k:
                try:
                    return it.wrap(getattr(o, name)(*a))
                except Exception as e:
                    py_raise(type(e), str(e))
            if not a and all(isinstance(x, (str, int)) for x in k.values()):
                return it.wrap(getattr(o, name)(**k))
            r = sym_str_method(it, as_strv(o), name)
            if r is not None:
                return r(it, a, k)
            raise Unsupported('str.%s' % name)
        if hasattr(o, name):
            return conc
        return None
    if isinstance(o, StrV):
        r = sym_str_method(interp, o, name)
        if r is not None:
            return r
        if getattr(o, 'ident', None) is not None:
            return opaque_str_method(interp, Opaque(
                o.ident, 'bytes' if o.isbytes else 'str'), name)
        return None
    return opaque_str_method(interp, o, name)


class JoinV(Value):
    """The concatenation of a symbolic number of texts."""

    def __init__(self, seq):
        self.seq = seq


def join_mixed(interp, sep, xs):
    r = None
    for x in xs:
        r = x if r is None else interp.binop(
            ast.Add(), interp.binop(ast.Add(), r, sep) if sep else r, x)
    return r if r is not None else sep[:0]


def sym_str_method(interp, o, name):
    if name in ('upper', 'lower'):
        fn = upper_code if name == 'upper' else lower_code

        def f(it, a, k):
            ascii_guard(it, o)
            return mkstr(map_seq(o.content, fn), o.isbytes)
        return f
    if name == 'strip' and isinstance(o.content, Conc):
        def f(it, a, k):
            if a and a[0] is not None:
                cs = a[0]
                if not isinstance(cs, (str, bytes)):
                    raise Unsupported('strip chars')
                codes = [ord(x) for x in cs] if isinstance(cs, str) \
                    else list(cs)
                sp = lambda c: zor(*[to_z3(c) == q for q in codes])
            else:
                sp = isspace_code
            items = list(o.content.items)
            while items and cur().branch(zbool(sp(items[0]))):
                items.pop(0)
            while items and cur().branch(zbool(sp(items[-1]))):
                items.pop()
            return mkstr(Conc(items), o.isbytes)
        return f
    if name == 'isdigit' and isinstance(o.content, Conc):
        def f(it, a, k):
            ascii_guard(it, o)
            if not o.content.n:
                return False
            return zand(*[zand(to_z3(c) >= 48, to_z3(c) <= 57)
                          for c in o.content.items])
        return f
    if name == 'isalpha' and isinstance(o.content, Conc):
        def f(it, a, k):
            ascii_guard(it, o)
            if not o.content.n:
                return False
            return zand(*[zor(zand(to_z3(c) >= 65, to_z3(c) <= 90),
                              zand(to_z3(c) >= 97, to_z3(c) <= 122))
                          for c in o.content.items])
        return f
    if name == 'lstrip' and isinstance(o.content, Conc):
        def f(it, a, k):
            sp = isspace_code
            if a and a[0] is not None:
                cs = a[0]
                codes = [ord(x) for x in cs] if isinstance(cs, str) \
                    else list(cs)
                sp = lambda c: zor(*[to_z3(c) == q for q in codes])
            items = list(o.content.items)
            while items and cur().branch(zbool(sp(items[0]))):
                items.pop(0)
            return mkstr(Conc(items), o.isbytes)
        return f
    if name == 'split' and isinstance(o.content, Conc):
        def f(it, a, k):
            if not a or not isinstance(a[0], (str, bytes)) or \
                    len(a[0]) != 1 or len(a) > 1:
                raise Unsupported('split')
            code = ord(a[0])
            parts, acc = [], []
            for c in o.content.items:
                if cur().branch(zbool(to_z3(c) == code)):
                    parts.append(mkstr(Conc(acc), o.isbytes))
                    acc = []
                else:
                    acc.append(c)
            parts.append(mkstr(Conc(acc), o.isbytes))
            return SeqObj('list', Conc(parts))
        return f
    if name == 'find':
        def f(it, a, k):
            if isinstance(o.content, Conc) and isinstance(
                    a[0], (str, bytes)) and len(a[0]) == 1:
                for j, c in enumerate(o.content.items):
                    if cur().branch(zbool(to_z3(c) == ord(a[0]))):
                        return j
                return -1
            raise Unsupported('find')
        return f
    if name == 'join':
        return None
    if name == 'decode' and o.isbytes:
        from .ext import decode
        return lambda it, a, k: decode(it, o, a, k)
    if name == 'encode' and not o.isbytes:
        from .ext import encode
        return lambda it, a, k: encode(it, o, a, k)
    if name == 'replace' and isinstance(o.content, Conc):
        def f(it, a, k):
            if len(a) == 2 and all(isinstance(x, (str, bytes)) for x in a) \
                    and len(a[0]) == 1 and len(a[1]) <= 1:
                out = []
                for c in o.content.items:
                    if cur().branch(zbool(to_z3(c) == ord(a[0]))):
                        out.extend([ord(x) for x in a[1]] if isinstance(
                            a[1], str) else list(a[1]))
                    else:
                        out.append(c)
                return mkstr(Conc(out), o.isbytes)
            raise Unsupported('replace')
        return f
    return None


def char_set(s):
    """Characters to strip, in a canonical order."""
    if isinstance(s, bytes):
        return bytes(sorted(set(s)))
    return ''.join(sorted(set(s)))


def without_strip(t):
    """Splitting at whitespace and reading numbers ignore whitespace
    stripped before."""
    while z3.is_app(t) and t.num_args() and t.decl().name() in (
            'str_strip_0', 'str_strip_1', 'str_lstrip_0', 'str_rstrip_0'):
        if t.num_args() == 2:
            c = const_value(t.arg(1))
            if c is None or c.strip():
                break
        t = t.arg(0)
    return t


def opaque_str_method(interp, o, name):
    """str/bytes methods as uninterpreted functions of their inputs."""
    ty = o.ty if o.ty in ('str', 'bytes') else 'any'
    if name in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace',
                'title', 'decode', 'encode', 'format'):
        def f(it, a, k):
            a = list(a) + [k[x] for x in sorted(k)]
            a = [it.resolve(x) for x in a]
            if name.endswith('strip') and len(a) == 1:
                if a[0] is None:
                    a = []
                elif isinstance(a[0], (str, bytes)):
                    a = [char_set(a[0])]
            ts = [to_obj(x) for x in a]
            fn = uf('str_%s_%d' % (name, len(ts)),
                    *([Obj] * (len(ts) + 2)))
            rt = ty
            if name == 'decode':
                rt = 'str'
                if ty == 'str':
                    py_raise(AttributeError, 'decode')
                ok = uf('decode_ok', Obj, Obj, B)
                if not cur().branch(ok(o.term, ts[0] if ts
                                       else const_obj(None))):
                    py_raise(UnicodeDecodeError, 'decode')
            if name == 'encode':
                rt = 'bytes'
            r = Opaque(fn(o.term, *ts), rt)
            if name.endswith('strip') and z3.is_app(o.term) and \
                    o.term.decl().eq(r.term.decl()) and all(
                        x.eq(y) for x, y in zip(o.term.children()[1:], ts)):
                return o            # idempotent
            if name.endswith('strip') and not ts:
                # something is left on either side, or nothing at all
                cur().fact(_truthy(r.term) == _truthy(uf(
                    'str_strip_0', Obj, Obj)(o.term)))
            if name.endswith('strip') and ty in ('str', 'bytes'):
                cur().fact((r.term == const_obj('' if ty == 'str' else b''))
                           == z3.Not(_truthy(r.term)))
            return r
        return f
    if name == 'split':
        def f(it, a, k):
            a = [it.resolve(x) for x in a]
            if len(a) > 1 or k:
                raise Unsupported('split with a limit')
            d = to_obj(a[0]) if a and a[0] is not None else const_obj(None)
            t = o.term
            if not a or a[0] is None:
                t = without_strip(t)
            n = uf('split_n', Obj, Obj, I)(t, d)
            el = uf('split_at', Obj, Obj, I, Obj)
            cur().fact(n >= (1 if a and a[0] is not None else 0))
            return SeqObj('list', Sym(n, lambda j: Opaque(
                el(t, d, to_z3(j)), ty)))
        return f
    if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isalpha',
                'isidentifier', 'isalnum'):
        def f(it, a, k):
            ts = [to_obj(it.resolve(x)) for x in a]
            return uf('str_%s_%d' % (name, len(ts)),
                      *([Obj] * (len(ts) + 1) + [B]))(o.term, *ts)
        return f
    return None


# ------------------------------------------------------------ attributes

def getattr_model(interp, o, name):
    if isinstance(o, SeqObj):
        if o.kind == 'ndarray':
            r = arr_attr(interp, o, name)
            if r is None:
                raise Unsupported('ndarray.%s' % name)
            return r
        if o.kind == 'list':
            m = list_method(interp, o, name)
            if m is not None:
                return (Builtin('list.' + name, m),)
            if not hasattr(list, name):
                py_raise(AttributeError, name)
        return None
    if isinstance(o, DType):
        if name == 'kind':
            return (dk(interp, o.arr),)
        return None
    if isinstance(o, (str, bytes, StrV)):
        m = str_method(interp, o, name)
        if m is not None:
            return (Builtin('str.' + name, m),)
        if not hasattr(str if not (isinstance(o, bytes) or getattr(
                o, 'isbytes', False)) else bytes, name):
            py_raise(AttributeError, name)
        return None
    if isinstance(o, Opaque):
        if o.ty in ('str', 'bytes'):
            m = opaque_str_method(interp, o, name)
            if m is not None:
                return (Builtin('str.' + name, m),)
            if not hasattr(str if o.ty == 'str' else bytes, name):
                py_raise(AttributeError, name)
        return None
    if isinstance(o, DictV):
        m = BMETHODS.get((dict, name))
        if m is not None:
            return (Builtin('dict.' + name, lambda it, a, k: m(
                it, [o] + a, k)),)
        if not hasattr(dict, name):
            py_raise(AttributeError, name)
        return None
    if isinstance(o, (tuple, TupV)):
        if not hasattr(tuple, name):
            py_raise(AttributeError, name)
        if name == 'index':
            return (Builtin('index', list_method(interp, SeqObj(
                'list', content_of(interp, o)), 'index')),)
        return None
    if isinstance(o, SetV):
        if name == 'issubset':
            return (Builtin(name, lambda it, a, k: set_subset(
                it, o, as_set(it, a[0]))),)
        if name == 'issuperset':
            return (Builtin(name, lambda it, a, k: set_subset(
                it, as_set(it, a[0]), o)),)
        if name == 'difference':
            return (Builtin(name, lambda it, a, k: set_diff(
                it, o, as_set(it, a[0]))),)
        if name == 'add':
            def f(it, a, k):
                cur().mutating(o, 'content')
                if not isinstance(o.seq, Conc):
                    raise Unsupported('set.add')
                o.seq = Conc(o.seq.items + (a[0],))
            return (Builtin(name, f),)
        return None
    if isinstance(o, type):
        if o is str and name in ('strip', 'upper', 'lower'):
            return (Builtin(name, lambda it, a, k: it.call(
                it.getattr(a[0], name), a[1:], k)),)
        b = BMETHODS.get((o, name))
        if b is not None:
            return (Builtin(name, b),)
        if o is int and name == 'from_bytes':
            from .ext import int_from_bytes
            return (Builtin(name, int_from_bytes),)
        if o is dict and name == 'fromkeys':
            raise Unsupported('dict.fromkeys')
        if name == '__name__':
            return (o.__name__,)
        return None
    if isinstance(o, NTClass):
        if name == '_make':
            return (Builtin('_make', lambda it, a, k: it.call(
                o, it_items(it, a[0]), {})),)
        if name == '_fields':
            return (o.fields,)
        if name == '__name__':
            return (o.name,)
        return None
    if isinstance(o, NTSym):
        if name == '_make':
            return (Builtin('_make', lambda it, a, k: nt_make(
                it, o, iter_seq(it, it.resolve(a[0])))),)
        if name == '_fields':
            return (TupV(o.fields),)
        return None
    if isinstance(o, NTV):
        if name == '_asdict':
            return None
        if name == '_fields':
            return (o.cls.fields,)
        if name == '_replace':
            def f(it, a, k):
                vals = dict(zip(o.cls.fields, o.values))
                vals.update(k)
                return NTV(o.cls, [vals[x] for x in o.cls.fields])
            return (Builtin(name, f),)
        py_raise(AttributeError, name)
    if isinstance(o, InstV):
        h = getattr(o.cls, 'getattr', None)
        if h is not None:
            return (h(interp, o, name),)
        if name in o.attrs:
            return (o.attrs[name],)
    if isinstance(o, ExcV):
        if name == 'args':
            return (tuple(o.args),)
    if isinstance(o, GenV):
        if name == '__next__':
            return (Builtin('next', lambda it, a, k: gen_next(it, o)),)
        if name == 'close':
            return (Builtin('close', lambda it, a, k: None),)
    if isinstance(o, KeysV):
        return None
    if o is None or is_num(o):
        if o is not None and is_int(o) and name in ('real',):
            return (o,)
        py_raise(AttributeError, name)
    if isinstance(o, RxV):
        from .strings import rx_getattr
        return rx_getattr(interp, o, name)
    if isinstance(o, StructV):
        from .ext import struct_getattr
        return struct_getattr(interp, o, name)
    h = getattr(o, 'pygetattr', None)
    if h is not None:
        r = h(interp, name)
        if r is not None:
            return r
    if isinstance(o, (FuncV,)):
        if name == '__name__':
            return (o.name,)
    return None


def it_items(interp, v):
    q = iter_seq(interp, interp.resolve(v))
    if not isinstance(q.n, int):
        raise Unsupported('symbolic arity')
    return [q.at(k) for k in range(q.n)]


# ------------------------------------------------------------ namedtuple

def nt_make(interp, cls, q):
    """A record with the elements of q: as many as there are fields."""
    if not cur().branch(zbool(to_z3(q.n) == to_z3(cls.fields.n))):
        py_raise(TypeError, 'namedtuple arity')
    return NTSymV(cls, q)


def valid_fields(fields):
    """The field names of a namedtuple: each valid, all distinct."""
    j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
    n = to_z3(fields.n)
    ok = uf('valid_field', Obj, B)
    return z3.And(
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n),
                                  ok(to_obj(fields.at(j))))),
        z3.ForAll([j, k], z3.Implies(
            z3.And(j >= 0, j < k, k < n),
            to_obj(fields.at(j)) != to_obj(fields.at(k)))))


@model('collections.namedtuple')
def m_namedtuple(interp, args, kw):
    if kw:
        raise Unsupported('namedtuple options')
    nm, fields = args[0], interp.resolve(args[1])
    q = None if isinstance(fields, str) else iter_seq(interp, fields)
    if q is not None and not isinstance(q.n, int):
        if not cur().branch(valid_fields(q)):
            py_raise(ValueError, 'field names')
        return NTSym(nm, q)
    if isinstance(fields, str):
        fields = tuple(fields.replace(',', ' ').split())
    else:
        fields = tuple(it_items(interp, fields))
    fields = tuple(interp.resolve(f) for f in fields)
    if all(isinstance(f, str) for f in fields):
        import collections
        try:
            collections.namedtuple(nm, fields)
        except ValueError as e:
            py_raise(ValueError, str(e))
        return NTClass(nm, fields)
    # symbolic names: valid iff each is an identifier, not a keyword, no
    # leading underscore, all distinct
    ok = True
    for f in fields:
        if isinstance(f, str):
            import keyword
            if not f.isidentifier() or keyword.iskeyword(f) or \
                    f.startswith('_'):
                ok = False
        else:
            ok = zand(ok, uf('valid_field', Obj, B)(to_obj(f)))
    for i in range(len(fields)):
        for j in range(i):
            ok = zand(ok, znot(eq(interp, fields[i], fields[j])))
    if not cur().branch(zbool(ok)):
        py_raise(ValueError, 'field names')
    return NTClass(nm, fields)


@model('collections.defaultdict')
def m_defaultdict(interp, args, kw):
    d = DictV({})
    d.factory = args[0] if args else None
    return d
TYPECALL[__import__('collections').defaultdict] = m_defaultdict
TYPECALL[__import__('collections').OrderedDict] = t_dict

from . import strings  # noqa: E402,F401
from . import ext      # noqa: E402,F401
