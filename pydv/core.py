"""Values, path exploration, obligations."""
import itertools
import contextlib
import time
from fractions import Fraction

import z3

Obj = z3.DeclareSort('Obj')
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


class Unsupported(Exception):
    """The code left the verifier's subset: a tool limit, never a violation."""


class Effect(Unsupported):
    """A generic element changes the heap."""


class PathEnd(Exception):
    """The current path is infeasible or complete."""


class RestartLoop(Exception):
    def __init__(self, prefix, why=''):
        self.prefix = prefix
        self.why = why


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


# ---------------------------------------------------------------- values

class Value(object):
    pass


class ExcV(Value):
    def __init__(self, cls, args=()):
        self.cls = cls          # a real exception class, or a ClassV
        self.args = args

    def name(self):
        return getattr(self.cls, '__name__', None) or self.cls.name


class Opaque(Value):
    """A Python object the verifier only knows as a term of sort Obj."""

    def __init__(self, term, ty='any'):
        self.term = term
        self.ty = ty            # any str bytes float int

    def __repr__(self):
        return 'Opaque(%s:%s)' % (self.term, self.ty)


class Junk(Value):
    """A value about which nothing is known; reading it is a tool limit."""

    def __init__(self, why=''):
        self.why = why


class Unbound(Value):
    pass


UNBOUND = Unbound()


class HV(Value):
    """A havocked variable of several possible types: tag selects one."""

    def __init__(self, tag, alts):
        self.tag = tag
        self.alts = alts        # list of values, index = tag value


class SliceV(Value):
    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


class Seq(object):
    """Immutable sequence content."""


class Conc(Seq):
    def __init__(self, items):
        self.items = tuple(items)
        self.n = len(self.items)

    def at(self, i):
        if isinstance(i, int):
            return self.items[i]
        ctx = cur()
        items = self.items
        if not items:
            raise PathEnd()
        if len(items) > 2 and all(type(x) is int for x in items):
            d = items[1] - items[0]
            if all(items[k + 1] - items[k] == d
                   for k in range(len(items) - 1)):
                return items[0] + d * to_z3(i)      # an interval of codes
        try:
            srt = [sort_of(x) for x in items]
            if srt[0] is not None and all(s == srt[0] for s in srt):
                r = to_z3(items[-1])
                for k in range(len(items) - 2, -1, -1):
                    r = z3.If(i == k, to_z3(items[k]), r)
                return from_z3(r, items[0])
        except Unsupported:
            pass
        # (any item where i is not an index: a read is checked before)
        for k in range(len(items) - 1):
            if ctx.branch(i == k):
                return items[k]
        return items[-1]


class Sym(Seq):
    """Content with a symbolic length: fn maps an index term to a value."""

    def __init__(self, n, fn, **tags):
        self.n = n
        self.fn = fn
        self.tags = tags
        self.theories = {}

    def at(self, i):
        return self.fn(i)


class TupV(Value):
    """A tuple of symbolic length."""

    def __init__(self, content):
        self.content = content


class StrV(Value):
    """Symbolic str or bytes as a sequence of code points."""

    def __init__(self, content, isbytes=False):
        self.content = content
        self.isbytes = isbytes


class Pieces(Value):
    """Several candidate values, chosen by condition (forks when used)."""

    def __init__(self, alts):
        self.alts = alts        # list of (cond, value)


class Heap(Value):
    def __init__(self):
        ctx = cur()
        self.hid = ctx.alloc(self)


class SeqObj(Heap):
    """list or ndarray: a mutable object with immutable content."""

    def __init__(self, kind, content, **extra):
        Heap.__init__(self)
        self.kind = kind        # 'list' | 'ndarray' | 'array'
        self._content = content
        self.extra = extra      # ndarray: dkind, ndim, ident

    @property
    def content(self):
        return self._content

    @content.setter
    def content(self, c):
        cur().mutating(self, 'content')
        self._content = c

    def __repr__(self):
        return 'SeqObj(%s #%d)' % (self.kind, self.hid)


class InstV(Heap):
    def __init__(self, cls):
        Heap.__init__(self)
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return 'InstV(%s #%d)' % (getattr(self.cls, 'name', self.cls),
                                  self.hid)


# ---------------------------------------------------------------- z3 glue

def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef) and v.is_int())


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_real(v):
    return isinstance(v, (float, Fraction)) or (
        isinstance(v, z3.ArithRef) and v.is_real())


def is_num(v):
    return is_int(v) or is_bool(v) or is_real(v)


def real_val(x):
    f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


_consts = {}
_oid = z3.Function('oid', Obj, I)
_tag = z3.Function('tag', Obj, I)
_boxi = z3.Function('boxi', I, Obj)
_ival = z3.Function('ival', Obj, I)
_boxr = z3.Function('boxr', R, Obj)
_boxb = z3.Function('boxb', B, Obj)
_truthy = z3.Function('truthy', Obj, B)
_pyeq = z3.Function('pyeq', Obj, Obj, B)
TAGS = {'int': 1, 'str': 2, 'none': 3, 'float': 4, 'bytes': 5, 'bool': 6,
        'nan': 4, 'other': 9}


def const_obj(v):
    """The Obj constant standing for the concrete value v."""
    key = (type(v).__name__, repr(v))
    if key not in _consts:
        _consts[key] = (z3.Const('c!%s!%s' % (key[0], key[1][:24]) +
                                 '!%d' % len(_consts), Obj),
                        len(_consts) + 1, v)
    t, k, _ = _consts[key]
    ctx = cur()
    if ctx is not None and key not in ctx.seen_consts:
        ctx.seen_consts.add(key)
        ctx.fact(_oid(t) == k, universal=True)
        tn = {type(None): 'none', str: 'str', bytes: 'bytes',
              float: 'float'}.get(type(v), 'other')
        ctx.fact(_tag(t) == TAGS[tn], universal=True)
        if v is None or v == v:
            try:
                ctx.fact(_truthy(t) == bool(v), universal=True)
            except Exception:
                pass
    return t


def const_value(t):
    """The concrete value a constant stands for, or None."""
    for c, _, v in _consts.values():
        if c.eq(t):
            return v
    return None


def box_int(i):
    t = _boxi(i if is_z3(i) else z3.IntVal(i))
    ctx = cur()
    key = ('bi', t.get_id())
    if key not in ctx.seen_consts:
        ctx.seen_consts.add(key)
        ctx.keep.append(t)
        ctx.fact(z3.And(_tag(t) == TAGS['int'], _ival(t) == i,
                        _truthy(t) == (i != 0)), universal=True)
    return t


def to_obj(v):
    """Any scalar value as an Obj term."""
    if isinstance(v, Opaque):
        return v.term
    if is_bool(v):
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        t = _boxb(v)
        ctx = cur()
        key = ('bb', t.get_id())
        if key not in ctx.seen_consts:
            ctx.seen_consts.add(key)
            ctx.keep.append(t)
            ctx.fact(z3.And(_tag(t) == TAGS['bool'], _truthy(t) == v,
                            _ival(t) == z3.If(v, 1, 0)),
                     universal=True)
        return t
    if is_int(v):
        return box_int(v)
    if isinstance(v, z3.ArithRef):
        return _boxr(v)
    if v is None or isinstance(v, (str, bytes, float)):
        return const_obj(v)
    if isinstance(v, z3.ExprRef) and v.sort() == Obj:
        return v
    if isinstance(v, SeqObj) and v.extra.get('ident') is not None:
        return v.extra['ident']
    if isinstance(v, StrV) and getattr(v, 'ident', None) is not None:
        return v.ident
    if isinstance(v, tuple):
        f = z3.Function('mktup%d' % len(v), *([Obj] * len(v) + [Obj])) \
            if v else None
        return f(*[to_obj(x) for x in v]) if v else const_obj(None)
    raise Unsupported('no Obj view of %r' % (v,))


def sort_of(v):
    if is_bool(v):
        return B
    if is_int(v):
        return I
    if is_real(v):
        if isinstance(v, float) and v != v:
            return Obj
        return R
    if isinstance(v, Opaque):
        return Obj
    return None


def to_z3(v):
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (float, Fraction)):
        if v != v:
            return const_obj(v)
        return real_val(v)
    if isinstance(v, Opaque):
        return v.term
    raise Unsupported('to_z3 %r' % (v,))


def from_z3(t, like=None):
    if t.sort() == Obj:
        return Opaque(t, like.ty if isinstance(like, Opaque) else 'any')
    return t


def zand(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return z3.And(*a) if len(a) > 1 else a[0]


def zor(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return z3.Or(*a) if len(a) > 1 else a[0]


def znot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def zimp(a, b):
    return zor(znot(a), b)


def zbool(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def zeq(a, b):
    """Equality of two int/bool/real/Obj scalars as a condition."""
    if not is_z3(a) and not is_z3(b):
        return a == b
    return to_z3(a) == to_z3(b)


def subst(v, pairs):
    """Substitute terms in a value."""
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Opaque):
        return Opaque(z3.substitute(v.term, *pairs), v.ty)
    if isinstance(v, tuple):
        r = [subst(x, pairs) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, Conc):
        return Conc([subst(x, pairs) for x in v.items])
    if isinstance(v, Sym):
        n = subst(v.n, pairs) if is_z3(v.n) else v.n
        free = _occurs(v, pairs)
        if not free and n is v.n:
            return v
        # capture-avoiding enough: fn is applied to the caller's own index
        # through a placeholder that no pair mentions.

        def fn(j, v=v, pairs=pairs):
            ph = z3.FreshConst(I, 'ph')
            with cur().translated(pairs, [(ph, to_z3(j))]):
                r = v.fn(ph)
            r = subst(r, pairs)
            return subst(r, [(ph, to_z3(j))])
        return Sym(n, fn, **v.tags)
    if isinstance(v, Pieces):
        return Pieces([(subst(c, pairs), subst(x, pairs))
                       for c, x in v.alts])
    if isinstance(v, TupV):
        return TupV(subst(v.content, pairs))
    if isinstance(v, StrV):
        r = StrV(subst(v.content, pairs), v.isbytes)
        if getattr(v, 'ident', None) is not None:
            r.ident = z3.substitute(v.ident, *pairs)
        return r
    if isinstance(v, SliceV):
        return SliceV(subst(v.start, pairs), subst(v.stop, pairs),
                      subst(v.step, pairs))
    if isinstance(v, SeqObj):
        ex = dict(v.extra)
        same = True
        for k, x in v.extra.items():
            if is_z3(x):
                ex[k] = z3.substitute(x, *pairs)
                same = same and ex[k].eq(x)
        c = subst(v._content, pairs)
        if c is v._content and same:
            return v
        r = SeqObj(v.kind, c, **ex)
        return r
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    return v


def _occurs(v, pairs):
    """Conservative: could the content mention any substituted term?"""
    return True


# ---------------------------------------------------------------- context

_cur = [None]


def cur():
    return _cur[0]


class Obligation(object):
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'hints',
                 'prefix', 'havoc', 'model')

    def __init__(self, name, status, backend, t, detail='', hints=(),
                 prefix=(), havoc=False, model=None):
        self.name, self.status, self.backend = name, status, backend
        self.time, self.detail, self.hints = t, detail, hints
        self.prefix, self.havoc, self.model = prefix, havoc, model


class Explorer(object):
    """Explore every path of run(ctx); collect obligations."""

    def __init__(self, name, run, max_paths=6000, deadline=None):
        self.name = name
        self.run = run
        self.max_paths = max_paths
        self.obligations = []
        self.loops = {}
        self.stack = []
        self.npaths = 0
        self.outcomes = {}
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = deadline
        self.covers = {}
        self.loops_cut = set()
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.restarts = 0
        self._pids = {}
        self.lemmas = {}

    def pathid(self, hist):
        if hist not in self._pids:
            self._pids[hist] = len(self._pids)
        return self._pids[hist]

    def explore(self):
        self.stack = [()]
        while self.stack:
            prefix = self.stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported('path limit %d' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the contract run')
            ctx = Ctx(self, prefix)
            old = _cur[0]
            _cur[0] = ctx
            try:
                self.run(ctx)
            except PathEnd:
                pass
            except RestartLoop as r:
                self.restarts += 1
                if self.restarts > 4000:
                    raise Unsupported('too many loop restarts')
                key = tuple(r.prefix) + (('loop', 'step'),)
                k = len(key)
                self.stack = [p for p in self.stack if p[:k] != key]
                self.obligations = [o for o in self.obligations
                                    if o.prefix[:k] != key]
                self.loops = {q: v for q, v in self.loops.items()
                              if q[0][:k] != key}
                self.stack.append(key)
            finally:
                _cur[0] = old
        return self


# Resource limits (deterministic, about 1.8 million per second), with a wall
# clock limit far above them as a safety net.
RL_FEASIBLE = 500000
RL_ENTAILS = 2500000
RL_SAME = 800000
WALL_MS = 60000


def mk_solver(rlimit):
    s = z3.Solver()
    s.set('timeout', WALL_MS)
    s.set('rlimit', rlimit)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    return s


class Ctx(object):
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.cursor = 0
        self.decisions = []
        self.solver = mk_solver(RL_ENTAILS)
        self.nheap = 0
        self.heap = {}
        self.seen_consts = set()
        self.universal = set()
        self.keep = []
        self.loopstack = []     # active 'step' frames
        self.generic = []       # generic index terms
        self.fresh_n = itertools.count()
        self.counts = {}
        self.nsub = 0
        self.pure = 0
        self.sub = None         # nested decider
        self.havocked = False
        self.facts = []
        self.memo = {}
        self.memo_frames = []
        self.xl = []
        self.trace = []
        self.ghost = {}

    # -- symbols
    def _name(self, name):
        # one name per (decision history, ordinal): replays of a prefix
        # agree on it, different paths never share it
        hist = tuple(self.decisions)
        if self.sub is not None:
            hist += ('sub', self.sub.uid) + tuple(self.sub.decisions)
        pid = self.ex.pathid(hist)
        n = self.counts.get(pid, 0)
        self.counts[pid] = n + 1
        return '%s!%d.%d' % (name, pid, n)

    def fresh(self, name, sort):
        k = self._name(name)
        if self.generic:
            f = z3.Function(k, *([I] * len(self.generic) + [sort]))
            return f(*self.generic)
        return z3.Const(k, sort)

    def fresh_fn(self, name, args, sort):
        """A fresh function of args (and of the enclosing generics)."""
        k = self._name(name)
        gen = list(self.generic)
        f = z3.Function(k, *([I] * len(gen) + list(args) + [sort]))
        return lambda *a: f(*(gen + [x if is_z3(x) else to_z3(x)
                                     for x in a]))

    def alloc(self, obj):
        self.nheap += 1
        self.heap[self.nheap] = obj
        return self.nheap

    def mutating(self, obj, attr):
        if self.pure and obj.hid <= self.pure_mark:
            raise Effect('mutation inside a generic element')
        for fr in self.loopstack:
            if obj.hid <= fr.mark and (obj.hid, attr) not in fr.info.heapset:
                fr.info.heapset[(obj.hid, attr)] = True
                raise RestartLoop(fr.info.prefix, 'heap %s' % attr)

    # -- evaluation of an element under a substitution
    @contextlib.contextmanager
    def translated(self, *levels):
        """Conditions and facts met inside speak of the terms substituted
        (the first level is applied first)."""
        seen = set(self.seen_consts)
        memo = {k: list(v) if isinstance(v, list) else v
                for k, v in self.memo.items()}
        n = len(self.xl)
        self.xl.extend(reversed(levels))
        try:
            yield
        finally:
            del self.xl[n:]
            self.seen_consts = seen
            self.memo = memo

    def tr(self, c, depth=0):
        for pairs in reversed(self.xl[depth:]):
            if is_z3(c):
                c = z3.substitute(c, *pairs)
        return c

    # -- assumptions
    def assume(self, c):
        """A path condition."""
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(self.tr(c))
        if self.sub is not None:
            self.sub.conds.append(self.tr(c, self.sub.depth))
        else:
            for fr in self.loopstack:
                fr.conds.append(self.tr(c))

    def fact(self, c, universal=False):
        """A definitional fact about symbols (true on every path)."""
        if c is True:
            return
        full = self.tr(zbool(c))
        self.solver.add(full)
        if self.sub is not None:
            c = self.tr(zbool(c), self.sub.depth)
            self.sub.defs.append(c)
        else:
            c = full
            for fr in self.loopstack:
                fr.defs.append(c)
        if universal:
            self.keep.append(c)
            self.universal.add(c.get_id())

    def check(self, *c, rl=RL_FEASIBLE):
        t = time.time()
        self.solver.set('rlimit', rl)
        r = self.solver.check(*[self.tr(x) for x in c])
        self.ex.solver_time += time.time() - t
        self.ex.queries += 1
        return r

    def feasible(self, c):
        return self.check(zbool(c)) != z3.unsat

    def entails(self, c, rl=RL_ENTAILS):
        """Quiet proof attempt."""
        if isinstance(c, bool):
            return c or self.check() == z3.unsat
        return self.check(z3.Not(c), rl=rl) == z3.unsat

    # -- decisions
    def decide(self, options):
        """n-way choice point."""
        if self.sub is not None:
            return self.sub.decide(options)
        if self.cursor < len(self.prefix):
            d = self.prefix[self.cursor]
            if d not in options:
                raise Unsupported('replay of a path differs')
        else:
            d = options[0]
            base = tuple(self.decisions)
            for alt in reversed(options[1:]):
                self.ex.stack.append(base + (alt,))
        self.cursor += 1
        self.decisions.append(d)
        return d

    def _forced(self, d):
        if self.sub is not None:
            return
        self.cursor += 1
        self.decisions.append(d)

    def branch(self, cond):
        """Fork on a condition; returns the Python bool of this path."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(self.tr(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        sub = self.sub
        if sub is not None:
            if sub.cursor < len(sub.prefix):
                d = sub.prefix[sub.cursor]
                sub.cursor += 1
                sub.decisions.append(d)
                self.assume(cond if d else z3.Not(cond))
                return d
        elif self.cursor < len(self.prefix):
            d = self.prefix[self.cursor]
            if not isinstance(d, bool):
                raise Unsupported('replay of a path differs')
            self.cursor += 1
            self.decisions.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathEnd()
        if t and f:
            d = self.decide([True, False])
        else:
            d = t
            if sub is not None:
                sub.cursor += 1
                sub.decisions.append(d)
            else:
                self._forced(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    # -- nested, pure exploration
    def pieces(self, fn, gen=None):
        """All outcomes of the pure thunk fn.

        Returns a list of (conds, defs, kind, value), kind 'val' or 'raise'.
        """
        res = []
        stack = [()]
        outer = self.sub
        self.nsub += 1
        uid = (self.nsub if outer is None else
               (outer.uid, tuple(outer.decisions), self.nsub))
        if gen is not None:
            self.generic.append(gen)
        mark = getattr(self, 'pure_mark', None)
        self.pure += 1
        self.pure_mark = self.nheap if self.pure == 1 else mark
        n = 0
        try:
            while stack:
                n += 1
                if n > 400:
                    raise Unsupported('too many pieces')
                sub = Sub(stack.pop(), stack, uid)
                sub.depth = len(self.xl)
                self.sub = sub
                self.solver.push()
                seen = set(self.seen_consts)
                memo = {k: list(v) if isinstance(v, list) else v
                        for k, v in self.memo.items()}
                try:
                    v = fn()
                    res.append((sub.conds, sub.defs, 'val', v))
                except PyRaise as e:
                    res.append((sub.conds, sub.defs, 'raise', e.exc))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                    self.seen_consts = seen
                    self.memo = memo
        finally:
            self.sub = outer
            self.pure -= 1
            self.pure_mark = mark
            if gen is not None:
                self.generic.pop()
        return res

    # -- obligations
    def prove(self, name, goal, detail=''):
        if self.sub is not None:
            raise Unsupported('obligation inside a generic element')
        if goal is True:
            self.ex.obligations.append(Obligation(
                name, 'proved', 'trivial', 0.0, prefix=tuple(self.decisions)))
            return True
        t0 = time.time()
        g = zbool(goal)
        status, backend, model, why = solve(self.solver, g, self.ex)
        dt = time.time() - t0
        hints = model_hints(model) if model is not None else []
        self.ex.obligations.append(Obligation(
            name, status, backend, dt, detail + ((' ' + why) if why else ''),
            hints, tuple(self.decisions), self.havocked,
            str(model)[:4000] if model is not None else None))
        return status == 'proved'

    def induct(self, name, P, n, hints=None, at=()):
        """Lemma: P(i) for every 0 <= i <= n, by induction on i; with the
        instances in at.

        Proved once per decision history, then a fact.
        """
        key = (name, tuple(self.decisions))
        n = n if is_z3(n) else z3.IntVal(n)
        if key not in self.ex.lemmas:
            ok = self.prove(name + ' [base]', P(z3.IntVal(0)))
            i = z3.FreshConst(I, 'i')
            self.solver.push()
            self.solver.add(i >= 0, i < n, P(i))
            if hints:
                for h in hints(i):
                    self.solver.add(h)
            ok = self.prove(name + ' [step]', P(i + 1)) and ok
            self.solver.pop()
            self.ex.lemmas[key] = ok
        if self.ex.lemmas[key]:
            i = z3.FreshConst(I, 'i')
            self.fact(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i <= n), P(i))))
            for x in at:
                self.fact(z3.Implies(z3.And(x >= 0, x <= n), P(x)))

    def quiet_induct(self, name, P, n, hints=lambda i: []):
        """Like induct, but a guess: no obligation if it fails."""
        key = ('quiet', name, tuple(self.decisions))
        if key not in self.ex.lemmas:
            i = z3.FreshConst(I, 'i')
            ok = self.entails(z3.Implies(z3.And(hints(z3.IntVal(0))),
                                         P(z3.IntVal(0))))
            if ok:
                self.solver.push()
                self.solver.add(i >= 0, i < n, P(i), *hints(i))
                ok = self.entails(P(i + 1))
                self.solver.pop()
            self.ex.lemmas[key] = ok
            if ok:
                self.ex.obligations.append(Obligation(
                    name + ' [induction]', 'proved', 'z3', 0.0,
                    prefix=tuple(self.decisions)))
        if self.ex.lemmas[key]:
            i = z3.FreshConst(I, 'i')
            self.fact(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i <= n), P(i))))
            return True
        return False

    def lemma(self, name, goal):
        """A proved consequence, added as a fact."""
        key = (name, tuple(self.decisions))
        if key not in self.ex.lemmas:
            self.ex.lemmas[key] = self.prove(name, goal)
        if self.ex.lemmas[key]:
            self.fact(goal)

    def fail(self, name, detail=''):
        """An obligation that this path must not be feasible."""
        return self.prove(name, z3.BoolVal(False), detail)

    def cover(self, name, strong=False):
        """Reachability evidence for this point.

        'refuted' when the assumptions are contradictory, 'open' when the
        solver cannot refute them, 'sat' when it has a full model.
        """
        rank = {None: -1, 'refuted': 0, 'open': 1, 'sat': 2}
        have = self.ex.covers.get(name)
        if have == 'sat' or (have == 'open' and not strong):
            return
        r = self.check()
        res = {'unsat': 'refuted', 'sat': 'sat'}.get(str(r), 'open')
        if strong and res == 'open':
            s = z3.Solver()
            s.set('timeout', WALL_MS)
            s.set('rlimit', 3000000)
            s.add(self.solver.assertions())
            r = s.check()
            self.ex.queries += 1
            res = {'unsat': 'refuted', 'sat': 'sat'}.get(str(r), 'open')
        if rank[res] > rank[have]:
            self.ex.covers[name] = res


class Sub(object):
    def __init__(self, prefix, stack, uid=0):
        self.prefix = prefix
        self.stack = stack
        self.uid = uid
        self.cursor = 0
        self.decisions = []
        self.conds = []
        self.defs = []
        self.depth = 0

    def decide(self, options):
        if self.cursor < len(self.prefix):
            d = self.prefix[self.cursor]
        else:
            d = options[0]
            base = tuple(self.decisions)
            for alt in reversed(options[1:]):
                self.stack.append(base + (alt,))
        self.cursor += 1
        self.decisions.append(d)
        return d


PROVE_RL = [9000000]


def solve(solver, goal, ex):
    """Is goal implied by the solver's assertions?"""
    neg = z3.Not(goal)
    t = time.time()
    solver.set('rlimit', PROVE_RL[0])
    r = solver.check(neg)
    ex.queries += 1
    model = None
    why = ''
    if r == z3.unsat:
        ex.solver_time += time.time() - t
        return 'proved', 'z3', None, ''
    try:
        model = solver.model()
    except z3.Z3Exception:
        model = None
    why = str(r) if r == z3.sat else 'unknown (%s)' % solver.reason_unknown()
    if r == z3.unknown:
        # second opinion with model-based instantiation, then cvc5
        s2 = z3.Solver()
        s2.set('timeout', WALL_MS)
        s2.set('rlimit', PROVE_RL[0])
        s2.add(solver.assertions())
        s2.add(neg)
        r2 = s2.check()
        ex.queries += 1
        if r2 == z3.unsat:
            ex.solver_time += time.time() - t
            return 'proved', 'z3-mbqi', None, ''
        if r2 == z3.sat:
            ex.solver_time += time.time() - t
            return 'refuted', 'z3-mbqi', s2.model(), 'sat'
        r3 = cvc5_check(s2)
        ex.queries += 1
        if r3 == 'unsat':
            ex.solver_time += time.time() - t
            return 'proved', 'cvc5', None, ''
        if r3 == 'sat':
            ex.solver_time += time.time() - t
            return 'refuted', 'cvc5', model, 'sat'
        ex.solver_time += time.time() - t
        return 'unknown', 'z3+cvc5', model, why
    ex.solver_time += time.time() - t
    return 'refuted', 'z3', model, why


def cvc5_check(s, timeout=30):
    import shutil
    import subprocess
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' %
                            (timeout * 1000), '-q', '-'], input=txt,
                           capture_output=True, text=True,
                           timeout=timeout + 5)
    except Exception:
        return 'unknown'
    out = p.stdout.strip().splitlines()
    return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'


def model_hints(m):
    """Small integers of a counter-model, to steer the concrete search."""
    hints = []
    try:
        for d in m.decls():
            v = m[d]
            if isinstance(v, z3.IntNumRef):
                hints.append((d.name(), v.as_long()))
            elif isinstance(v, z3.RatNumRef):
                hints.append((d.name(), float(v.as_fraction())))
            elif isinstance(v, z3.BoolRef):
                hints.append((d.name(), z3.is_true(v)))
    except Exception:
        pass
    return hints[:60]
