"""Loops of symbolic length.

A loop is cut at its head.  Every variable or heap cell the body changes
becomes a function of the iteration number, the body is run once at an
arbitrary iteration ('step'), and what follows the loop is run from the state
after the last iteration ('exit') or from an iteration that leaves early
('leave').  What is known about the state functions are inductive invariants:
candidates (from the theories of the contract at hand and a few generic
shapes) are kept as long as base and step are discharged by the solver.
Lists, dicts and yields that the body only extends are 'gathered': their
content after the loop is the ordered image of the iterations that extend
them.
"""
import ast

import z3

from .core import (B, I, R, Obj, Unsupported, PathEnd, RestartLoop, PyRaise,
                   Opaque, Junk, UNBOUND, HV, SliceV, Conc, Sym, SeqObj,
                   InstV, is_z3, is_int, is_bool, is_num, to_z3, zand, zor,
                   znot, zbool, subst, cur, Obligation, StrV, to_obj)
from .interp import (ReturnEx, BreakEx, ContinueEx, FuncV, DictV, YieldAll,
                     PieceSeq, filter_seq, kept, assigned_names, GenV)


class Frame(object):
    def __init__(self, info, mark):
        self.info, self.mark = info, mark
        self.conds, self.defs = [], []


class Info(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.heapset = {}
        self.kinds = {}
        self.modes = {}
        self.lin = {}
        self.dropped = set()
        self.junk = set()
        self.base_checked = set()
        self.shapes = {}        # list -> Shape, or None to be found out
        self.begin()

    def begin(self):
        self.pieces = {}        # slot -> [(conds, defs, items)]
        self.reads = {}         # slot -> [(conds, defs, key)]
        self.yields = []
        self.exits = []


class GatherHead(object):
    """Unknown content at the loop head that the body may only extend."""

    def __init__(self, base, info=None, key=None):
        self.base = base
        self.info, self.key = info, key
        self.n = None

    def at(self, i):
        raise Unsupported('read of a list under construction')


class GatherExt(object):
    def __init__(self, head, items):
        self.head = head
        self.items = tuple(items)
        self.n = None

    def at(self, i):
        raise Unsupported('read of a list under construction')


def extend_gather(content, items):
    if isinstance(content, GatherHead):
        return GatherExt(content, items)
    if isinstance(content, GatherExt):
        return GatherExt(content.head, content.items + tuple(items))
    return None


def gather_read(interp, c, k):
    """Look up key k of a dict that the loop body extends: ('item', v) for an
    item put there in this iteration, else ('base', dict before the loop).
    The latter is right if no earlier iteration put that key; this is
    recorded, to be proved when all that is put is known."""
    from . import models
    head = c.head if isinstance(c, GatherExt) else c
    ctx = cur()
    if head.info is None or not ctx.loopstack:
        raise Unsupported('read of a dict under construction')
    for kk, vv in reversed(c.items if isinstance(c, GatherExt) else ()):
        if ctx.branch(models.eq(interp, kk, k)):
            if vv is REMOVED:
                return 'base', DictV({})
            return 'item', vv
    fr = [f for f in ctx.loopstack if f.info is head.info]
    if not fr:
        raise Unsupported('read of a dict under construction')
    head.info.reads.setdefault(head.key, []).append(
        (list(fr[0].conds), list(fr[0].defs), k))
    d = DictV({})
    d._store, d._sym = head.base
    return 'base', d


def check_reads(interp, info, key, itc, m):
    from . import models
    ctx = cur()
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    done = []
    for rc, rd, rk in info.reads.get(key, []):
        for pc, pd, items in info.pieces.get(key, []):
            for it_ in items:
                wk = interp.resolve(it_[0])
                e = models.eq(interp, subst(wk, [(itc, a)]),
                              subst(rk, [(itc, b)]))
                hyp = [subst(zbool(x), [(itc, a)]) for x in pc + pd] + [
                    subst(zbool(x), [(itc, b)]) for x in rc + rd]
                f = z3.Implies(z3.And(a >= 0, a < b, b < to_z3(m), *hyp),
                               z3.Not(zbool(e)))
                if any(f.eq(g) for g in done):
                    continue
                done.append(f)
                if not ctx.entails(f):
                    raise Unsupported('read of a dict under construction')


class Removed(object):
    """Mark of a key that an iteration takes out of a dict."""


REMOVED = Removed()


def is_gather(c):
    return isinstance(c, (GatherHead, GatherExt))


class Shape(object):
    """The form of the items that a loop appends to a list, one each
    iteration: a tuple (or named tuple) of plain values, or one value."""

    def __init__(self, make, kinds):
        self.make, self.kinds = make, kinds

    @staticmethod
    def parts(v):
        """(make, values) of an item."""
        from .interp import NTV
        if isinstance(v, NTV):
            return (lambda vs, c=v.cls: NTV(c, vs)), list(v.values)
        if isinstance(v, tuple):
            return tuple, list(v)
        return (lambda vs: vs[0]), [v]

    @staticmethod
    def kind(v):
        k = kind_of(v)
        if isinstance(v, bytes):
            return ('obj', 'bytes')
        if isinstance(v, (str, StrV)) and not getattr(v, 'isbytes', False):
            return ('obj', 'str')
        if k in ('int', 'bool') or isinstance(k, tuple) and k[0] == 'obj':
            return k
        raise Unsupported('read of a list under construction')

    @staticmethod
    def of(interp, v):
        make, vs = Shape.parts(interp.resolve(v))
        return Shape(make, [Shape.kind(interp.resolve(x)) for x in vs])

    def fns(self):
        return [cur().fresh_fn('comp', [I], SORT.get(k, Obj))
                for k in self.kinds]

    def fit(self, interp, v):
        vs = [interp.resolve(x) for x in Shape.parts(interp.resolve(v))[1]]
        if [Shape.kind(x) for x in vs] != self.kinds:
            raise Unsupported('items of several forms in a list under '
                              'construction')
        return vs

    @staticmethod
    def term(k, v):
        return to_obj(v) if isinstance(k, tuple) else to_z3(v)

    def value(self, c, t):
        k = self.kinds[c]
        return Opaque(t, k[1]) if isinstance(k, tuple) else t


class ShapedHead(GatherHead):
    """The list at the loop head: the items before the loop, then one of
    known form from each iteration so far, with components given by
    uninterpreted functions of the iteration."""

    def __init__(self, interp, base, info, key, it, shape, fns):
        GatherHead.__init__(self, base, info, key)
        self.interp, self.it, self.shape, self.fns = interp, it, shape, fns

    def as_seq(self):
        nb = self.base.n
        return Sym(z3.simplify(to_z3(nb) + to_z3(self.it)), self.item)

    def item(self, i):
        ctx = cur()
        nb, ii = self.base.n, to_z3(i)
        j = z3.simplify(ii - to_z3(nb))
        sh = self.shape
        new = [sh.value(c, f(j)) for c, f in enumerate(self.fns)]
        if isinstance(nb, int) and nb == 0 or ctx.entails(ii >= to_z3(nb)):
            return sh.make(new)
        if nb != 1:
            raise Unsupported('read of a list under construction')
        make, old = Shape.parts(self.interp.resolve(self.base.at(0)))
        if len(old) != len(new):
            raise Unsupported('read of a list under construction')
        out = []
        for c, (a, b) in enumerate(zip(old, new)):
            a = self.interp.resolve(a)
            try:
                same = Shape.kind(a) == sh.kinds[c]
            except Unsupported:
                same = False
            if same:
                out.append(sh.value(c, z3.If(ii < nb, Shape.term(
                    sh.kinds[c], a), Shape.term(sh.kinds[c], b))))
            else:
                from .core import Pieces
                out.append(Pieces([(ii < nb, a), (ii >= nb, b)]))
        return sh.make(out)


def reading(c):
    """The content of a list under construction, to be read."""
    head = c.head if isinstance(c, GatherExt) else c
    if isinstance(head, ShapedHead):
        q = head.as_seq()
        if isinstance(c, GatherExt):
            q = concat(head.interp, q, Conc(c.items))
        return q
    info = head.info
    if info is None or head.key is None or head.key in info.shapes or not \
            cur().loopstack:
        raise Unsupported('read of a list under construction')
    info.shapes[head.key] = None        # find it out in iteration 0
    raise RestartLoop(info.prefix, 'shape %s' % (head.key,))


def shaped(interp, info, key, q, itc, m, shape, fns):
    """The items appended by all iterations: their components satisfy the
    equations found in a step; sums of the contract are recognised."""
    ctx = cur()
    if isinstance(q.n, int):
        return q
    names = {f(z3.IntVal(0)).decl().name() for f in fns}

    def recursive(t):
        return any(d in names for d in decls(t))
    k = z3.FreshConst(I, 'k')
    vs = shape.fit(interp, q.at(k))
    terms = [Shape.term(kd, v) for kd, v in zip(shape.kinds, vs)]
    for f, t in zip(fns, terms):
        ctx.fact(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < to_z3(m)), f(k) == t), patterns=[f(k)]))
    closed = {}
    for c, t in enumerate(terms):
        if not recursive(t):
            continue
        closed[c] = fns[c]
        if shape.kinds[c] != 'int':
            continue
        for (n, w, S) in getattr(ctx, 'sums', ()):
            for o in (0, 1):
                def P(j, o=o):
                    j = z3.simplify(j)
                    return z3.Implies(j < to_z3(m), fns[c](j) == S(
                        z3.simplify(j + o)))
                name = 'component %d of %s is a sum (%d)' % (c, info.where,
                                                             o)

                def unfold(j, o=o):
                    # instances of the definition of the sum
                    return [z3.Implies(z3.And(x >= 0, x < to_z3(n)), S(
                        z3.simplify(x + 1)) == S(x) + w(x)) for x in [
                            z3.simplify(j + o + d) for d in (-1, 0, 1)]]
                if ctx.quiet_induct(name, P, to_z3(m), unfold):
                    closed[c] = lambda j, S=S, o=o: S(z3.simplify(j + o))
                    break
    if not closed:
        return q

    def at(j):
        v = interp.resolve(q.at(j))
        make, vs = Shape.parts(v)
        for c, f in closed.items():
            vs[c] = f(to_z3(j))
        return make(vs)
    return Sym(q.n, at)


def decls(t):
    seen, st, out = set(), [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            out.add(x.decl().name())
        st.extend(x.children())
    return out


# ------------------------------------------------------------ kinds

def kind_of(v):
    if v is UNBOUND:
        return 'unbound'
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return 'bool'
    if is_int(v):
        return 'int'
    if isinstance(v, float) and v != v:
        return ('const', 'nan')
    if isinstance(v, float) or isinstance(v, z3.ArithRef):
        return 'real'
    if isinstance(v, Opaque):
        return ('obj', v.ty)
    if v is None or isinstance(v, (str, bytes)):
        return ('const', v)
    if isinstance(v, StrV):
        return 'bytesv' if v.isbytes else 'strv'
    if isinstance(v, SliceV):
        if is_int(v.start) and is_int(v.stop) and v.step is None:
            return 'slice'
        return 'junk'
    if isinstance(v, (SeqObj, InstV, DictV, GenV)):
        return ('ref', v.hid)
    return 'junk'


SORT = {'int': I, 'bool': B, 'real': R}
TEXT = {'strv': str, 'bytesv': bytes}


def add_kind(ks, k):
    """Add a kind; a changing text replaces its constant values."""
    if k in TEXT:
        ks[:] = [x for x in ks if not (isinstance(x, tuple) and x[0] ==
                                       'const' and isinstance(
                                           x[1], TEXT[k]) and
                                       x[1] != 'nan')]
    ks.append(k)


def fit_kind(v, ks):
    """The kind of v among ks: a constant text fits a text."""
    k = kind_of(v)
    if k not in ks and isinstance(k, tuple) and k[0] == 'const':
        for t, ty in TEXT.items():
            if t in ks and isinstance(v, ty):
                return t
    return k


def as_text(v):
    from .models import as_strv
    return as_strv(v)


class Slot(object):
    """A havocked cell: per-iteration functions for each of its kinds."""

    def __init__(self, key, kinds, v0):
        ctx = cur()
        self.key, self.kinds, self.v0 = key, kinds, v0
        nm = str(key[1]) + ('.%s' % key[2] if len(key) > 2 else '')
        self.fns = []
        for k in kinds:
            if k in SORT:
                self.fns.append(ctx.fresh_fn('h_' + nm, [I], SORT[k]))
            elif isinstance(k, tuple) and k[0] == 'obj':
                self.fns.append(ctx.fresh_fn('h_' + nm, [I], Obj))
            elif k in TEXT:
                self.fns.append((ctx.fresh_fn('hn_' + nm, [I], I),
                                 ctx.fresh_fn('hc_' + nm, [I, I], I)))
                x = z3.FreshConst(I, 'x')
                ctx.fact(z3.ForAll([x], self.fns[-1][0](x) >= 0,
                                   patterns=[self.fns[-1][0](x)]))
            elif k == 'slice':
                self.fns.append((ctx.fresh_fn('hs_' + nm, [I], I),
                                 ctx.fresh_fn('he_' + nm, [I], I)))
            else:
                self.fns.append(None)
        self.tag = (ctx.fresh_fn('tag_' + nm, [I], I)
                    if len(kinds) > 1 else None)

    def alt(self, j, t):
        k, f = self.kinds[j], self.fns[j]
        if k in SORT:
            return f(t)
        if k in TEXT:
            return StrV(Sym(f[0](t), lambda j: f[1](t, to_z3(j))),
                        k == 'bytesv')
        if k == 'slice':
            return SliceV(f[0](t), f[1](t))
        if k == 'unbound':
            return UNBOUND
        if k == 'junk':
            return Junk('loop variable %s' % (self.key,))
        if k[0] == 'obj':
            return Opaque(f(t), k[1])
        if k[0] == 'const':
            return float('nan') if k[1] == 'nan' else k[1]
        if k[0] == 'ref':
            return cur().heap[k[1]]
        raise Unsupported('kind')

    def at(self, t):
        if self.tag is None:
            return self.alt(0, t)
        return HV(self.tag(t), [self.alt(j, t)
                                for j in range(len(self.kinds))])

    def init_facts(self):
        ctx = cur()
        k0 = fit_kind(self.v0, self.kinds)
        j = self.kinds.index(k0) if k0 in self.kinds else None
        z = z3.IntVal(0)
        if j is None:
            return
        if self.tag is not None:
            ctx.fact(self.tag(z) == j)
        if k0 in SORT or (isinstance(k0, tuple) and k0[0] == 'obj'):
            ctx.fact(self.fns[j](z) == to_z3(self.v0))
        elif k0 in TEXT:
            q = as_text(self.v0).content
            x = z3.FreshConst(I, 'x')
            ctx.fact(self.fns[j][0](z) == to_z3(q.n))
            if isinstance(q, Conc):
                for i in range(q.n):
                    ctx.fact(self.fns[j][1](z, z3.IntVal(i)) ==
                             to_z3(q.at(i)))
            else:
                ctx.fact(z3.ForAll([x], z3.Implies(z3.And(
                    x >= 0, x < to_z3(q.n)), self.fns[j][1](z, x) ==
                    to_z3(q.at(x))), patterns=[self.fns[j][1](z, x)]))
        elif k0 == 'slice':
            ctx.fact(self.fns[j][0](z) == to_z3(self.v0.start))
            ctx.fact(self.fns[j][1](z) == to_z3(self.v0.stop))
        if self.tag is not None:
            x = z3.FreshConst(I, 'x')
            ctx.fact(z3.ForAll([x], z3.And(self.tag(x) >= 0, self.tag(x) <
                                           len(self.kinds)),
                               patterns=[self.tag(x)]))


class State(object):
    """Values of the slots at one iteration, for candidate formulas."""

    def __init__(self, it, slots, vals, arrs):
        self.it, self.slots, self.vals, self.arrs = it, slots, vals, arrs

    def of_kind(self, key, kind):
        """(condition that the slot has this kind, its value) or None."""
        s = self.slots[key]
        v = self.vals[key]
        if isinstance(v, HV):
            if v.tag is not None and len(v.alts) == len(s.kinds) and \
                    kind in s.kinds:
                j = s.kinds.index(kind)
                return v.tag == j, v.alts[j]
            return None
        if kind_of(v) == kind:
            return True, v
        if kind in TEXT and isinstance(v, TEXT[kind]):
            return True, as_text(v)
        return False, None


class Cand(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


# ------------------------------------------------------------ candidates

def test_cands(interp, node, fr):
    """a < b in the test of a while loop suggests the invariant a <= b."""
    t = getattr(node, 'test', None)
    if t is None:
        return
    parts = t.values if isinstance(t, ast.BoolOp) and isinstance(
        t.op, ast.And) else [t]
    for p in parts:
        if not (isinstance(p, ast.Compare) and len(p.ops) == 1 and
                isinstance(p.ops[0], (ast.Lt, ast.Gt, ast.NotEq))):
            continue
        ok = all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.Add,
                                ast.Sub, ast.Call, ast.Load, ast.Attribute))
                 for e in (p.left, p.comparators[0]) for x in ast.walk(e))
        if not ok:
            continue
        ops = ([ast.LtE()] if isinstance(p.ops[0], ast.Lt) else [ast.GtE()]
               if isinstance(p.ops[0], ast.Gt) else [ast.LtE(), ast.GtE()])
        used = {x.id for x in ast.walk(p) if isinstance(x, ast.Name)}
        for op in ops:
            def f(st, p=p, op=op, used=used):
                save = dict(fr.env)
                try:
                    for key, v in st.vals.items():
                        if key[0] == 'L' and key[1] in used:
                            if isinstance(v, HV):
                                return False
                            fr.env[key[1]] = v
                    a = interp.eval(p.left, fr)
                    b = interp.eval(p.comparators[0], fr)
                    return interp.compare(op, a, b)
                except (PyRaise, Unsupported):
                    return False
                finally:
                    fr.env.clear()
                    fr.env.update(save)
            yield 'test %s %s' % (ast.unparse(p), type(op).__name__), f


def make_cands(interp, slots, arrslots, info, n, node=None, fr=None):
    out = []

    def add(name, fn):
        if name not in info.dropped:
            out.append(Cand(name, fn))

    if n is None and node is not None:
        for name, f in test_cands(interp, node, fr):
            add(name, f)
    for key, s in slots.items():
        for k in s.kinds:
            if k == 'int':
                k0 = kind_of(s.v0)
                if k0 == 'int':
                    def f(st, key=key, v0=s.v0):
                        c, v = st.of_kind(key, 'int')
                        return zand(c, v == v0) if c is not False else False
                    add('%s unchanged' % (key,), f)
                    for ci, c in enumerate(info.lin.get(key, ())):
                        def f(st, key=key, v0=s.v0, c=c):
                            q, v = st.of_kind(key, 'int')
                            return (zand(q, v == v0 + c * st.it)
                                    if q is not False else False)
                        add('%s == v0 + %s*it' % (key, c), f)

                    def f(st, key=key, v0=s.v0):
                        c, v = st.of_kind(key, 'int')
                        return zand(c, v >= v0) if c is not False else False
                    add('%s >= v0' % (key,), f)
                    if n is not None:
                        def f(st, key=key, v0=s.v0):
                            c, v = st.of_kind(key, 'int')
                            return (zand(c, v <= v0 + st.it)
                                    if c is not False else False)
                        add('%s <= v0 + it' % (key,), f)
            if k == 'bool' and kind_of(s.v0) == 'bool':
                def f(st, key=key, v0=s.v0):
                    c, v = st.of_kind(key, 'bool')
                    return (zand(c, zbool(v) == zbool(v0))
                            if c is not False else False)
                add('%s unchanged' % (key,), f)
            if isinstance(k, tuple) and k[0] == 'const' and len(s.kinds) > 1:
                pass
    for th in interp.theories:
        for name, kind, fn in th.terms():
            # fn(it) is the specification term at iteration it
            for key, s in slots.items():
                if kind not in s.kinds:
                    continue
                if kind == 'bool':
                    def f(st, key=key, fn=fn):
                        c, v = st.of_kind(key, 'bool')
                        return (zand(c, zbool(v) == zbool(fn(st.it)))
                                if c is not False else False)
                    add('%s == %s' % (key, name), f)

                    def f(st, key=key, fn=fn):
                        c, v = st.of_kind(key, 'bool')
                        return (zand(c, zbool(v) == znot(zbool(fn(st.it))))
                                if c is not False else False)
                    add('%s == not %s' % (key, name), f)
                else:
                    for gname, g in th.guards():
                        def f(st, key=key, fn=fn, g=g, kind=kind):
                            c, v = st.of_kind(key, kind)
                            gg = zbool(g(st.it))
                            if c is False:
                                return znot(gg)
                            return z3.Implies(gg, zbool(zand(
                                c, v == fn(st.it))))
                        add('%s => %s == %s' % (gname, key, name), f)
        for name, kind, fn in th.terms():
            if kind != 'bool':
                continue
            for key, s in slots.items():
                for pol in (True, False):
                    if len(s.kinds) > 1:
                        for k in s.kinds:
                            def f(st, key=key, fn=fn, k=k, pol=pol):
                                r = st.of_kind(key, k)
                                if r is None:
                                    return False
                                t = zbool(fn(st.it))
                                return zbool(r[0]) == (t if pol else
                                                       z3.Not(t))
                            add('(%s is %s) == %s%s' % (
                                key, k, '' if pol else 'not ', name), f)
                    if 'int' in s.kinds and kind_of(s.v0) == 'int':
                        def f(st, key=key, fn=fn, v0=s.v0, pol=pol):
                            c, v = st.of_kind(key, 'int')
                            if c is False:
                                return False
                            t = zbool(fn(st.it))
                            return zand(c, (v == v0) == (
                                t if pol else z3.Not(t)))
                        add('(%s == v0) == %s%s' % (
                            key, '' if pol else 'not ', name), f)
        for name, fn in getattr(th, 'invariants', lambda: [])():
            add(name, fn)
        for name, fn in th.texts():
            for key, s in slots.items():
                for kind in TEXT:
                    if kind in s.kinds:
                        def f(st, key=key, fn=fn, kind=kind):
                            r = st.of_kind(key, kind)
                            if r is None or r[0] is False:
                                return False
                            return zand(r[0], fn(st, r[1]))
                        add('%s: %s' % (key, name), f)
        for key, a in arrslots.items():
            for name, fn in th.arrays(a):
                def f(st, key=key, fn=fn):
                    arr = st.arrs[key]
                    j = z3.FreshConst(I, 'j')
                    e = arr.at(j)
                    if sort_is(e, fn(st.it, j)):
                        return z3.ForAll([j], z3.Implies(
                            z3.And(j >= 0, j < to_z3(arr.n)),
                            to_z3(e) == to_z3(fn(st.it, j))))
                    return False
                add('%s[j] == %s' % (key, name), f)
    for key, a in arrslots.items():
        # content unchanged
        def f(st, key=key):
            arr, a0 = st.arrs[key], arrslots[key].c0
            j = z3.FreshConst(I, 'j')
            e, e0 = arr.at(j), a0.at(j)
            if sort_is(e, e0):
                return z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < to_z3(arr.n)),
                    to_z3(e) == to_z3(e0)))
            return False
        add('%s unchanged' % (key,), f)
    return out


def sort_is(a, b):
    try:
        return to_z3(a).sort() == to_z3(b).sort()
    except Unsupported:
        return False


class ArrSlot(object):
    """An ndarray whose elements the loop changes (length fixed)."""

    def __init__(self, key, obj):
        ctx = cur()
        self.key, self.obj = key, obj
        self.c0 = obj.content
        # symbolic element sort from a probe
        p = z3.FreshConst(I, 'p')
        e = self.c0.at(p)
        self.like = e
        try:
            srt = to_z3(e).sort()
        except Unsupported:
            raise Unsupported('array elements')
        self.fn = ctx.fresh_fn('arr_%d' % key[1], [I, I], srt)
        j = z3.FreshConst(I, 'j')
        ctx.fact(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < to_z3(self.c0.n)),
            self.fn(z3.IntVal(0), j) == to_z3(self.c0.at(j)))))

    def at(self, t):
        from .core import from_z3
        return Sym(self.c0.n, lambda j: from_z3(self.fn(t, to_z3(j)),
                                                self.like))


# ------------------------------------------------------------ the rule

def _setup(interp, node, fr, extra_targets):
    ctx = cur()
    if ctx.sub is not None:
        raise Unsupported('loop of symbolic length inside a generic element')
    names, nl, gl = assigned_names(node.body)
    if gl:
        raise Unsupported('global in a loop')
    names = sorted(names | extra_targets)
    dead = set()
    for nm in names:
        # decisions on the state before the loop come before its key
        sc = scope_of(nm, fr)
        v0 = sc.env.get(nm, UNBOUND)
        if isinstance(v0, HV):
            if written_first(node, nm):
                dead.add(('L', nm))
            else:
                sc.env[nm] = interp.materialize(v0)
    key = (tuple(ctx.decisions),)
    info = ctx.ex.loops.get(key)
    if info is None:
        info = Info(key[0])
        info.names = names
        info.junk |= dead
        ctx.ex.loops[key] = info
    ctx.ex.loops_cut.add('%s:%d' % (fr.module.__name__, node.lineno))
    return info


def written_first(node, name):
    """Every iteration sets the variable before it may read it."""
    def uses(e):
        return any(isinstance(x, ast.Name) and x.id == name
                   for x in ast.walk(e))

    def first(stmts):
        # 'read' (perhaps read first), 'set' (surely set first) or None
        for s in stmts:
            if isinstance(s, ast.Assign):
                if uses(s.value):
                    return 'read'
                ts = s.targets
                if any(isinstance(t, ast.Name) and t.id == name or isinstance(
                        t, ast.Tuple) and any(isinstance(
                            x, ast.Name) and x.id == name for x in t.elts)
                        for t in ts):
                    return 'set'
                if any(uses(t) for t in ts):
                    return 'read'
            elif isinstance(s, ast.If):
                if uses(s.test):
                    return 'read'
                a, b = first(s.body), first(s.orelse)
                if 'read' in (a, b):
                    return 'read'
                if a == b == 'set':
                    return 'set'
                if (a == 'set' and ends(s.orelse)) or (
                        b == 'set' and ends(s.body)):
                    return 'set'
            elif isinstance(s, ast.For):
                if uses(s.iter):
                    return 'read'
                if not uses(s.target) and (first(s.body) == 'read' or
                                           first(s.orelse) == 'read'):
                    return 'read'
                if uses(s.target) and first(s.orelse) == 'read':
                    return 'read'
            elif uses(s):
                return 'read'
        return None

    def ends(stmts):
        return bool(stmts) and isinstance(stmts[-1], (
            ast.Continue, ast.Return, ast.Raise))
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp,
                          ast.Nonlocal)) for s in node.body
           for x in ast.walk(s)):
        return False
    t = getattr(node, 'target', None)
    if isinstance(node, ast.For) and t is not None and uses(t):
        return True
    if isinstance(node, ast.While) and uses(node.test):
        return False
    return first(node.body) != 'read'


def scope_of(name, fr):
    if name in fr.nonlocals:
        f = fr.parent
        while f is not None and name not in f.env:
            f = f.parent
        return f
    return fr


class Head(object):
    """The state at the loop head."""

    def __init__(self, interp, info, fr, targets, n, node):
        self.interp, self.info, self.fr, self.n = interp, info, fr, n
        ctx = cur()
        self.slots = {}
        self.arrs = {}
        self.gath = {}
        self.shapefns = {}
        self.targets = targets
        for nm in info.names:
            if nm in targets and nm not in info.kinds.get('bodyset', ()):
                pass
            key = ('L', nm)
            v0 = scope_of(nm, fr).env.get(nm, UNBOUND)
            if key in info.junk:
                v0 = Junk('loop variable %s' % (key,))
                info.kinds[key] = ['junk']
            ks = info.kinds.setdefault(key, [kind_of(v0)])
            if fit_kind(v0, ks) not in ks and key not in info.junk:
                add_kind(ks, kind_of(v0))
            self.slots[key] = Slot(key, list(ks), v0)
        for (hid, attr) in sorted(info.heapset, key=str):
            obj = ctx.heap[hid]
            key = ('H', hid, attr)
            if isinstance(obj, (SeqObj, DictV)) and attr == 'content':
                mode = info.modes.get(key)
                if mode is None:
                    mode = ('arr' if isinstance(obj, SeqObj) and
                            obj.kind != 'list' else 'gather')
                    info.modes[key] = mode
                if mode == 'gather':
                    if info.shapes.get(key) is not None:
                        self.shapefns[key] = info.shapes[key].fns()
                    self.gath[key] = (obj, obj.content if
                                      isinstance(obj, SeqObj) else
                                      (dict(obj.store), obj.sym))
                else:
                    self.arrs[key] = ArrSlot(key, obj)
            elif hasattr(obj, 'attrs'):
                v0 = obj.attrs.get(attr, UNBOUND)
                ks = info.kinds.setdefault(key, [kind_of(v0)])
                if fit_kind(v0, ks) not in ks and key not in info.junk:
                    add_kind(ks, kind_of(v0))
                self.slots[key] = Slot(key, list(ks), v0)
            else:
                raise Unsupported('loop changes %r' % (obj,))
        for s in self.slots.values():
            s.init_facts()
        self.cands = make_cands(interp, self.slots, self.arrs, info, n,
                                node, fr)
        st0 = State(z3.IntVal(0), self.slots,
                    {k: s.at(z3.IntVal(0)) for k, s in self.slots.items()},
                    {k: a.c0 for k, a in self.arrs.items()})
        sthead = self.state_at(z3.Const('it!probe', I))
        shape = tuple((k, len(s.kinds)) for k, s in self.slots.items())
        keep = []
        for c in self.cands:
            if (c.name, shape) in info.base_checked:
                keep.append(c)
                continue
            try:
                g = c.fn(st0)
                # a formula that is false of the state as a term says
                # nothing of it: never assume it
                h = c.fn(sthead)
            except (Unsupported, TypeError):
                g = h = False
            if g is not None and g is not False and h is not None and \
                    not z3.is_false(z3.simplify(zbool(h))) and \
                    ctx.entails(zbool(g)):
                info.base_checked.add((c.name, shape))
                keep.append(c)
            else:
                info.dropped.add(c.name)
        self.cands = keep

    def install(self, t, after=None):
        """Set the state to that of iteration t."""
        ctx = cur()
        for key, s in self.slots.items():
            v = self.closed(key, t)
            if v is None:
                v = s.at(t)
            if key[0] == 'L':
                scope_of(key[1], self.fr).env[key[1]] = v
            else:
                obj = ctx.heap[key[1]]
                ctx.mutating(obj, key[2])
                if v is UNBOUND:
                    obj.attrs.pop(key[2], None)
                else:
                    obj.attrs[key[2]] = v
        for key, a in self.arrs.items():
            a.obj.content = a.at(t)
        for key, (obj, base) in self.gath.items():
            if after is None:
                if isinstance(obj, SeqObj):
                    sh = self.info.shapes.get(key, False)
                    if sh is None:
                        ctx.assume(to_z3(t) == 0)
                        obj.content = base
                    elif sh:
                        obj.content = ShapedHead(
                            self.interp, base, self.info, key, t, sh,
                            self.shapefns[key])
                    else:
                        obj.content = GatherHead(base, self.info, key)
                else:
                    ctx.mutating(obj, 'content')
                    obj._sym = GatherHead(base, self.info, key)
                    obj._store = {}
            else:
                pcs = self.info.pieces.get(key, [])
                check_reads(self.interp, self.info, key, self.itc, after)
                gone = [x[1] is REMOVED for p in pcs for x in p[2]] \
                    if isinstance(obj, DictV) else []
                if any(gone):
                    if not all(gone):
                        raise Unsupported('keys put and removed in a loop')
                    from . import models
                    ctx.mutating(obj, 'content')
                    obj._store, obj._sym = base
                    models.dict_remove(self.interp, obj, pcs, self.itc,
                                       after)
                    continue
                q = gathered(self.interp, pcs, self.itc, after)
                if isinstance(obj, SeqObj):
                    sh = self.info.shapes.get(key, False)
                    if sh is None:
                        raise Unsupported('read of a list under '
                                          'construction')
                    if sh:
                        q = shaped(self.interp, self.info, key, q, self.itc,
                                   after, sh, self.shapefns[key])
                    obj.content = concat(self.interp, base, q)
                else:
                    from . import models
                    ctx.mutating(obj, 'content')
                    obj._store, obj._sym = base
                    models.dict_put_pairs(self.interp, obj, q)

    def closed(self, key, t):
        """The value at iteration t in terms of that at the start, where an
        invariant gives it."""
        s = self.slots[key]
        if s.kinds != ['int'] or kind_of(s.v0) != 'int':
            return None
        names = {c.name for c in self.cands}
        if '%s unchanged' % (key,) in names:
            return s.v0
        for c in self.info.lin.get(key, ()):
            if '%s == v0 + %s*it' % (key, c) in names:
                return z3.simplify(to_z3(s.v0) + c * to_z3(t))
        return None

    def state_at(self, t):
        return State(t, self.slots,
                     {k: s.at(t) for k, s in self.slots.items()},
                     {k: a.at(t) for k, a in self.arrs.items()})

    def assume_at(self, t):
        ctx = cur()
        st = self.state_at(t)
        for c in self.cands:
            ctx.assume(zbool(c.fn(st)))

    def assume_all(self, m):
        """Every candidate holds at every iteration 0..m."""
        ctx = cur()
        k = z3.FreshConst(I, 'k')
        st = self.state_at(k)
        for c in self.cands:
            f = zbool(c.fn(st))
            ctx.fact(z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k <= m), f)))

    def no_exit_before(self, m):
        ctx = cur()
        for conds, defs in self.info.exits:
            k = z3.FreshConst(I, 'k')
            bad = zbool(zand(*(conds + defs)))
            bad = z3.substitute(bad, (self.itc, k))
            ctx.assume(z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < m), z3.Not(bad))))


def gathered(interp, pcs, itc, m):
    """The sequence of items appended by iterations 0..m-1."""
    if not pcs or all(len(p[2]) == 0 for p in pcs):
        return Conc([])
    if any(len(p[2]) > 1 for p in pcs):
        w = {len(p[2]) for p in pcs}
        raise Unsupported('several items gathered per iteration %s' % w)
    base = []
    keep = [(list(c), list(d), 'val', items[0])
            for c, d, items in pcs if items]
    ps = PieceSeq(interp, keep, itc, base, m)
    if all(len(p[2]) == 1 for p in pcs):
        return Sym(m, ps.at, piece=ps)
    cond = kept(ps, keep, [p for p in pcs if not p[2]], m)
    fs = filter_seq(interp, m, itc, zbool(cond))
    return Sym(fs.cnt_n, lambda j: ps.at(fs.sel(j)), filt=fs, piece=ps)


def concat(interp, a, b):
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a
    if isinstance(a, Conc) and isinstance(b, Conc):
        return Conc(a.items + b.items)
    na, nb = a.n, b.n

    def at(j):
        from .core import Pieces, sort_of, from_z3
        if isinstance(j, int) and isinstance(na, int):
            return a.at(j) if j < na else b.at(j - na)
        ctx = cur()
        jj = to_z3(j)
        if ctx.entails(jj < na):
            return a.at(j)
        if ctx.entails(jj >= na):
            return b.at(jj - na)
        x, y = a.at(j), b.at(jj - na)
        sx, sy = sort_of(x), sort_of(y)
        if sx is not None and sx == sy:
            return from_z3(z3.If(jj < na, to_z3(x), to_z3(y)), x)
        return Pieces([(jj < na, x), (z3.Not(jj < na), y)])
    r = Sym(to_z3(na) + to_z3(nb), at)
    if isinstance(a, Conc):
        r.peel = (a, b)
    return r


def peeled(seq):
    """(first items, rest) of a sequence known to start with these."""
    p = getattr(seq, 'peel', None)
    if p is None or not p[0].n or p[0].n > 4:
        return None
    return p


def step_end(interp, head, frame, info, it, yields):
    """The body has completed at iteration it: check and record."""
    ctx = cur()
    for key, (obj, base) in head.gath.items():
        if info.shapes.get(key, False) is None:
            c, nb = obj.content, base.n
            if not isinstance(c, Conc) or not isinstance(nb, int) or \
                    c.n != nb + 1:
                raise Unsupported('read of a list under construction')
            info.shapes[key] = Shape.of(interp, c.items[-1])
            raise RestartLoop(info.prefix, 'shape found')
    vals, restart = {}, None
    for key, s in head.slots.items():
        if key[0] == 'L':
            v = scope_of(key[1], head.fr).env.get(key[1], UNBOUND)
        else:
            v = ctx.heap[key[1]].attrs.get(key[2], UNBOUND)
        if isinstance(v, HV):
            # unread: unchanged
            if s.tag is not None and v.tag.eq(s.tag(it)):
                vals[key] = v
                continue
            v = interp.materialize(v)
        if isinstance(v, Junk) or key in info.junk:
            k = 'junk'
            v = Junk('loop variable %s' % (key,))
        else:
            k = fit_kind(v, info.kinds[key])
            if isinstance(k, tuple) and k[0] == 'ref' and \
                    k[1] > frame.mark:
                k = 'junk'
                v = Junk('loop variable %s' % (key,))
        if k not in info.kinds[key]:
            if len(info.kinds[key]) > 6 or (
                    key[0] == 'L' and key[1] in head.targets and
                    len(info.kinds[key]) > 2):
                # not tracked (a loop variable is set before it is read)
                info.kinds[key] = ['junk']
                info.junk.add(key)
            else:
                add_kind(info.kinds[key], k)
            restart = 'kind %s %s' % (key, k)
        elif k == 'int' and kind_of(s.v0) == 'int' and s.tag is None:
            c = z3.simplify(to_z3(v) - to_z3(
                s.fns[0](it) if head.closed(key, it) is None else
                head.closed(key, it)))
            if not mentions(c, it) and not z3.is_int_value(c):
                for (n_, w, S) in getattr(ctx, 'sums', ()):
                    last = z3.Implies(n_ > 0, S(n_) == S(z3.simplify(
                        n_ - 1)) + w(z3.simplify(n_ - 1)))
                    if ctx.entails(z3.Implies(last, c == S(n_))):
                        c = S(n_)
            if not mentions(c, it) and (z3.is_int_value(c) or c.decl().kind()
                                        == z3.Z3_OP_UNINTERPRETED) and \
                    not any(c.eq(x) for x in info.lin.get(key, [])):
                if len(info.lin.setdefault(key, [])) < 3:
                    info.lin[key].append(c)
                    restart = 'linear %s' % (key,)
        vals[key] = v
    if restart:
        raise RestartLoop(info.prefix, restart)
    arrs = {}
    for key, a in head.arrs.items():
        arrs[key] = a.obj.content
        if arrs[key].n is not a.c0.n and not (
                is_z3(arrs[key].n) and is_z3(a.c0.n) and
                arrs[key].n.eq(a.c0.n)):
            raise Unsupported('array length changed in a loop')
    st = State(it + 1, head.slots, vals, arrs)
    gs = []
    for c in head.cands:
        try:
            gs.append(zbool(c.fn(st)))
        except Unsupported:
            gs.append(z3.BoolVal(False))
    conj = z3.And(*gs) if gs else z3.BoolVal(True)
    if not (ctx.entails(conj) if gs else True):
        bad = [c for c, g in zip(head.cands, gs) if not ctx.entails(g)]
        if not bad:
            bad = [c for c, g in zip(head.cands, gs)
                   if not ctx.entails(g)] or head.cands[-1:]
        for c in bad:
            info.dropped.add(c.name)
        raise RestartLoop(info.prefix, 'dropped %s' % [c.name for c in bad])
    for c in head.cands:
        ctx.ex.obligations.append(Obligation(
            'loop@%s invariant %s preserved' % (info.where, c.name),
            'proved', 'z3', 0.0, prefix=tuple(ctx.decisions)))
    conds, defs = list(frame.conds), list(frame.defs)
    for key, (obj, base) in head.gath.items():
        c = obj.content if isinstance(obj, SeqObj) else obj._sym
        if isinstance(c, GatherHead):
            items = ()
        elif isinstance(c, GatherExt):
            items = c.items
        else:
            raise Unsupported('list rebuilt in a loop')
        if info.shapes.get(key):
            if len(items) != 1:
                raise Unsupported('read of a list under construction')
            info.shapes[key].fit(interp, items[0])
        info.pieces.setdefault(key, []).append((conds, defs, items))
    info.yields.append((conds, defs, tuple(yields)))


def mentions(t, c):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


def run_loop(interp, node, fr, n, targets, bind, test):
    """Common rule.  n: number of iterations (for) or None (while)."""
    ctx = cur()
    info = _setup(interp, node, fr, set())
    info.where = '%s:%d' % (fr.module.__name__.split('.')[-1], node.lineno)
    head = Head(interp, info, fr, targets, n, node)
    ctx.havocked = True
    it = z3.Const('it!%d' % ctx.ex.pathid(tuple(ctx.decisions) + ('it',)), I)
    head.itc = it
    before = {nm: scope_of(nm, fr).env.get(nm, UNBOUND) for nm in targets}
    d = ctx.decide([('loop', 'step'), ('loop', 'leave'), ('loop', 'exit')])
    if d == ('loop', 'step'):
        if ctx.cursor >= len(ctx.prefix):
            # first path of a (re)started step
            info.begin()
        frame = Frame(info, ctx.nheap)
        head.install(it)
        ctx.assume(it >= 0)
        if n is not None:
            ctx.assume(it < n)
        head.assume_at(it)
        for th in interp.theories:
            u = getattr(th, 'unfold', None)
            if u is not None:
                ctx.fact(u(it))     # an instance of a fact of the theory
        ctx.loopstack.append(frame)
        ctx.generic.append(it)
        yields = []
        try:
            try:
                if test is not None:
                    if not interp.truth_branch(test()):
                        raise PathEnd()
                bind(it)
                for y in interp.exec_block(node.body, fr):
                    yields.append(y)
            except ContinueEx:
                pass
        except (BreakEx, ReturnEx, PyRaise):
            if ctx.check() != z3.unsat:
                info.exits.append((list(frame.conds), [
                    d for d in frame.defs
                    if d.get_id() not in ctx.universal]))
            raise PathEnd()
        if any(isinstance(y, YieldAll) for y in yields):
            raise Unsupported('nested symbolic yields')
        step_end(interp, head, frame, info, it, yields)
        raise PathEnd()
    if d == ('loop', 'leave'):
        if not info.exits:
            raise PathEnd()
        m = ctx.fresh('m', I)
        ctx.assume(m >= 0)
        if n is not None:
            ctx.assume(m < n)
        head.assume_all(m)
        head.assume_at(m)
        head.no_exit_before(m)
        head.install(m, after=m)
        ys = gathered(interp, info.yields, it, m)
        if not (isinstance(ys.n, int) and ys.n == 0):
            yield YieldAll(ys)
        try:
            if test is not None and not interp.truth_branch(test()):
                raise PathEnd()
            bind(m)
            for y in interp.exec_block(node.body, fr):
                yield y
        except ContinueEx:
            raise PathEnd()
        except BreakEx:
            return
        raise PathEnd()
    # exit
    if n is None:
        m = ctx.fresh('m', I)
        ctx.assume(m >= 0)
    else:
        m = to_z3(n)
        ctx.assume(m >= 0)
    head.assume_all(m)
    head.assume_at(m)
    head.no_exit_before(m)
    head.install(m, after=m)
    if test is not None:
        if interp.truth_branch(test()):
            raise PathEnd()
    else:
        # the target keeps the last element
        tn = [t for t in targets if t not in head.info.names]
        if tn:
            after = {}
            if ctx.check(m <= 0) == z3.unsat:
                bind(m - 1)
            elif ctx.check(m > 0) == z3.unsat:
                pass
            else:
                bind(m - 1)
                for t in tn:
                    sc = scope_of(t, fr)
                    sc.env[t] = HV(z3.If(m > 0, z3.IntVal(1), z3.IntVal(0)),
                                   [before[t], sc.env[t]])
    ys = gathered(interp, info.yields, it, m)
    if not (isinstance(ys.n, int) and ys.n == 0):
        yield YieldAll(ys)
    for y in interp.exec_block(node.orelse, fr):
        yield y


def sym_for(interp, node, seq, fr):
    p = peeled(seq)
    if p is not None:
        return peel_for(interp, node, p, fr)
    return sym_for_rest(interp, node, seq, fr)


def peel_for(interp, node, p, fr):
    head, rest = p
    for k in range(head.n):
        interp.assign(node.target, head.at(k), fr)
        try:
            for y in interp.exec_block(node.body, fr):
                yield y
        except ContinueEx:
            continue
        except BreakEx:
            return
    run = sym_for(interp, node, rest, fr) if not isinstance(
        rest.n, int) else interp._for_concrete(node, rest, fr)
    for y in run:
        yield y


def sym_for_rest(interp, node, seq, fr):
    targets = assigned_names([node.target])[0]

    def bind(i):
        interp.assign(node.target, seq.at(i), fr)
    return run_loop(interp, node, fr, seq.n, targets, bind, None)


def sym_while(interp, node, fr):
    ctx = cur()
    lit = isinstance(node.test, ast.Constant)
    if lit and node.test.value and interp.unroll_lit:
        for k in range(interp.unroll_lit):
            try:
                for y in interp.exec_block(node.body, fr):
                    yield y
            except ContinueEx:
                continue
            except BreakEx:
                return
        if ctx.check() == z3.unsat:
            raise PathEnd()
        raise Unsupported('loop beyond the bound of the contract')
    for k in range(interp.max_unroll):
        if lit:
            break
        t = interp.truth(interp.eval(node.test, fr))
        if not isinstance(t, bool):
            s = z3.simplify(t)
            if z3.is_true(s):
                t = True
            elif z3.is_false(s):
                t = False
            else:
                if k == 0 and not ctx.entails(znot(t)):
                    break
                if ctx.entails(t):
                    t = True
                elif ctx.entails(znot(t)):
                    t = False
                else:
                    break
        if not t:
            for y in interp.exec_block(node.orelse, fr):
                yield y
            return
        try:
            for y in interp.exec_block(node.body, fr):
                yield y
        except ContinueEx:
            continue
        except BreakEx:
            return
    for y in run_loop(interp, node, fr, None, set(), lambda i: None,
                      lambda: interp.eval(node.test, fr)):
        yield y
