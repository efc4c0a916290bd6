"""Specification theories shared by the contracts."""
import z3

from pydv.core import (B, I, Obj, Sym, Conc, SliceV, SeqObj, to_z3, zbool,
                       cur, Opaque, RL_SAME)
from pydv.interp import filter_seq


class Theory(object):
    def terms(self):
        return []

    def guards(self):
        return [('true', lambda it: z3.BoolVal(True))]

    def arrays(self, slot):
        return []

    def invariants(self):
        return []

    def texts(self):
        return []


class Runs(Theory):
    """The maximal True runs of a boolean sequence.

    S: positions where a run starts.  K: positions just after a run that
    ends before the end of the sequence.  Run j is [RS(j), RE(j)).
    """

    def __init__(self, interp, n, c, tag='mask'):
        ctx = cur()
        self.n, self.c = to_z3(n), c
        n = self.n
        k = z3.FreshConst(I, 'k')
        self.S = filter_seq(interp, n, k, z3.And(
            c(k), z3.Or(k == 0, z3.Not(c(k - 1)))))
        k = z3.FreshConst(I, 'k')
        self.K = filter_seq(interp, n, k, z3.And(
            k > 0, c(k - 1), z3.Not(c(k))))
        S, K, P = self.S, self.K, self.P
        self.tail = z3.And(n > 0, c(n - 1))
        self.N = K.cnt(n) + z3.If(self.tail, 1, 0)
        ctx.induct('lemma runs(%s): starts = closed + open' % tag,
                   lambda i: S.cnt(i) == K.cnt(i) + z3.If(P(i), 1, 0), n,
                   lambda i: [S.unfold(i), K.unfold(i)])

        def open_run(i):
            q = z3.FreshConst(I, 'q')
            s = self.LS(i)
            return z3.Implies(P(i), z3.And(
                s >= 0, s < i, S.at(s), z3.ForAll([q], z3.Implies(
                    z3.And(q >= s, q < i), c(q)))))
        ctx.induct('lemma runs(%s): an open run is True since its start'
                   % tag, open_run, n, lambda i: [S.unfold(i), K.unfold(i)])
        i = z3.FreshConst(I, 'i')

    def P(self, i):
        i = to_z3(i)
        return z3.And(i > 0, self.c(i - 1))

    def LS(self, i):
        """Start of the run that is open before position i."""
        return self.S.sel(self.S.cnt(i) - 1)

    def RS(self, j):
        return self.S.sel(j)

    def RE(self, j):
        j = to_z3(j)
        return z3.If(j < self.K.cnt(self.n), self.K.sel(j), self.n)

    def run_of(self, i):
        """Number of the run that holds the True position i."""
        return self.S.cnt(to_z3(i) + 1) - 1

    def seq(self):
        return Sym(self.N, lambda j: SliceV(self.RS(to_z3(j)), self.RE(j)),
                   runs=self)

    def terms(self):
        return [('open', 'bool', self.P),
                ('start of the open run', 'int', self.LS),
                ('closed runs', 'int', self.K.cnt),
                ('runs', 'int', self.S.cnt)]

    def guards(self):
        return [('true', lambda it: z3.BoolVal(True)),
                ('open', self.P)]

    def abstract(self, ctx):
        """Prove that this defines an instance of Parts."""
        n, c = self.n, self.c
        for nm, vs, body in parts_axioms(n, c, self.N, self.RS, self.RE,
                                         self.run_of):
            ctx.solver.push()
            hyp, goal = body
            ctx.solver.add(hyp)
            for v in vs:
                ctx.solver.add(self.S.unfold(v), self.K.unfold(v))
            ctx.prove('parts: ' + nm, goal)
            ctx.solver.pop()

    def adequacy(self, ctx, tag=''):
        """RS/RE are the maximal True runs, in order, covering every True."""
        n, c = self.n, self.c
        j = z3.Const('j!adq', I)
        ctx.solver.push()
        ctx.solver.add(j >= 0, j < self.N)
        s, e = self.RS(j), self.RE(j)
        # S.cnt at the end position of run j is j + 1
        ctx.prove('runs%s: cnt at end' % tag,
                  z3.And(self.S.cnt(e) == j + 1, self.P(e)))
        ctx.prove('runs%s: bounds' % tag, z3.And(0 <= s, s < e, e <= n))
        q = z3.Const('q!adq', I)
        ctx.prove('runs%s: all True inside' % tag, z3.Implies(
            z3.And(q >= s, q < e), c(q)))
        ctx.prove('runs%s: maximal to the left' % tag,
                  z3.Or(s == 0, z3.Not(c(s - 1))))
        ctx.prove('runs%s: maximal to the right' % tag,
                  z3.Or(e == n, z3.Not(c(e))))
        ctx.prove('runs%s: in order' % tag, z3.Implies(
            j + 1 < self.N, e < self.RS(j + 1)))
        ctx.solver.pop()
        i = z3.Const('i!adq', I)
        ctx.solver.push()
        ctx.solver.add(i >= 0, i < n, c(i))
        r = self.run_of(i)
        ctx.solver.add(self.S.unfold(i))
        ctx.solver.add(self.K.unfold(i))
        ctx.prove('runs%s: every True position is in a run' % tag, z3.And(
            r >= 0, r < self.N, self.RS(r) <= i, i < self.RE(r)))
        ctx.solver.pop()


def parts_axioms(n, c, N, RS, RE, run):
    """What the parts of a mask are, as (name, variables, (hyp, goal))."""
    j, k, q = z3.Const('j!ax', I), z3.Const('k!ax', I), z3.Const('q!ax', I)
    inj = z3.And(j >= 0, j < N)
    return [
        ('number', [], (z3.BoolVal(True), N >= 0)),
        ('bounds and ends', [j], (inj, z3.And(
            0 <= RS(j), RS(j) < RE(j), RE(j) <= n,
            c(RS(j)), z3.Or(RS(j) == 0, z3.Not(c(RS(j) - 1))),
            c(RE(j) - 1), z3.Or(RE(j) == n, z3.Not(c(RE(j))))))),
        ('inside', [j, q], (z3.And(inj, RS(j) <= q, q < RE(j)), z3.And(
            c(q), run(q) == j))),
        ('cover', [q], (z3.And(q >= 0, q < n, c(q)), z3.And(
            run(q) >= 0, run(q) < N, RS(run(q)) <= q, q < RE(run(q))))),
        ('order', [j, k], (z3.And(inj, k > j, k < N), RE(j) < RS(k))),
    ]


class Parts(Theory):
    """The parts of a mask by their defining axioms (Runs satisfies them)."""

    def __init__(self, interp, n, c):
        ctx = cur()
        self.n, self.c = to_z3(n), c
        self.N = ctx.fresh('N', I)
        self.RS = ctx.fresh_fn('RS', [I], I)
        self.RE = ctx.fresh_fn('RE', [I], I)
        self.run_of = ctx.fresh_fn('run', [I], I)
        RS, RE, run = self.RS, self.RE, self.run_of
        pats = {'number': None,
                'bounds and ends': lambda j: [RS(j), RE(j)],
                'inside': lambda j, q: [z3.MultiPattern(RS(j), run(q))],
                'cover': lambda q: [run(q)],
                'order': lambda j, k: [z3.MultiPattern(RS(j), RS(k))]}
        for nm, vs, (hyp, goal) in parts_axioms(self.n, c, self.N, RS, RE,
                                                run):
            if not vs:
                ctx.fact(goal)
            else:
                ctx.fact(z3.ForAll(vs, z3.Implies(hyp, goal),
                                   patterns=pats[nm](*vs)))

    def seq(self):
        return Sym(self.N, lambda j: SliceV(self.RS(to_z3(j)),
                                            self.RE(to_z3(j))), runs=self)


def parts_of(interp, n, c):
    """Canonical: equal masks share one Parts."""
    ctx = cur()
    reg = ctx.memo.setdefault('parts', [])
    n = to_z3(n)
    k = z3.Const('canon!p', I)
    key = z3.simplify(zbool(c(k)))
    for n0, key0, p in reg:
        if n0.eq(n) and key0.eq(key):
            return p
    for n0, key0, p in reg:
        if ctx.entails(zbool(n0 == n), RL_SAME) and ctx.entails(z3.ForAll(
                [k], z3.Implies(z3.And(k >= 0, k < n), key0 == key)),
                RL_SAME):
            return p
    p = Parts(interp, n, c)
    reg.append((n, key, p))
    return p


class Trigger(Theory):
    """Start/stop state: st(i) before element i, st(i+1) after it."""

    def __init__(self, n, start, stop):
        ctx = cur()
        self.n, self.start, self.stop = n, start, stop
        self.st = ctx.fresh_fn('st', [I], B)
        st = self.st
        i = z3.FreshConst(I, 'i')
        ctx.fact(z3.Not(st(0)))
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), st(
            i + 1) == z3.And(z3.Not(stop(i)), z3.Or(start(i), st(i)))),
            patterns=[st(i + 1)]))

    def terms(self):
        return [('started', 'bool', self.st)]

    def unfold(self, i):
        st = self.st
        return z3.Implies(z3.And(i >= 0, i < self.n), st(i + 1) == z3.And(
            z3.Not(self.stop(i)), z3.Or(self.start(i), st(i))))

    def result(self, j):
        return self.st(to_z3(j) + 1)

    def adequacy(self, ctx):
        """st(i+1): a start at some k <= i with no stop in k..i."""
        k, m = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'm')
        w = ctx.fresh_fn('since', [I], I)

        def some(i):
            # the latest start or the one still running, as a witness
            return z3.Implies(self.st(i), z3.And(
                w(i) >= 0, w(i) < i, self.start(w(i)),
                z3.ForAll([m], z3.Implies(z3.And(m >= w(i), m < i),
                                          z3.Not(self.stop(m))))))
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), w(
            k + 1) == z3.If(self.start(k), k, w(k))), patterns=[w(k + 1)]))
        ctx.induct('trigger: True only after a start without a stop', some,
                   self.n, lambda i: [self.unfold(i), w(i + 1) == z3.If(
                       self.start(i), i, w(i))])

        def every(i):
            return z3.ForAll([k], z3.Implies(z3.And(
                k >= 0, k < i, self.start(k),
                z3.ForAll([m], z3.Implies(z3.And(m >= k, m < i),
                                          z3.Not(self.stop(m))))),
                self.st(i)))
        ctx.induct('trigger: True after every start without a stop', every,
                   self.n, lambda i: [self.unfold(i)])
