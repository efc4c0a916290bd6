"""C21: streams in compound files are their sectors in chain order."""
import z3

from pydv.core import (I, B, Obj, InstV, Opaque, SeqObj, SliceV, Sym, TAGS,
                       Unsupported, _tag, to_z3, zbool, cur)
from pydv.interp import Builtin, Interp, filter_seq
from pydv.models import JoinV, divz, iter_seq, uf
from . import contract
from .packs import A_INT, call_or_exc, exc_name, expect
from .theory import Theory

M = 'channelpack.xlrd.compdoc.'
C = M + 'CompDoc.'
EOC = -2
A_MEM = ('a slice of the bytes of a file depends on the file and the two '
         'bounds only')
A_LEN = ('a chain has a length or never ends; the latter is in the contract '
         'as a chain without a negative entry')


class Mem(object):
    """Bytes of a file (or of the short sectors), seen through slices."""
    name = 'bytes'

    @staticmethod
    def getitem(it, o, i):
        if not isinstance(i, SliceV) or i.step not in (None, 1):
            raise Unsupported('item of the file')
        a, b = it.resolve(i.start), it.resolve(i.stop)
        return Opaque(piece(o.fid, to_z3(a), to_z3(b)), 'bytes')


def piece(fid, a, b):
    return uf('mem_slice', I, I, I, Obj)(fid, z3.simplify(a), z3.simplify(b))


def mem(tag):
    o = InstV(Mem())
    o.fid = z3.Const('mem_' + tag, I)
    a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
    t = piece(o.fid, a, b)
    cur().fact(z3.ForAll([a, b], _tag(t) == TAGS['bytes'], patterns=[t]))
    return o


class Chain(Theory):
    """c(0), c(1) ..: the sectors from a first one through a table."""

    def __init__(self, it, ends=True):
        ctx = cur()
        self.nsat, self.nseen = ctx.fresh('nsat', I), ctx.fresh('nseen', I)
        ctx.assume(z3.And(self.nsat >= 0, self.nseen >= 0))
        self.sat = ctx.fresh_fn('sat', [I], I)
        self.seen0 = ctx.fresh_fn('seen0', [I], I)
        self.first = ctx.fresh('first_sid', I)
        self.c = c = ctx.fresh_fn('chain', [I], I)
        self.last = last = ctx.fresh_fn('last', [I, I], I)
        k, j = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'j')
        ctx.fact(c(z3.IntVal(0)) == self.first)
        ctx.fact(z3.ForAll([k], z3.Implies(k >= 0, c(k + 1) == self.sat(
            c(k))), patterns=[c(k + 1)]))
        # last(k, j): the last position before k where sector j is, or -1
        ctx.fact(z3.ForAll([j], last(0, j) == -1, patterns=[last(0, j)]))
        ctx.fact(z3.ForAll([k, j], z3.Implies(k >= 0, last(
            k + 1, j) == z3.If(c(k) == j, k, last(k, j))),
            patterns=[last(k + 1, j)]))
        self.Z = Z = ctx.fresh('nchain', I)
        ctx.assume(Z >= 0)
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z),
                                             c(k) >= 0), patterns=[c(k)]))
        ctx.assume(c(Z) < 0)
        ctx.induct('last position of a sector', lambda k: z3.ForAll(
            [j], z3.And(last(k, j) >= -1, last(k, j) < k, z3.Implies(
                last(k, j) >= 0, c(last(k, j)) == j)),
            patterns=[last(k, j)]), Z, lambda k: [self.unfold(k)])
        ctx.induct('every sector so far has a last position',
                   lambda k: z3.ForAll([j], z3.Implies(z3.And(
                       j >= 0, j < k), last(k, c(j)) >= j),
                       patterns=[c(j)]), Z, lambda k: [self.unfold(k)])

    def unfold(self, k):
        j = z3.FreshConst(I, 'j')
        c, last = self.c, self.last
        return z3.Implies(k >= 0, z3.And(
            c(k + 1) == self.sat(c(k)), z3.ForAll([j], last(
                k + 1, j) == z3.If(c(k) == j, k, last(k, j)),
                patterns=[last(k + 1, j)])))

    def table(self):
        return SeqObj('list', Sym(self.nsat, lambda i: self.sat(to_z3(i))))

    def doc(self, it):
        import channelpack.xlrd.compdoc as m
        d = InstV(it.wrap(m.CompDoc))
        self.seen = SeqObj('ndarray', Sym(self.nseen, lambda i: self.seen0(
            to_z3(i))))
        d.attrs.update(seen=self.seen, logfile=None, DEBUG=0,
                       ignore_workbook_corruption=False)
        return d

    def terms(self):
        return [('chain', 'int', self.c),
                ('previous', 'int', lambda k: self.c(k - 1))]

    def guards(self):
        return [('true', lambda k: z3.BoolVal(True)),
                ('later', lambda k: k >= 1)]

    def invariants(self):
        return [('in the chain', lambda st: st.it <= self.Z)]

    def arrays(self, slot):
        return [('marked', self.marked)] if slot.obj is self.seen else []

    def marked(self, k, j):
        return z3.If(self.last(k, j) >= 0, self.mark, self.seen0(j))

    # what a chain should be
    def inside(self):
        k = z3.FreshConst(I, 'k')
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.Z), z3.And(
            self.c(k) < self.nsat, self.c(k) < self.nseen)),
            patterns=[self.c(k)])

    def in_table(self):
        k = z3.FreshConst(I, 'k')
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.Z),
            self.c(k) < self.nsat), patterns=[self.c(k)])

    def unused(self):
        k = z3.FreshConst(I, 'k')
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.Z),
            self.seen0(self.c(k)) == 0), patterns=[self.c(k)])

    def distinct(self):
        j, k = z3.FreshConst(I, 'j'), z3.FreshConst(I, 'k')
        c = self.c
        return z3.ForAll([j, k], z3.Implies(z3.And(
            j >= 0, j < k, k < self.Z), c(j) != c(k)),
            patterns=[z3.MultiPattern(c(j), c(k))])

    def fits(self, ctx):
        """Lemma: a chain without repeats is no longer than the table.
        G(k, v) is the number of sectors below v among the first k."""
        G = ctx.fresh_fn('among', [I, I], I)
        k, v = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'v')
        one = lambda k, v: z3.If(self.last(k, v) >= 0, 1, 0)
        ctx.fact(z3.ForAll([k], G(k, 0) == 0, patterns=[G(k, 0)]))
        ctx.fact(z3.ForAll([k, v], z3.Implies(v >= 0, G(k, v + 1) == G(
            k, v) + one(k, v)), patterns=[G(k, v + 1)]))
        c, Z = self.c, self.Z
        ctx.induct('at most v sectors below v', lambda v: z3.ForAll(
            [k], G(k, v) <= v, patterns=[G(k, v)]), self.nsat,
            lambda v: [z3.ForAll([k], G(k, v + 1) == G(k, v) + one(k, v))])
        ctx.induct('none before the first', lambda v: G(0, v) == 0,
                   self.nsat, lambda v: [G(0, v + 1) == G(0, v) + one(0, v)])
        ctx.induct('one more sector', lambda v: z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < Z), G(k + 1, v) == G(k, v) + z3.If(z3.And(
                c(k) < v, self.last(k, c(k)) < 0), 1, 0)),
            patterns=[G(k + 1, v)]), self.nsat, lambda v: [z3.ForAll(
                [k], G(k, v + 1) == G(k, v) + one(k, v)), z3.ForAll(
                [k], self.unfold(k), patterns=[c(k)])])
        ctx.induct('as many as there are', lambda k: G(k, self.nsat) == k,
                   Z, lambda k: [self.unfold(k)], at=[Z])

    def ended(self):
        return self.c(self.Z) == EOC


class Todo(Theory):
    """The bytes left after a number of sectors."""

    def __init__(self, size, ss):
        ctx = cur()
        self.size, self.ss = size, ss
        self.T = T = ctx.fresh_fn('sectors', [I], I)
        k = z3.FreshConst(I, 'k')
        ctx.fact(T(z3.IntVal(0)) == 0)
        ctx.fact(z3.ForAll([k], z3.Implies(k >= 0, T(k + 1) == T(k) + ss),
                           patterns=[T(k + 1)]))

    def unfold(self, k):
        return z3.Implies(k >= 0, self.T(k + 1) == self.T(k) + self.ss)

    def terms(self):
        return [('left', 'int', self.left)]

    def left(self, k):
        left = self.size - self.T(k)
        return z3.If(left < 0, 0, left)


def times(a, b):
    from pydv.models import mulz
    return mulz(a, b)


class Fragments(Theory):
    """The runs of adjacent sectors in a chain; run j has the positions
    P(j) up to P(j + 1) of it."""

    def __init__(self, it, ch, base, ss):
        ctx = cur()
        self.ch, self.base, self.ss = ch, base, ss
        c, Z = ch.c, ch.Z
        k = z3.FreshConst(I, 'k')
        self.cut = lambda k: z3.And(k >= 1, c(k) != c(k - 1) + 1)
        self.F = F = filter_seq(it, Z, k, self.cut(k))
        self.n = z3.If(Z > 0, F.cnt(Z) + 1, 0)
        ctx.induct('adjacent since the start of the run', self.adjacent, Z,
                   lambda k: [F.unfold(k), ch.unfold(k - 1)])

    def adjacent(self, k):
        s, c, q = self.start(k), self.ch.c, z3.FreshConst(I, 'q')
        return z3.Implies(k > 0, z3.And(s >= 0, s < k, z3.ForAll(
            [q], z3.Implies(z3.And(q >= s, q < k), c(q) == c(s) + q - s),
            patterns=[c(q)])))

    def next(self, k):
        c = self.ch.c
        return z3.Implies(c(k) == c(k - 1) + 1, times(
            c(k), self.ss) == times(c(k - 1), self.ss) + self.ss)

    def unfold(self, k):
        return z3.And(self.F.unfold(k), self.next(k))

    def start(self, k):
        """Where the run with position k - 1 starts."""
        n = self.F.cnt(k)
        return z3.If(n == 0, 0, self.F.sel(n - 1))

    def P(self, j):
        return z3.If(j <= 0, 0, z3.If(j - 1 < self.F.cnt(self.ch.Z),
                                      self.F.sel(j - 1), self.ch.Z))

    def terms(self):
        c = self.ch.c
        return [('start of the run', 'int', lambda k: self.base + times(
                    c(self.start(k)), self.ss)),
                ('end of the run', 'int', lambda k: self.base + times(
                    c(k - 1), self.ss) + self.ss)]

    def guards(self):
        return [('later', lambda k: k >= 1)]


def join_seq(it, v):
    v = it.resolve(v)
    return v.seq if isinstance(v, JoinV) else None


def get_stream(sized, marked):
    def run(ctx):
        it = Interp({M + 'fprintf': noop})
        ss = sector(ctx)
        ch = Chain(it)
        it.theories.append(ch)
        base = ctx.fresh('base', I)
        m = mem('given')
        ch.mark = ctx.fresh('seen_id', I)
        ctx.assume(z3.And(base >= 0, ch.mark > 0))
        d = ch.doc(it)
        args = [m, base, ch.table(), ss, ch.first]
        kw = {'name': 'a stream'}
        if sized:
            size = ctx.fresh('size', I)
            ctx.assume(size >= 0)
            td = Todo(size, ss)
            it.theories.append(td)
            args.append(size)
        if marked:
            kw['seen_id'] = ch.mark
        r, e = call_or_exc(it, it.getattr(d, '_get_stream'), args, kw)
        good = [ch.in_table(), ch.ended()]
        if marked:
            good += [ch.inside(), ch.unused(), ch.distinct()]
        elif sized:
            good += [ch.distinct()]
        if e is not None:
            ctx.cover('error')
            if sized and not marked:
                ctx.assume(z3.And(good))
                ch.fits(ctx)
            ctx.prove('an error only if the chain is bad (%s)' % exc_name(e),
                      z3.Not(z3.And(good)))
            return
        for nm, g in zip(('in the table', 'ended', 'inside', 'unused',
                          'distinct') if marked else
                         ('in the table', 'ended'), good):
            ctx.prove('given only if the chain is %s' % nm, g)
        q = join_seq(it, r)
        if q is None:
            ctx.prove('nothing from no sectors', z3.And(
                ch.Z == 0, zbool(r == b'')))
            return
        ctx.prove('a piece for each sector', zbool(to_z3(q.n) == ch.Z))
        k = ctx.fresh('k', I)
        ctx.assume(z3.And(k >= 0, k < ch.Z))
        v = it.resolve(q.at(k))
        at = base + times(ch.c(k), ss)
        n = ss if not sized else z3.If(td.left(k) < ss, td.left(k), ss)
        ctx.prove('the bytes of the sector', isinstance(v, Opaque) and
                  v.term == piece(m.fid, at, at + n))
        frame(ctx, ch, d, marked)
        ctx.cover('given')
    return run


def frame(ctx, ch, d, marked):
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < ch.nseen))
    s = d.attrs['seen']
    ctx.prove('the same list of sectors in use', s is ch.seen)
    ctx.prove('sectors of the chain are in use', to_z3(
        s.content.at(j)) == (ch.marked(ch.Z, j) if marked else ch.seen0(j)))


def noop(it, f, args, kw):
    return None


def sector(ctx):
    ss = ctx.fresh('sec_size', I)
    ctx.assume(ss > 0)
    return ss


for _s in (0, 1):
    for _m in (0, 1):
        contract('C21', '_get_stream, %s, %s' % (
            'of a size' if _s else 'of any size',
            'marked' if _m else 'not marked'), [C + '_get_stream'],
            covers=('given', 'error'), callees=[M + 'fprintf'],
            assumes=(A_INT, A_MEM, A_LEN))(get_stream(_s, _m))


@contract('C21', '_locate_stream', [C + '_locate_stream'],
          timeout=300, covers=('whole', 'fragments', 'error'), callees=[M + 'dump_list'],
          assumes=(A_INT, A_MEM, A_LEN))
def locate_stream(ctx):
    ctx.ghost['linear'] = True
    it = Interp({M + 'dump_list': noop})
    ss = sector(ctx)
    ch = Chain(it)
    base = ctx.fresh('base', I)
    m = mem('given')
    ch.mark = ctx.fresh('seen_id', I)
    size = ctx.fresh('size', I)
    ctx.assume(z3.And(base >= 0, ch.mark > 0, size >= 0))
    fr = Fragments(it, ch, base, ss)
    it.theories += [ch, fr]
    d = ch.doc(it)
    r, e = call_or_exc(it, it.getattr(d, '_locate_stream'), [
        m, base, ch.table(), ss, ch.first, size, 'a stream', ch.mark])
    need = divz(size + ss - 1, ss)
    good = [('inside', ch.inside()), ('ended', ch.ended()),
            ('unused', ch.unused()), ('distinct', ch.distinct()),
            ('not empty', ch.Z > 0), ('of the size', ch.Z == need)]
    if e is not None:
        ctx.cover('error')
        ctx.prove('an error only if the chain is bad (%s)' % exc_name(e),
                  z3.Not(z3.And([g for _, g in good])))
        return
    for nm, g in good:
        ctx.prove('given only if the chain is ' + nm, g)
    frame(ctx, ch, d, True)
    r = [it.resolve(x) for x in iter_seq(it, it.resolve(r)).items]
    ctx.prove('bytes, position and length', len(r) == 3)
    ctx.prove('the length', to_z3(r[2]) == size)
    k = ctx.fresh('k', I)
    ctx.assume(z3.And(k >= 0, k < ch.Z))
    q = join_seq(it, r[0])
    if q is None:
        ctx.prove('the file itself', r[0] is m)
        ctx.prove('from the first sector', to_z3(r[1]) == base + times(
            ch.c(0), ss))
        ctx.lemma('no sector out of order', fr.F.cnt(ch.Z) == 0)
        ctx.lemma('adjacent from the first on', fr.adjacent(ch.Z))
        ctx.prove('where the chain is in order', ch.c(k) == ch.c(0) + k)
        ctx.cover('whole')
        return
    ctx.prove('a piece for each run', zbool(to_z3(q.n) == fr.n))
    ctx.prove('from its start', to_z3(r[1]) == 0)
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < fr.n))
    v = it.resolve(q.at(j))
    a, b = fr.P(j), fr.P(j + 1)
    ctx.prove('runs make up the chain', z3.And(
        fr.P(z3.IntVal(0)) == 0, fr.P(fr.n) == ch.Z, a < b))
    ctx.prove('a run is in order', z3.Implies(z3.And(k >= a, k < b), ch.c(
        k) == ch.c(a) + k - a))
    if ctx.branch(j < fr.F.cnt(ch.Z)):
        cut = fr.F.sel(j)
        ctx.lemma('runs before a cut', z3.And(
            fr.F.cnt(cut) == j, cut >= 1, cut < ch.Z, fr.start(cut) == a))
    else:
        ctx.lemma('the last run', z3.And(j == fr.F.cnt(ch.Z), fr.start(
            ch.Z) == a))
    ctx.prove('the bytes of the run', isinstance(v, Opaque) and
              v.term == piece(m.fid, base + times(ch.c(a), ss),
                              base + times(ch.c(b - 1), ss) + ss))
    ctx.cover('fragments')


class Node(object):
    """An entry of the directory."""
    name = 'DirNode'

    def __init__(self, dir_, i):
        self.dir, self.i = dir_, i

    def getattr(self, it, o, name):
        d, i = self.dir, self.i
        if name == 'name':
            return Opaque(d.name(i), 'str')
        if name == 'children':
            return SeqObj('list', Sym(d.nkids(i), lambda k: d.kid(
                i, to_z3(k))))
        if name in ('etype', 'first_SID', 'tot_size', 'DID'):
            return getattr(d, name)(i)
        if name == 'dump':
            return Builtin('dump', lambda it, a, k: None)
        raise Unsupported('DirNode.%s' % name)


class Directory(object):
    def __init__(self, ctx):
        self.n = ctx.fresh('nentries', I)
        self.name = ctx.fresh_fn('entryname', [I], Obj)
        self.nkids = ctx.fresh_fn('nkids', [I], I)
        self.kid = ctx.fresh_fn('kid', [I, I], I)
        self.etype = ctx.fresh_fn('etype', [I], I)
        self.first_SID = ctx.fresh_fn('first', [I], I)
        self.tot_size = ctx.fresh_fn('tot_size', [I], I)
        self.DID = lambda i: i
        i, k = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'k')
        n = self.name(i)
        ctx.fact(z3.ForAll([i], _tag(n) == TAGS['str'], patterns=[n]))
        ctx.fact(z3.ForAll([i], self.nkids(i) >= 0,
                           patterns=[self.nkids(i)]))
        ctx.assume(z3.ForAll([i, k], z3.Implies(z3.And(
            i >= 0, i < self.n, k >= 0, k < self.nkids(i)), z3.And(
                self.kid(i, k) >= 0, self.kid(i, k) < self.n)),
            patterns=[self.kid(i, k)]))

    def node(self, i):
        return InstV(Node(self, to_z3(i)))

    def nodes(self):
        return SeqObj('list', Sym(self.n, self.node))


def lower(t):
    return uf('str_lower_0', Obj, Obj)(t)


@contract('C21', '_dir_search', [C + '_dir_search'],
          covers=('stream', 'storage', 'none', 'error'),
          callees=[C + '_dir_search'],
          assumes=(A_INT, 'lower() of the standard library is a function; '
                   'the entries of a directory name entries that exist'))
def dir_search(ctx):
    import channelpack.xlrd.compdoc as m
    d = Directory(ctx)
    calls = []

    def again(it, f, args, kw):
        if not calls:           # the call under contract
            calls.append(None)
            return NotImplemented
        v = dict(zip(('self', 'path', 'storage_DID'), args))
        v.update(kw)
        calls.append(v)
        return found
    found = InstV(Node(d, ctx.fresh('deeper', I)))
    it = Interp({C + '_dir_search': again})
    o = InstV(it.wrap(m.CompDoc))
    o.attrs['dirlist'] = d.nodes()
    n = ctx.fresh('npath', I)
    P = ctx.fresh_fn('component', [I], Obj)
    ctx.assume(n >= 1)
    k = z3.FreshConst(I, 'k')
    ctx.fact(z3.ForAll([k], _tag(P(k)) == TAGS['str'], patterns=[P(k)]))
    path = SeqObj('list', Sym(n, lambda k: Opaque(P(to_z3(k)), 'str')))
    s = ctx.fresh('storage', I)
    ctx.assume(z3.And(s >= 0, s < d.n))
    is_ = lambda k: lower(d.name(d.kid(s, k))) == lower(P(0))
    r, e = call_or_exc(it, it.getattr(o, '_dir_search'), [path, s])
    w = ctx.fresh('w', I)
    k = z3.FreshConst(I, 'k')
    none = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d.nkids(s)),
                                     z3.Not(is_(k))))
    first = z3.And(w >= 0, w < d.nkids(s), is_(w), z3.ForAll(
        [k], z3.Implies(z3.And(k >= 0, k < w), z3.Not(is_(k)))))
    if not ctx.branch(first):
        # (w arbitrary: with none, or another w is the first)
        if e is None and it.resolve(r) is None:
            ctx.prove('None only if there is none', none)
            ctx.cover('none')
        else:
            ctx.prove('nothing found where there is none', z3.Not(none))
        return
    kid = d.kid(s, w)
    et = d.etype(kid)
    bad = z3.And(et != 2, z3.Or(et != 1, n == 1))
    if e is not None:
        ctx.prove('an error only if it is no stream (%s)' % exc_name(e), bad)
        ctx.cover('error')
        return
    ctx.prove('an error if it is no stream', z3.Not(bad))
    r = it.resolve(r)
    ctx.prove('found', r is not None)
    if r is None:
        return
    if ctx.branch(et == 2):
        ctx.prove('the stream of that name', isinstance(
            r.cls, Node) and r.cls.i == kid)
        ctx.cover('stream')
        return
    ctx.prove('looked up in the storage', len(calls) == 2 and r is found)
    if len(calls) == 2:
        v = calls[1]
        q = iter_seq(it, v['path'])
        ctx.prove('the rest of the path', zbool(to_z3(q.n) == n - 1))
        j = ctx.fresh('j', I)
        ctx.assume(z3.And(j >= 0, j < n - 1))
        ctx.prove('its components', it.resolve(q.at(j)).term == P(j + 1))
        ctx.prove('in the storage', to_z3(it.resolve(
            v['storage_DID'])) == kid)
        ctx.prove('of the same document', v['self'] is o)
    ctx.cover('storage')


NAMES = {'_get_stream': ['self', 'mem', 'base', 'sat', 'sec_size',
                         'start_sid', 'size', 'name', 'seen_id'],
         '_locate_stream': ['self', 'mem', 'base', 'sat', 'sec_size',
                            'start_sid', 'expected_stream_size', 'qname',
                            'seen_id']}


def named(fname):
    """get_named_stream and locate_named_stream."""
    def run(ctx):
        import channelpack.xlrd.compdoc as m
        d = Directory(ctx)
        calls = []
        found = ctx.decide([('entry', 'none'), ('entry', 'found')])[1]
        i = ctx.fresh('entry', I)
        ctx.assume(z3.And(i >= 0, i < d.n))
        node = d.node(i)

        def search(it, f, args, kw):
            v = dict(zip(('self', 'path', 'storage_DID'), args))
            v.update(kw)
            calls.append(('search', v))
            return node if found == 'found' else None

        def stream(which):
            def call(it, f, args, kw):
                v = dict(zip(NAMES[which], args))
                v.update(kw)
                r = Opaque(ctx.fresh('stream', Obj), 'bytes')
                calls.append((which, v, r))
                return r
            return call
        it = Interp({C + '_dir_search': search, M + 'dump_list': noop,
                     C + '_get_stream': stream('_get_stream'),
                     C + '_locate_stream': stream('_locate_stream')})
        o = InstV(it.wrap(m.CompDoc))
        at = {'mem': mem('file'), 'SSCS': mem('short'),
              'SAT': SeqObj('list', Sym(ctx.fresh('nsat', I), lambda k: k)),
              'SSAT': SeqObj('list', Sym(ctx.fresh('nssat', I),
                                         lambda k: k))}
        for nm in ('sec_size', 'short_sec_size', 'min_size_std_stream',
                   'mem_data_len'):
            at[nm] = ctx.fresh(nm, I)
        o.attrs.update(at, dirlist=d.nodes(), DEBUG=0, logfile=None)
        t = ctx.fresh('qname', Obj)
        ctx.assume(_tag(t) == TAGS['str'])
        r, e = call_or_exc(it, it.getattr(o, fname), [Opaque(t, 'str')])
        size = d.tot_size(i)
        locate = fname == 'locate_named_stream'
        if e is not None:
            ctx.prove('an error only for a stream longer than the file',
                      z3.And(found == 'found', locate,
                             size > at['mem_data_len']))
            ctx.cover('error' if locate else 'none')
            return
        ss = [c for c in calls if c[0] == 'search']
        ctx.prove('looked up', len(ss) == 1 and ss[0][1]['self'] is o)
        ctx.prove('from the root', ss[0][1].get('storage_DID', 0) == 0)
        ps = ss[0][1]['path']
        ctx.prove('by the parts of the name', isinstance(
            ps, (SeqObj, Opaque)) and parts_of_name(it, ps, t))
        r = it.resolve(r)
        used = [c for c in calls if c[0] != 'search']
        if found == 'none':
            if locate:
                x = [it.resolve(y) for y in iter_seq(it, r).items]
                ctx.prove('nothing located', x == [None, 0, 0])
            else:
                ctx.prove('nothing given', r is None)
            ctx.prove('nothing read', not used)
            ctx.cover('none')
            return
        if locate:
            ctx.prove('no longer than the file', size <= at['mem_data_len'])
        std = ctx.branch(size >= at['min_size_std_stream'])
        ctx.prove('read once', len(used) == 1)
        which, v, got = used[0]
        want = '_locate_stream' if locate and std else '_get_stream'
        ctx.prove('read as it is stored', which == want)
        pre = '' if std else 'short_'
        ctx.prove('of the document', v['self'] is o)
        ctx.prove('bytes', v['mem'] is at['mem' if std else 'SSCS'])
        ctx.prove('table', v['sat'] is at['SAT' if std else 'SSAT'])
        for a, b in (('base', 512 if std else 0),
                     ('sec_size', at[pre + 'sec_size']),
                     ('start_sid', d.first_SID(i)),
                     ('expected_stream_size' if which == '_locate_stream'
                      else 'size', size)):
            ctx.prove(a, zbool(to_z3(it.resolve(v[a])) == b))
        sid = it.resolve(v.get('seen_id'))
        if std:
            ctx.prove('mark', sid is not None)
            ctx.prove('marked as none of the tables', to_z3(sid) > 5)
        else:
            ctx.prove('not marked', sid is None)
        if locate and not std:
            x = [it.resolve(y) for y in iter_seq(it, r).items]
            ctx.prove('all of the stream', len(x) == 3 and x[0] is got and
                      x[1] == 0)
            ctx.prove('its length', to_z3(x[2]) == size)
        else:
            ctx.prove('what was read', r is got)
        ctx.cover('standard' if std else 'short')
    return run


def parts_of_name(it, ps, t):
    from pydv import models
    q = iter_seq(it, it.resolve(models.str_method(
        it, Opaque(t, 'str'), 'split')(it, ['/'], {})))
    p = iter_seq(it, ps)
    k = z3.FreshConst(I, 'k')
    return z3.And(zbool(to_z3(p.n) == to_z3(q.n)), z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < to_z3(q.n)), it.resolve(p.at(k)).term ==
        it.resolve(q.at(k)).term)))


contract('C21', 'get_named_stream', [C + 'get_named_stream'],
         covers=('standard', 'short', 'none'),
         callees=[C + '_dir_search', C + '_get_stream'],
         assumes=(A_INT,))(named('get_named_stream'))
contract('C21', 'locate_named_stream', [C + 'locate_named_stream'],
         covers=('standard', 'short', 'none', 'error'),
         callees=[C + '_dir_search', C + '_get_stream',
                  C + '_locate_stream', M + 'dump_list'],
         assumes=(A_INT,))(named('locate_named_stream'))
