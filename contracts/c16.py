"""C16: spreadsheet addresses and column numbers."""
import z3

from pydv.core import (I, B, Conc, Opaque, PyRaise, SeqObj, StrV, Sym,
                       TupV, Unsupported, Value, cur, is_int, to_z3, zbool)
from pydv.interp import Builtin, Interp, NTV
from pydv import models
from pydv.strings import horner, decimal_value
from . import contract
from .theory import Theory
from .packs import A_INT, call_or_exc, expect, exc_name

XL = 'channelpack.readxl.'
A_ASCII = 'str.upper, str.split and re.match are modelled for ASCII text'


def letter(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


def value(c):
    """A is 1, Z is 26, case ignored."""
    return z3.If(c >= 97, c - 96, c - 64)


def word(ctx, tag='w'):
    """Any non-empty word of letters: (StrV, n, codes)."""
    n = ctx.fresh('n_' + tag, I)
    c = ctx.fresh_fn(tag, [I], I)
    ctx.assume(n >= 1)
    letters(ctx, n, c)
    return StrV(Sym(n, lambda j: c(to_z3(j)))), n, c


def letters(ctx, n, c):
    i = z3.FreshConst(I, 'i')
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n),
                                         letter(c(i)))))


class Base26(Theory):
    """The bijective base-26 number of the first i letters of a word, H, and
    the same number times 26 ** (n - i), T."""

    def __init__(self, n, c, tag):
        ctx = cur()
        self.n, self.c = n, c
        self.H = horner(26, n, lambda i: value(c(i)), ('b26', tag))
        self.p = models.pow_const(26, z3.IntVal(0)) is not None and (
            lambda e: models.uf('pow_26', I, I)(e))
        self.T = ctx.fresh_fn('T', [I], I)
        i = z3.FreshConst(I, 'i')
        ctx.fact(self.T(z3.IntVal(0)) == 0)
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), self.T(
            i + 1) == self.T(i) + value(c(i)) * self.p(n - 1 - i)),
            patterns=[self.T(i + 1)]))

    def lemma(self, ctx):
        n, c, p = self.n, self.c, self.p
        ctx.induct('lemma: weighted sum is the base-26 number',
                   lambda i: self.T(i) == self.H(i) * p(n - i), n,
                   lambda i: [p(n - i) == 26 * p(n - 1 - i),
                              self.H(i + 1) == 26 * self.H(i) + value(c(i)),
                              self.T(i + 1) == self.T(i) + value(c(i)) *
                              p(n - 1 - i)])

    def terms(self):
        return [('number', 'int', self.H), ('weighted', 'int', self.T)]

    def unfold(self, i):
        return z3.Implies(z3.And(i >= 0, i < self.n), z3.And(
            self.H(i + 1) == 26 * self.H(i) + value(self.c(i)),
            self.T(i + 1) == self.T(i) + value(self.c(i)) *
            self.p(self.n - 1 - i)))


@contract('C16', 'letter2num', [XL + 'letter2num'],
          covers=('zero based', 'one based'), assumes=[A_INT, A_ASCII])
def letter2num(ctx):
    it = Interp({})
    ctx.ghost['nonlinear'] = True
    w, n, c = word(ctx)
    th = Base26(n, c, 'w')
    th.lemma(ctx)
    it.theories = [th]
    zb = ctx.decide([('zbase', None), ('zbase', True), ('zbase', False)])[1]
    r, e = call_or_exc(it, it.find_func(XL + 'letter2num'), [w],
                       {} if zb is None else {'zbase': zb})
    if not expect(ctx, e, 'letter2num'):
        return
    ctx.assume(th.p(z3.IntVal(0)) == 1)
    ctx.prove('bijective base 26', to_z3(r) == th.H(n) - (
        1 if zb is not False else 0))
    ctx.cover('one based' if zb is False else 'zero based')


def c_letter2num(it, f, args, kw):
    """Contract of letter2num, for words of letters."""
    s = it.resolve(args[0])
    zb = kw.get('zbase', args[1] if len(args) > 1 else True)
    ctx = cur()
    if not isinstance(s, StrV) or zb not in (True, False):
        return NotImplemented
    q = s.content
    i = z3.FreshConst(I, 'i')
    pre = z3.And(to_z3(q.n) >= 1, z3.ForAll([i], z3.Implies(z3.And(
        i >= 0, i < to_z3(q.n)), letter(to_z3(q.at(i))))))
    if not ctx.entails(pre):
        raise Unsupported('letter2num of other than letters')
    j = z3.Const('canon!w', I)
    key = ('b26c', z3.simplify(to_z3(q.n)).sexpr(), z3.simplify(
        to_z3(q.at(j))).sexpr())
    H = horner(26, to_z3(q.n), lambda k: value(to_z3(q.at(k))), key)
    return H(to_z3(q.n)) - (1 if zb else 0)


CON = {XL + 'letter2num': c_letter2num}


def prove_number(ctx, name, q, want, known=None):
    """The word q of upper case letters has this number."""
    n = to_z3(q.n)
    ctx.prove(name + ': not empty', n >= 1)
    i = ctx.fresh('i', I)
    ctx.assume(z3.And(i >= 0, i < n))
    x = to_z3(q.at(i))
    ctx.prove(name + ': upper case letters', z3.And(x >= 65, x <= 90))
    H = horner(26, n, lambda k: value(to_z3(q.at(k))), ('post', name))
    if known is not None:
        known(H)
    ctx.prove(name + ': converts back', H(n) == want)


@contract('C16', 'xlsx.cell_name_to_rowx_colx',
          ['channelpack.xlrd.xlsx.cell_name_to_rowx_colx'],
          assumes=[A_INT, A_ASCII])
def cell_name(ctx):
    """For addresses within the sheet limits, row number without leading
    zero (what xlsx files hold)."""
    it = Interp({})
    s, a, b, c = address(ctx)
    ctx.assume(c(a) != 48)
    H = horner(26, a, lambda i: value(c(i)), 'addr')
    ctx.assume(H(a) <= 16384)
    ctx.induct('lemma: numbers are not negative', lambda i: H(i) >= 0, a,
               lambda i: [H(i + 1) == 26 * H(i) + value(c(i))])
    ctx.lemma('at least one', z3.Implies(
        H(a) == 26 * H(a - 1) + value(c(a - 1)), H(a) >= 1))
    ctx.assume(H(a - 1 + 1) == 26 * H(a - 1) + value(c(a - 1)))
    D = horner(10, b, lambda i: c(a + i) - 48, 'rownum')

    class Th(Theory):
        def terms(self):
            return [('number', 'int', H)]

        def unfold(self, i):
            return z3.Implies(z3.And(i >= 0, i < a), H(
                i + 1) == 26 * H(i) + value(c(i)))
    it.theories = [Th()]
    r, e = call_or_exc(it, it.find_func(
        'channelpack.xlrd.xlsx.cell_name_to_rowx_colx'), [s])
    if not expect(ctx, e, 'cell_name_to_rowx_colx'):
        return
    for key, h in ctx.memo.get('horner', []):
        if key[0] == 'dec':
            ctx.induct('lemma: number of the digits', lambda i, h=h:
                       h(i) == D(i), b, lambda i, h=h: [
                           D(i + 1) == 10 * D(i) + (c(a + i) - 48)])
    r = it.resolve(r)
    ok = isinstance(r, tuple) and len(r) == 2 and all(
        is_int(it.resolve(x)) for x in r)
    ctx.prove('two numbers', ok)
    if not ok:
        return
    ctx.prove('row', to_z3(it.resolve(r[0])) == D(b) - 1)
    ctx.prove('column', to_z3(it.resolve(r[1])) == H(a) - 1)
    ctx.cover('post')


@contract('C16', 'formula.colname', ['channelpack.xlrd.formula.colname'],
          covers=('post',),
          callees=['channelpack.xlrd.formula.colname'], assumes=[A_INT])
def f_colname(ctx):
    """By induction on the number: the recursive call is used through this
    contract, for a smaller number >= 0."""
    col = ctx.fresh('colx', I)
    ctx.assume(col >= 0)
    made = {}

    def c_colname(it, f, args, kw):
        a = to_z3(args[0])
        if it.depth == 0 or not made.get('top'):
            made['top'] = True
            return NotImplemented
        ctx.prove('recursion: smaller column number', z3.And(
            a >= 0, a < col))
        n = ctx.fresh('n_rec', I)
        c = ctx.fresh_fn('rec', [I], I)
        i = z3.FreshConst(I, 'i')
        ctx.assume(n >= 1)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            c(i) >= 65, c(i) <= 90)), patterns=[c(i)]))
        H = horner(26, n, lambda k: value(c(k)), 'rec')
        ctx.assume(H(n) == a + 1)
        made['rec'] = (n, H, c)
        return StrV(Sym(n, lambda j: c(to_z3(j))))
    it = Interp({'channelpack.xlrd.formula.colname': c_colname})
    th = Shrink26(col)
    it.theories = [th]
    r, e = call_or_exc(it, it.find_func('channelpack.xlrd.formula.colname'),
                       [col])
    if not expect(ctx, e, 'colname'):
        return
    r = models.as_strv(it.resolve(r))
    ctx.prove('a string', r is not None)
    if r is None:
        return
    q = r.content

    def known(H):
        if 'rec' not in made and isinstance(q, Sym):
            back(ctx, th, H, q)
            return
        if 'rec' not in made:
            return
        n, R, c = made['rec']
        ctx.induct('lemma: number of the prefix', lambda i: z3.Implies(
            i <= n, H(i) == R(i)), n, lambda i: [
                H(i + 1) == 26 * H(i) + value(to_z3(q.at(i))),
                R(i + 1) == 26 * R(i) + value(c(i))])
        ctx.assume(z3.Implies(to_z3(q.n) > n, H(n + 1) == 26 * H(n) + value(
            to_z3(q.at(n)))))
    prove_number(ctx, 'colname', q, col + 1, known)
    ctx.cover('post')


class Shrink26(Theory):
    """The letters of a number, last one first: Q(k) is what is left after k
    letters (-1 when nothing is), letter k is Q(k) % 26."""

    def __init__(self, col):
        ctx = cur()
        self.Q = ctx.fresh_fn('left', [I], I)
        i = z3.FreshConst(I, 'i')
        ctx.fact(self.Q(z3.IntVal(0)) == col)
        ctx.fact(z3.ForAll([i], z3.Implies(
            i >= 0, self.Q(i + 1) == self.Q(i) / 26 - 1),
            patterns=[self.Q(i + 1)]))

    def unfold(self, i):
        return z3.Implies(i >= 0, self.Q(i + 1) == self.Q(i) / 26 - 1)

    def code(self, k):
        return 65 + self.Q(k) % 26

    def terms(self):
        return [('left', 'int', self.Q)]

    def texts(self):
        def front(st, v):
            j = z3.FreshConst(I, 'j')
            q = v.content
            return z3.And(to_z3(q.n) == st.it, z3.ForAll(
                [j], z3.Implies(z3.And(j >= 0, j < st.it), to_z3(
                    q.at(j)) == self.code(st.it - 1 - j))))
        return [('letters so far', front)]


def back(ctx, th, H, q):
    n = to_z3(q.n)
    ctx.lemma('nothing is left after the letters', th.Q(n) == -1)
    ctx.induct('lemma: number of the first letters', lambda i: z3.Implies(
        i <= n, H(i) == th.Q(n - i) + 1), n, lambda i: [
            H(i + 1) == 26 * H(i) + value(to_z3(q.at(i))),
            th.unfold(n - i - 1)])


@contract('C16', 'book.colname', ['channelpack.xlrd.book.colname'],
          assumes=[A_INT])
def b_colname(ctx):
    col = ctx.fresh('colx', I)
    ctx.assume(col >= 0)
    it = Interp({})
    th = Shrink26(col)
    it.theories = [th]
    r, e = call_or_exc(it, it.find_func('channelpack.xlrd.book.colname'),
                       [col])
    if not expect(ctx, e, 'colname'):
        return
    r = models.as_strv(it.resolve(r))
    ok = r is not None
    ctx.prove('a string', ok)
    if not ok:
        return
    q = r.content
    prove_number(ctx, 'colname', q, col + 1,
                 lambda H: back(ctx, th, H, q) if isinstance(q, Sym)
                 else None)
    ctx.cover('post')


@contract('C16', 'formula.cellname', ['channelpack.xlrd.formula.cellname'],
          callees=['channelpack.xlrd.formula.colname'], assumes=[A_INT])
def cellname(ctx):
    row, col = ctx.fresh('row', I), ctx.fresh('col', I)
    ctx.assume(z3.And(row >= 0, col >= 0))
    w, n, c = word(ctx, 'name')
    got = []

    def c_colname(it, f, args, kw):
        got.append(args[0])
        return w
    it = Interp({'channelpack.xlrd.formula.colname': c_colname})
    r, e = call_or_exc(it, it.find_func('channelpack.xlrd.formula.cellname'),
                       [row, col])
    if not expect(ctx, e, 'cellname'):
        return
    r = models.as_strv(it.resolve(r))
    ok = r is not None and len(got) == 1
    ctx.prove('made of the column name', ok)
    if not ok:
        return
    ctx.prove('name of that column', zbool(to_z3(got[0]) == col))
    from pydv.strings import decimal_text
    d = decimal_text(z3.simplify(row + 1)).content
    q = r.content
    ctx.prove('length', to_z3(q.n) == n + to_z3(d.n))
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < to_z3(q.n)))
    ctx.prove('column letters, then the row number from 1', to_z3(
        q.at(j)) == z3.If(j < n, c(j), to_z3(d.at(j - n))))
    ctx.cover('post')


def address(ctx, digits=True):
    """Letters followed by digits: the text and its parts."""
    a, b = ctx.fresh('letters', I), ctx.fresh('digits', I)
    c = ctx.fresh_fn('addr', [I], I)
    ctx.assume(z3.And(a >= 1, b >= (1 if digits else 0)))
    if not digits:
        ctx.assume(b == 0)
    i = z3.FreshConst(I, 'i')
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a),
                                         letter(c(i)))))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= a, i < a + b), z3.And(
        c(i) >= 48, c(i) <= 57))))
    return StrV(Sym(a + b, lambda j: c(to_z3(j)))), a, b, c


@contract('C16', 'cellreference', [XL + 'cellreference'],
          callees=[XL + 'letter2num'],
          covers=('address', 'refused', 'column only', 'numbers'),
          assumes=[A_INT, A_ASCII])
def cellreference(ctx):
    it = Interp(CON)
    f = it.find_func(XL + 'cellreference')
    k = ctx.decide([('k', x) for x in ('addr', 'col', 'numbers')])[1]
    row, col = ctx.fresh('row', I), ctx.fresh('col', I)
    if k == 'numbers':
        x = ctx.decide([('x', x) for x in (None, '', 'absent')])[1]
        kw = {'row': row, 'col': col}
        if x != 'absent':
            kw['xladdr'] = x
        r, e = call_or_exc(it, f, [], kw)
        want = (row, col)
    else:
        s, a, b, c = address(ctx, k == 'addr')
        H = horner(26, a, lambda i: value(c(i)), 'addr')
        r, e = call_or_exc(it, f, [], {'xladdr': s} if k == 'addr' else {
            'row': row, 'xladdr': s})
        D = horner(10, b, lambda i: c(a + i) - 48, 'rownum')
        # the parts of the text found by the function are these parts
        for key, h in ctx.memo.get('horner', []):
            if key == 'addr' or key == 'rownum':
                continue
            if key[0] == 'b26c':
                ctx.induct('lemma: number of the letters', lambda i, h=h:
                           h(i) == H(i), a, lambda i, h=h: [
                               H(i + 1) == 26 * H(i) + value(c(i))])
            if key[0] == 'dec':
                ctx.induct('lemma: number of the digits', lambda i, h=h:
                           h(i) == D(i), b, lambda i, h=h: [
                               D(i + 1) == 10 * D(i) + (c(a + i) - 48)])
        if k == 'addr' and e is not None:
            ctx.prove('refused with ValueError: row number below one',
                      z3.And(exc_name(e) == 'ValueError', D(b) < 1))
            ctx.cover('refused')
            return
        want = (D(b) - 1 if k == 'addr' else row, H(a) - 1)
        if k == 'addr':
            ctx.prove('row numbers below one are refused', z3.Or(
                e is not None, D(b) >= 1))
    if not expect(ctx, e, 'cellreference'):
        return
    r = it.resolve(r)
    ok = isinstance(r, NTV) and len(r.values) == 2
    ctx.prove('a cell reference', ok)
    if not ok:
        return
    ctx.prove('row', to_z3(r.values[0]) == want[0])
    ctx.prove('column', to_z3(r.values[1]) == want[1])
    ctx.prove('names of the parts', r.cls.fields == ('row', 'col'))
    ctx.cover({'addr': 'address', 'col': 'column only',
               'numbers': 'numbers'}[k])


class PieceV(Value):
    """One item of a column selection: a word, two words with a colon, or
    blank; with or without white space around it."""

    def __init__(self, kind, words, padded=True):
        self.kind, self.words, self.padded = kind, words, padded

    def truth(self, interp):
        if self.padded and self.kind == 'blank':
            raise Unsupported('truth of white space')
        return self.kind != 'blank'

    def contains(self, interp, x):
        if x == ':':
            return self.kind == 'range'
        raise Unsupported('in item')

    def pygetattr(self, interp, name):
        if name == 'strip':
            def f(it, a, k):
                if a or k:
                    raise Unsupported('strip')
                if self.kind == 'blank':
                    return ''
                if self.kind == 'one':
                    return self.words[0]
                return PieceV(self.kind, self.words, False)
            return (Builtin('strip', f),)
        if name == 'split' and not self.padded:
            def f(it, a, k):
                if a != [':'] or k:
                    raise Unsupported('split')
                return SeqObj('list', Conc(self.words))
            return (Builtin('split', f),)
        if name == 'partition' and not self.padded and self.kind == 'range':
            return (Builtin('partition', lambda it, a, k: (
                self.words[0], ':', self.words[1])),)
        raise Unsupported('str.%s of an item' % name)


class SelectionV(Value):
    """The text of a column selection: items joined by commas."""

    def __init__(self, pieces):
        self.pieces = pieces

    def truth(self, interp):
        return True

    def pygetattr(self, interp, name):
        if name == 'split':
            def f(it, a, k):
                if a != [','] or k:
                    raise Unsupported('split')
                return SeqObj('list', Conc(self.pieces))
            return (Builtin('split', f),)
        raise Unsupported('str.%s of a selection' % name)


A_SPLIT = ('str.split(sep) is the inverse of joining by sep, str.strip '
           'removes the white space around an item')


def exactly(ctx, it, r, segs):
    """r is a sorted list of exactly the numbers of the segments
    [(lo, hi)]."""
    r = it.resolve(r)
    ok = isinstance(r, SeqObj) and r.kind == 'list'
    ctx.prove('a list', ok)
    if not ok:
        return
    q = r.content
    n = to_z3(q.n)
    size = [z3.If(hi >= lo, hi - lo + 1, 0) for lo, hi in segs]
    total = z3.IntVal(0)
    for s in size:
        total = total + s
    ctx.prove('as many as written', n == total)
    i, j = ctx.fresh('i', I), ctx.fresh('j', I)
    ctx.solver.push()
    ctx.solver.add(i >= 0, i < j, j < n)
    if not segs:
        ctx.solver.pop()
        return
    vi, vj = to_z3(q.at(i)), to_z3(q.at(j))
    ctx.prove('sorted', vi <= vj)
    ctx.prove('only columns written', z3.Or(*[z3.And(
        vj >= lo, vj <= hi) for lo, hi in segs]))
    ctx.solver.pop()
    ctx.solver.push()
    ctx.solver.add(i >= 0, i < n)
    ctx.prove('only columns written', z3.Or(*[z3.And(
        vi >= lo, vi <= hi) for lo, hi in segs]))
    ctx.solver.pop()
    # every column written is there: at the place the sort gives it
    if isinstance(q, Sym) and 'perm' in q.tags:
        to = q.tags['perm'][1]
    else:
        to = None
    off = z3.IntVal(0)
    for k, (lo, hi) in enumerate(segs):
        x = ctx.fresh('x', I)
        ctx.solver.push()
        ctx.solver.add(x >= lo, x <= hi)
        if to is not None:
            w = to(off + (x - lo))
            ctx.prove('every column written', z3.And(
                w >= 0, w < n, to_z3(q.at(w)) == x))
        elif isinstance(q, Conc):
            ctx.prove('every column written', z3.Or(*[
                to_z3(y) == x for y in q.items]))
        else:
            w = z3.FreshConst(I, 'w')
            ctx.prove('every column written', z3.Exists([w], z3.And(
                w >= 0, w < n, to_z3(q.at(w)) == x)))
        ctx.solver.pop()
        off = off + size[k]


def usecols_text(kinds):
    def run(ctx):
        it = Interp(CON)
        pieces, segs = [], []
        for k, kind in enumerate(kinds):
            ws = [word(ctx, 'w%d%s' % (k, t)) for t in (
                'ab' if kind == 'range' else 'a' if kind == 'one' else '')]
            pieces.append(PieceV(kind, [w[0] for w in ws]))
            nums = [c_letter2num(it, None, [w[0]], {}) for w in ws]
            if nums:
                segs.append((nums[0], nums[-1]))
        r, e = call_or_exc(it, it.find_func(XL + 'normalize_usecols'),
                           [SelectionV(pieces)])
        if not expect(ctx, e, 'normalize_usecols'):
            return
        exactly(ctx, it, r, segs)
        ctx.cover('post')
    return run


for _ks in ([], ['one'], ['range'], ['blank'], ['one', 'one'],
            ['range', 'one'], ['one', 'range'], ['range', 'range'],
            ['range', 'blank', 'one'], ['one', 'range', 'one']):
    contract('C16', 'normalize_usecols (text: %s)' % (
        ', '.join(_ks) or 'no item'), [XL + 'normalize_usecols'],
        callees=[XL + 'letter2num'], bound='the items %s; words and ranges '
        'of any length' % (_ks,), assumes=[A_INT, A_ASCII, A_SPLIT])(
            usecols_text(_ks))


@contract('C16', 'normalize_usecols (sequence)', [XL + 'normalize_usecols'],
          assumes=[A_INT])
def usecols_seq(ctx):
    it = Interp(CON)
    n = ctx.fresh('n', I)
    ctx.assume(n >= 0)
    c = ctx.fresh_fn('col', [I], I)
    kind = ctx.decide([('kind', 'list'), ('kind', 'tuple')])[1]
    q = Sym(n, lambda j: c(to_z3(j)))
    r, e = call_or_exc(it, it.find_func(XL + 'normalize_usecols'), [
        SeqObj('list', q) if kind == 'list' else TupV(q)])
    if not expect(ctx, e, 'normalize_usecols'):
        return
    r = it.resolve(r)
    ok = isinstance(r, SeqObj) and isinstance(r.content, Sym) and \
        'perm' in r.content.tags
    if not ok:
        raise Unsupported('not made by sorted')
    q = r.content
    p, to = q.tags['perm']
    ctx.prove('as many', to_z3(q.n) == n)
    i, j = ctx.fresh('i', I), ctx.fresh('j', I)
    ctx.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
    ctx.prove('sorted', z3.Implies(i <= j, to_z3(q.at(i)) <= to_z3(
        q.at(j))))
    ctx.prove('one of the columns', to_z3(q.at(i)) == c(p(i)))
    ctx.prove('every column', z3.And(to(j) >= 0, to(j) < n, to_z3(q.at(
        to(j))) == c(j)))
    ctx.cover('post')
