"""Assumed contracts on regular expressions and number texts, for strings as
sequences of ASCII codes of any length."""
import ast
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:         # pragma: no cover
    import sre_parse
    import sre_constants as sre

import z3

from .core import (I, B, Obj, Conc, Sym, StrV, Value, SliceV, Unsupported,
                   Opaque, is_z3, is_int, to_z3, zand, zor, znot, zbool, cur)
from .interp import Builtin, py_raise
from . import models
from .models import model, uf


# ------------------------------------------------------------ digits

def horner(base, n, v, key):
    """H(i): value of the first i digits v(0..i-1) in the given base."""
    ctx = cur()
    reg = ctx.memo.setdefault('horner', [])
    for k, h in reg:
        if k == key:
            return h
    H = ctx.fresh_fn('horner%d' % base, [I], I)
    i = z3.FreshConst(I, 'i')
    ctx.fact(H(z3.IntVal(0)) == 0)
    ctx.fact(z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < n), H(i + 1) == base * H(i) + v(i)),
        patterns=[H(i + 1)]))
    reg.append((key, H))
    ctx.memo.setdefault('horner_info', {})[key] = (n, v)
    return H


def is_digit(c):
    c = to_z3(c)
    return z3.And(c >= 48, c <= 57)


def all_codes(q, pred):
    j = z3.FreshConst(I, 'j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_z3(q.n)),
                                     zbool(pred(q.at(j)))))


def decimal_value(q):
    """Value of a text of ASCII digits of symbolic length."""
    ctx = cur()
    j = z3.Const('canon!d', I)
    key = ('dec', z3.simplify(to_z3(q.n)).sexpr(),
           z3.simplify(to_z3(q.at(j))).sexpr())
    H = horner(10, to_z3(q.n), lambda i: to_z3(q.at(i)) - 48, key)
    return H(to_z3(q.n))


def decimal_text(v):
    """str() of an integer >= 0: its digits, no leading zero."""
    ctx = cur()
    v = z3.simplify(to_z3(v))
    key = ('dectext', v.sexpr())
    if key in ctx.memo:
        return ctx.memo[key]
    n = ctx.fresh('ndigits', I)
    d = ctx.fresh_fn('digit', [I], I)
    i = z3.FreshConst(I, 'i')
    ctx.fact(n >= 1)
    ctx.fact(z3.ForAll([i], z3.And(d(i) >= 48, d(i) <= 57),
                       patterns=[d(i)]))
    H = horner(10, n, lambda j: d(j) - 48, key)
    ctx.fact(H(n) == v)
    ctx.fact(z3.Implies(n > 1, d(z3.IntVal(0)) != 48))
    r = StrV(Sym(n, lambda j: d(to_z3(j))))
    r.decimal = v
    ctx.memo[key] = r
    return r


# ------------------------------------------------------------ regex

class MatchV(Value):
    def __init__(self, s, groups):
        self.s, self.groups = s, groups

    def truth(self, interp):
        return True

    def group(self, interp, k):
        if k not in self.groups:
            py_raise(IndexError, 'no such group')
        g = self.groups[k]
        if g is None:
            return None
        return models.getitem(interp, self.s, SliceV(g[0], g[1], None))

    def pygetattr(self, interp, name):
        if name == 'group':
            def f(it, a, k):
                a = [it.resolve(x) for x in a] or [0]
                r = tuple(self.group(it, x) for x in a)
                return r[0] if len(r) == 1 else r
            return (Builtin('group', f),)
        if name == 'groups':
            return (Builtin('groups', lambda it, a, k: tuple(
                self.group(it, x) for x in sorted(
                    y for y in self.groups if isinstance(y, int) and y))),)
        if name in ('start', 'end'):
            def f(it, a, k):
                g = self.groups[a[0] if a else 0]
                return g[0] if name == 'start' else g[1]
            return (Builtin(name, f),)
        return None


def cls_pred(items):
    """Predicate over a code for the items of a character class."""
    neg = bool(items) and items[0][0] is sre.NEGATE
    its = items[1:] if neg else items

    def one(it):
        op, av = it
        if op is sre.LITERAL:
            return lambda c: c == av
        if op is sre.RANGE:
            return lambda c: zand(c >= av[0], c <= av[1])
        if op is sre.CATEGORY:
            if av is sre.CATEGORY_DIGIT:
                return lambda c: zand(c >= 48, c <= 57)
            if av is sre.CATEGORY_NOT_DIGIT:
                return lambda c: znot(zand(c >= 48, c <= 57))
            if av is sre.CATEGORY_SPACE:
                return lambda c: zor(zand(c >= 9, c <= 13), c == 32,
                                     zand(c >= 28, c <= 31))
            if av is sre.CATEGORY_WORD:
                return lambda c: zor(zand(c >= 48, c <= 57), c == 95,
                                     zand(c >= 65, c <= 90),
                                     zand(c >= 97, c <= 122))
        raise Unsupported('regex class %s' % (it,))
    fs = [one(x) for x in its]

    def pred(c):
        r = zor(*[f(c) for f in fs])
        return znot(r) if neg else r
    return pred


class RxCat(Value):
    """A pattern with escaped texts in it: a list of str patterns and StrV
    (to be matched literally)."""

    def __init__(self, parts):
        self.parts = parts

    def binop(self, interp, t, a, b):
        if t is not ast.Add:
            return NotImplemented
        out = []
        for x in (a, b):
            if isinstance(x, RxCat):
                out.extend(x.parts)
            elif isinstance(x, (str, bytes)):
                out.append(x)
            else:
                return NotImplemented
        return RxCat(out)


@model('re.escape')
def m_escape(interp, args, kw):
    v = interp.resolve(args[0])
    if isinstance(v, (str, bytes)):
        import re
        return re.escape(v)
    if isinstance(v, StrV):
        return RxCat([v])
    raise Unsupported('re.escape')


def uses_category(pattern):
    def walk(p):
        for op, av in p:
            if op is sre.CATEGORY:
                return True
            if isinstance(av, (list, tuple, sre_parse.SubPattern)):
                for x in av:
                    if isinstance(x, sre_parse.SubPattern) and walk(x):
                        return True
                    if isinstance(x, tuple) and len(x) == 2 and walk([x]):
                        return True
        return False
    return walk(sre_parse.parse(pattern))


def compile_rx(pattern, flags=0):
    """A flat list of steps, or Unsupported.

    Steps: ('open', g), ('close', g), ('begin',), ('end',), ('fullend',),
    ('rep', pred, min, max).
    """
    if flags & ~32:
        raise Unsupported('regex flags')
    tree = sre_parse.parse(pattern, flags)
    out = []

    def single(p):
        p = list(p)
        if len(p) != 1:
            return None
        op, av = p[0]
        if op is sre.LITERAL:
            return lambda c: c == av
        if op is sre.NOT_LITERAL:
            return lambda c: c != av
        if op is sre.IN:
            return cls_pred(list(av))
        if op is sre.ANY:
            return lambda c: c != 10
        return None

    def walk(p):
        for op, av in p:
            s = single([(op, av)])
            if s is not None:
                out.append(('rep', s, 1, 1))
            elif op is sre.SUBPATTERN:
                g, add, rem, sub = av
                if add or rem:
                    raise Unsupported('regex flags')
                if g is not None:
                    out.append(('open', g))
                walk(sub)
                if g is not None:
                    out.append(('close', g))
            elif op in (sre.MAX_REPEAT, getattr(sre, 'POSSESSIVE_REPEAT',
                                                None)):
                lo, hi, sub = av
                s = single(sub)
                if s is None:
                    raise Unsupported('regex repeat')
                out.append(('rep', s, lo, None if hi is sre.MAXREPEAT
                            else hi))
            elif op is sre.AT and av in (sre.AT_BEGINNING,
                                         sre.AT_BEGINNING_STRING):
                out.append(('begin',))
            elif op is sre.AT and av is sre.AT_END:
                out.append(('end',))
            elif op is sre.AT and av is sre.AT_END_STRING:
                out.append(('fullend',))
            else:
                raise Unsupported('regex %s' % op)
    walk(tree)
    # maximal munch equals backtracking if what may follow a repetition
    # cannot start with a character of it
    for k, st in enumerate(out):
        if st[0] != 'rep' or st[2] == st[3]:
            continue
        for nx in out[k + 1:]:
            if nx[0] == 'rep':
                if any(st[1](c) and nx[1](c) for c in range(128)):
                    raise Unsupported('regex needs backtracking')
                if nx[2] > 0:
                    break
            elif nx[0] in ('end', 'fullend'):
                if nx[0] == 'end' and st[1](10):
                    raise Unsupported('regex needs backtracking')
                break
    return out, dict(tree.state.groupdict)


def rx_match(interp, pattern, flags, s, full=False):
    ctx = cur()
    if isinstance(pattern, RxCat):
        lits = []
        parts = list(pattern.parts)
        while parts and not isinstance(parts[0], str):
            lits.append(parts.pop(0))
        if not all(isinstance(x, str) for x in parts):
            raise Unsupported('escaped text inside a pattern')
        pattern = ''.join(parts)
        steps, names = compile_rx(pattern, flags)
        steps = [('lit', x) for x in lits] + steps
        if isinstance(s, str):
            s = models.as_strv(s)
        if isinstance(s, Opaque):
            raise Unsupported('regex on an opaque text')
    elif not isinstance(pattern, (str, bytes)):
        raise Unsupported('symbolic pattern')
    else:
        steps, names = compile_rx(pattern, flags)
    if isinstance(s, (str, bytes)):
        import re
        m = (re.fullmatch if full else re.match)(pattern, s, flags)
        if m is None:
            return None
        g = {0: m.span()}
        for k in range(1, m.re.groups + 1):
            g[k] = m.span(k) if m.span(k)[0] >= 0 else None
        for nm, k in names.items():
            g[nm] = g[k]
        return MatchV(s, g)
    if not isinstance(s, StrV):
        raise Unsupported('regex on %r' % (s,))
    if uses_category(pattern):
        models.ascii_guard(interp, s)
    q = s.content
    n = to_z3(q.n)
    p = z3.IntVal(0)
    op, groups = {}, {}
    if full:
        steps = steps + [('fullend',)]
    for st in steps:
        if st[0] == 'lit':
            ql = st[1].content
            ln = to_z3(ql.n)
            if not ctx.branch(n - p >= ln):
                return None
            j = z3.FreshConst(I, 'j')
            same = z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < ln),
                to_z3(q.at(z3.simplify(p + j))) == to_z3(ql.at(j))))
            if not ctx.branch(same):
                return None
            p = z3.simplify(p + ln)
        elif st[0] == 'open':
            op[st[1]] = p
        elif st[0] == 'close':
            groups[st[1]] = (op[st[1]], p)
        elif st[0] == 'begin':
            if not ctx.branch(p == 0):
                return None
        elif st[0] == 'fullend':
            if not ctx.branch(p == n):
                return None
        elif st[0] == 'end':
            if not ctx.branch(zor(p == n, zand(
                    p == n - 1, to_z3(q.at(n - 1)) == 10))):
                return None
        else:
            _, pred, lo, hi = st
            if lo == hi == 1:
                if not ctx.branch(p < n):
                    return None
                if not ctx.branch(zbool(pred(to_z3(q.at(p))))):
                    return None
                p = p + 1
                continue
            e = ctx.fresh('rx', I)
            j = z3.FreshConst(I, 'j')
            ctx.assume(z3.And(e >= p, e <= n))
            if hi is not None:
                ctx.assume(e <= p + hi)
            ctx.assume(z3.ForAll([j], z3.Implies(
                z3.And(j >= p, j < e), zbool(pred(to_z3(q.at(j)))))))
            stop = z3.Or(e == n, z3.Not(zbool(pred(to_z3(q.at(e))))))
            if hi is not None:
                stop = z3.Or(stop, e == p + hi)
            ctx.assume(stop)
            if lo and not ctx.branch(e >= p + lo):
                return None
            p = e
    groups[0] = (z3.IntVal(0), p)
    for nm, k in names.items():
        groups[nm] = groups[k]
    return MatchV(s, groups)


def _rx_args(interp, args, kw):
    args = [interp.resolve(a) for a in args]
    flags = int(args[2]) if len(args) > 2 else int(kw.get('flags', 0))
    pat = args[0]
    if isinstance(pat, models.RxV):
        flags |= int(pat.flags)
        pat = pat.pattern
    return pat, flags & ~32, args[1]


@model('re.match')
def m_match(interp, args, kw):
    return rx_match(interp, *_rx_args(interp, args, kw))


@model('re.fullmatch')
def m_fullmatch(interp, args, kw):
    return rx_match(interp, *_rx_args(interp, args, kw), full=True)


@model('re.compile')
def m_compile(interp, args, kw):
    if not isinstance(args[0], (str, bytes, RxCat)):
        raise Unsupported('symbolic pattern')
    return models.RxV(args[0], int(args[1]) if len(args) > 1 else 0)


def rx_getattr(interp, o, name):
    if name in ('match', 'fullmatch'):
        return (Builtin(name, lambda it, a, k: rx_match(
            it, o.pattern, int(o.flags) & ~32, it.resolve(a[0]),
            full=name == 'fullmatch')),)
    if name == 'pattern':
        return (o.pattern,)
    return None


# ------------------------------------------------------------ formatting

def fmt_strv(interp, fmt, vals):
    """fmt % vals with %s of strings and %d of integers >= 0, as a string of
    codes; None if it is not of that shape."""
    import re
    parts = re.split(r'(%[sd%])', fmt)
    if '%' in ''.join(parts[0::2]):
        return None
    vals = list(vals)
    out = None

    def add(a, b):
        return b if a is None else interp.binop(ast.Add(), a, b)
    if sum(p in ('%s', '%d') for p in parts[1::2]) != len(vals):
        return None
    sym = False
    for k, p in enumerate(parts):
        if k % 2 == 0:
            if p:
                out = add(out, p)
        elif p == '%%':
            out = add(out, '%')
        else:
            v = interp.resolve(vals.pop(0))
            if isinstance(v, StrV) and p == '%s':
                sym = True
                out = add(out, v)
            elif isinstance(v, str) and p == '%s':
                out = add(out, v)
            elif isinstance(v, int) and not isinstance(v, bool):
                out = add(out, str(v))
            elif is_int(v) and cur().entails(to_z3(v) >= 0):
                out = add(out, decimal_text(v))
            else:
                return None
    return out if sym else None


def link_decimals(ctx):
    """Prove equal the decimal values of texts with the same digits."""
    reg = [(k, h) for k, h in ctx.memo.get('horner', [])]
    info = ctx.memo.get('horner_info', {})
    for a in range(len(reg)):
        for b in range(a):
            (n1, v1), (n2, v2) = info[reg[a][0]], info[reg[b][0]]
            j = z3.FreshConst(I, 'j')
            if ctx.entails(n1 == n2) and ctx.entails(z3.ForAll(
                    [j], z3.Implies(z3.And(j >= 0, j < n1),
                                    v1(j) == v2(j)))):
                H1, H2 = reg[a][1], reg[b][1]
                ctx.induct('same digits, same number (%d, %d)' % (a, b),
                           lambda i: H1(i) == H2(i), n1,
                           lambda i: [v1(i) == v2(i)])
