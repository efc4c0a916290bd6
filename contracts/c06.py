"""C06: channel lookup by key, name, fallback string."""
import ast

import z3

from pydv.core import (I, B, Obj, Opaque, StrV, Sym, Unsupported, TAGS, _tag,
                       to_obj, to_z3, zbool, zand, znot, cur, is_int)
from pydv import models
from pydv.interp import py_raise
from pydv.strings import decimal_value, is_digit, link_decimals
from . import contract
from .packs import (A_INT, DataMap, SymPack, make_interp, call_or_exc,
                    expect, exc_name)

F = 'channelpack.pack.ChannelPack.'
A_RX = ('re.escape(p) in a pattern matches exactly p; re.match of a sequence '
        'of single-character repetitions is greedy, without backtracking')
A_STR = ('strings are equal exactly when they are the same value; int() of '
         'ASCII digits is their decimal value')


def text(ctx, name):
    n = ctx.fresh('n_' + name, I)
    c = ctx.fresh_fn('c_' + name, [I], I)
    j = z3.FreshConst(I, 'j')
    ctx.assume(n >= 0)
    ctx.assume(z3.ForAll([j], z3.And(c(j) >= 0, c(j) < 0x110000),
                         patterns=[c(j)]))
    s = StrV(Sym(n, lambda i: c(to_z3(i))))
    s.ident = ctx.fresh('id_' + name, Obj)
    ctx.assume(_tag(s.ident) == TAGS['str'])
    return s, n, c


class Lookup(object):
    """The specification of the lookup in a pack."""

    def __init__(self, ctx, it):
        self.sp = sp = SymPack(it, mask=False)
        self.D, self.N = sp.D, sp.N
        self.pref, self.np, self.pc = text(ctx, 'prefix')
        it.setattr(sp.pack, 'FALLBACK_PREFIX', self.pref)

    def first(self, ctx, t):
        """Index of the first name equal to t; the number of names if
        there is none."""
        N = self.N
        fi = ctx.fresh('first', I)
        nm = lambda i: N.nm(N.key(i))
        i = z3.FreshConst(I, 'i')
        ctx.assume(z3.And(fi >= 0, fi <= N.K))
        ctx.assume(z3.Implies(fi < N.K, nm(fi) == t))
        ctx.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < fi), nm(i) != t), patterns=[N.key(i)]))
        return fi

    def fallback(self, ctx, s, n, c):
        """(is a prefix with a decimal number, that number)."""
        j = z3.FreshConst(I, 'j')
        q = Sym(n - self.np, lambda i: c(self.np + to_z3(i)))
        ok = z3.And(
            n > self.np,
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.np),
                                      c(j) == self.pc(j))),
            z3.ForAll([j], z3.Implies(z3.And(j >= self.np, j < n),
                                      is_digit(c(j)))))
        return ok, decimal_value(q)


@contract('C06', 'lookup of an integer', [F + '_datakey'],
          covers=('found', 'not found'), assumes=(A_INT,))
def by_int(ctx):
    it = make_interp()
    lk = Lookup(ctx, it)
    ch = ctx.fresh('ch', I)
    v, e = call_or_exc(it, it.getattr(lk.sp.pack, '_datakey'), [ch])
    if e is not None:
        if exc_name(e) != 'KeyError':
            expect(ctx, e, 'an integer')
            return
        ctx.prove('KeyError only if it is no key', z3.Not(lk.D.dom(ch)))
        ctx.cover('not found')
        return
    v = it.resolve(v)
    ctx.prove('an integer', bool(is_int(v)))
    ctx.prove('the key asked for', zand(to_z3(v) == ch, lk.D.dom(ch)))
    ctx.cover('found')


@contract('C06', 'lookup of a string', [F + '_datakey'],
          covers=('name', 'fallback', 'not found'),
          assumes=(A_INT, A_RX, A_STR))
def by_str(ctx):
    it = make_interp()
    lk = Lookup(ctx, it)
    D, N = lk.D, lk.N
    s, n, c = text(ctx, 'ch')
    v, e = call_or_exc(it, it.getattr(lk.sp.pack, '_datakey'), [s])
    fi = lk.first(ctx, s.ident)
    named = fi < N.K
    ok, num = lk.fallback(ctx, s, n, c)
    link_decimals(ctx)
    if e is not None:
        if exc_name(e) != 'KeyError':
            expect(ctx, e, 'a string')
            return
        ctx.cover('not found')
        if ctx.branch(named):
            ctx.prove('KeyError only if the named channel has no data',
                      z3.Not(D.dom(N.key(fi))))
            return
        if ctx.branch(ok):
            ctx.prove('KeyError only if the number is no key',
                      z3.Not(D.dom(num)))
        return
    v = it.resolve(v)
    good = is_int(v)
    ctx.prove('an integer', bool(good))
    if not good:
        return
    v = to_z3(v)
    ctx.prove('a key of the data', D.dom(v))
    if ctx.branch(named):
        ctx.cover('name')
        ctx.prove('the key of the first such name', v == N.key(fi))
        return
    ctx.cover('fallback')
    ctx.prove('the prefix and a number', ok)
    ctx.prove('the number', v == num)


def c_datakey(D, ch):
    """Contract of _datakey as used here: some key of the data that is a
    function of the reference, or KeyError."""
    ctx = cur()
    key = ctx.fresh('resolved', I)
    found = ctx.fresh('found', B)

    def f(it, fn, args, kw):
        a = [it.resolve(x) for x in list(args[1:]) + list(kw.values())]
        if len(a) != 1 or a[0] is not ch:
            return NotImplemented
        if not cur().branch(found):
            py_raise(KeyError, 'ch')
        cur().fact(D.dom(key))
        return key
    return f, key, found


def name(fallback):
    def run(ctx):
        it = make_interp()
        lk = Lookup(ctx, it)
        D, N = lk.D, lk.N
        s, n, c = text(ctx, 'ch')
        f, key, found = c_datakey(D, s)
        it.contracts[F + '_datakey'] = f
        kw = {'fallback': True} if fallback else {}
        v, e = call_or_exc(it, it.getattr(lk.sp.pack, 'name'), [s], kw)
        if e is not None:
            if exc_name(e) != 'KeyError':
                expect(ctx, e, 'name')
                return
            ctx.prove('KeyError only without channel or name',
                      z3.Not(found) if fallback else
                      z3.Or(z3.Not(found), z3.Not(N.dom(key))))
            ctx.cover('none')
            return
        ctx.prove('the channel was found', found)
        if fallback:
            w = it.binop(ast.Add(), lk.pref, it.call(str, [key]))
            ctx.prove('prefix and key', zbool(models.eq(it, v, w)))
        else:
            v = it.resolve(v)
            ctx.prove('a name of that key', N.dom(key))
            ctx.prove('the name of that key', to_obj(v) == N.nm(key))
        ctx.cover('post')
    return run


contract('C06', 'name', [F + 'name'], covers=('post', 'none'),
         callees=[F + '_datakey'], assumes=(A_INT, A_STR))(name(False))
contract('C06', 'fallback name', [F + 'name'], covers=('post', 'none'),
         callees=[F + '_datakey'], assumes=(A_INT, A_STR))(name(True))
