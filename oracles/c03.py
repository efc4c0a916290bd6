"""C03: a channel call returns exactly the selected elements."""
import numpy as np
from channelpack import ChannelPack, datautils
from oracles.util import (runs, enc, dec, column, KINDS, rmask, masks, eqarr,
                          lengths)

FILES = ['channelpack/pack.py', 'channelpack/datautils.py']
RULE = ('every kind of array x masks of length <= 5 (all) and random masks, '
        'with every setting of the attribute and the argument nof and every '
        'part number')
NUM = {'int', 'float', 'uint', 'complex', 'small', 'nan'}


def cases(rng, tier, hints, consts):
    import itertools
    for n in range(0, 6):
        for t in itertools.product((False, True), repeat=n):
            for kind in KINDS:
                if n > 3 and rng.random() < 0.7:
                    continue
                yield {'kind': kind, 'mask': enc(t)}
    k = 0
    while k < 500 or tier != 'quick':
        k += 1
        n = lengths(rng, hints, consts)
        yield {'kind': rng.choice(KINDS), 'mask': enc(rmask(rng, n))}


def ref_nan(a, m, kind):
    x = [v if s else (np.nan if kind in NUM else None)
         for v, s in zip(a.tolist(), m)]
    return x


def eqlist(got, want):
    g = got.tolist() if isinstance(got, np.ndarray) else list(got)
    if len(g) != len(want):
        return False
    for x, y in zip(g, want):
        if y is None or x is None:
            if x is not y:
                return False
        elif isinstance(y, (float, complex)) and y != y:
            if not (x != x):
                return False
        elif not (x == y) or isinstance(x, bool) != isinstance(y, bool):
            return False
    return True


def check(case):
    m = dec(case['mask'])
    kind = case['kind']
    a = column(kind, len(m))
    p = ChannelPack({3: a, 5: column('int', len(m), 4)}, {3: 'x', 5: 'y'})
    p.mask = m.copy()
    full, filt, nan = a.tolist(), a[m].tolist(), ref_nan(a, m, kind)
    want = runs(m)
    if not eqlist(datautils.masked(a.copy(), m.copy()), nan):
        return 'masked'
    for own in (None, 'nan', 'filter'):
        p.nof = own
        for arg in (None, 'nan', 'filter', 'ignore'):
            eff = arg or own
            w = {'nan': nan, 'filter': filt}.get(eff, full)
            for ch in (3, 'x', 'ch3'):
                got = p(ch, nof=arg)
                if not isinstance(got, np.ndarray) or not eqlist(got, w):
                    return 'nof %r, argument %r, %r: %r, want %r' % (
                        own, arg, ch, got, w)
            for k in list(range(len(want) + 2)):
                if 5 < k < len(want) - 2:
                    continue
                try:
                    got = p(3, part=k, nof=arg)
                except IndexError:
                    if k < len(want):
                        return 'IndexError for part %d' % k
                    continue
                if k >= len(want):
                    return 'part %d given' % k
                if not eqlist(got, full[want[k][0]:want[k][1]]):
                    return 'part %d nof %r argument %r' % (k, own, arg)
    if p.mask.tolist() != m.tolist():
        return 'mask changed'
    if not eqlist(p.data[3], full):
        return 'data changed'
    for bad in ('', 'x', 'Nan', 1):
        try:
            p.nof = bad
            return 'nof = %r taken' % (bad,)
        except ValueError:
            pass
