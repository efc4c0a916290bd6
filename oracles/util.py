"""Shared by the executable contracts."""
import itertools

import numpy as np


def runs(mask):
    """Reference: maximal True runs of a boolean sequence."""
    out, i, n = [], 0, len(mask)
    while i < n:
        if mask[i]:
            j = i
            while j < n and mask[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def from_runlens(spec):
    """[(False, 2), (True, 3)] -> bools."""
    out = []
    for v, n in spec:
        out.extend([bool(v)] * n)
    return out


def sizes(hints, consts, top=4000, cap=14):
    """Interesting lengths: constants of the code and their neighbours."""
    new, old = [], []
    for src, dst in ((consts['new_ints'], new), (hints, new),
                     (consts['ints'], old)):
        for v in src:
            try:
                v = int(v)
            except Exception:
                continue
            for d in (0, 1, -1):
                if 0 < v + d <= top and v + d not in dst:
                    dst.append(v + d)
    new = new[:60]
    old = [v for v in old if v not in new][:cap * 3]
    return new, old


def masks(rng, tier, hints, consts, exhaustive=9, random_n=400):
    """Masks as lists of bools: all short ones, then structured long ones."""
    for n in range(exhaustive + 1):
        for t in itertools.product((False, True), repeat=n):
            yield list(t)
    new, old = sizes(hints, consts)
    big = [v for v in sizes(hints, consts, 70000)[0] if v not in new]
    for L in new + big[:9]:
        # masks of L elements
        for a in (0, 1):
            for b in (0, 1):
                yield from_runlens([(a, 2), (1 - a, 1), (a, max(
                    0, L - 7)), (1 - b, 2), (b, 2)])[:L]
        # L runs and one
        yield from_runlens([(1, 2), (0, 1)] * (min(L, 20000) + 1))
    for L in new + old:
        # one run of length L at start, middle, end; gaps of L; L runs
        yield from_runlens([(1, L)])
        yield from_runlens([(0, 1), (1, L), (0, 2)])
        yield from_runlens([(0, L), (1, 2), (0, 1)])
        yield from_runlens([(1, 1), (0, L), (1, 1)])
        yield from_runlens([(0, 3), (1, L)])
        if L <= 2500:
            yield [bool(i % 2) for i in range(2 * L + 1)]
            yield from_runlens([(1, 2), (0, 1)] * min(L, 1000))
    k = 0
    while k < random_n or tier != 'quick':
        k += 1
        n = rng.choice([rng.randint(0, 30), rng.randint(30, 200),
                        rng.randint(200, 1500)])
        p = rng.choice([0.02, 0.2, 0.5, 0.8, 0.98])
        out, cur = [], rng.random() < 0.5
        while len(out) < n:
            r = rng.randint(1, max(1, int(rng.choice([1, 3, 20, 100]))))
            out.extend([cur] * r)
            cur = not cur if rng.random() < 0.9 else rng.random() < p
        yield out[:n]


def enc(m):
    """Run-length coding of a mask, to keep cases short."""
    out = []
    for v in m:
        if out and out[-1][0] == int(bool(v)):
            out[-1][1] += 1
        else:
            out.append([int(bool(v)), 1])
    return out


def dec(spec):
    return np.array(from_runlens(spec), dtype=bool)


def same(a, b):
    """Equal values and types, nan equal to itself."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(same(x, y) for x, y in zip(a.tolist(), b.tolist()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, complex) and isinstance(b, complex):
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    return type(a) is type(b) and a == b or (
        isinstance(a, (int, float, complex)) and
        isinstance(b, (int, float, complex)) and a == b)


KINDS = ['int', 'float', 'str', 'bool', 'obj', 'date', 'uint', 'complex',
         'bytes', 'small', 'timedelta', 'nan']


def column(kind, n, off=0):
    """A list or array of n elements of a kind, different per position."""
    if kind == 'int':
        return np.arange(off, off + n) * 7 - 3
    if kind == 'small':
        return (np.arange(off, off + n) % 100).astype(np.int8)
    if kind == 'uint':
        return np.arange(off, off + n).astype(np.uint16)
    if kind == 'float':
        a = np.arange(off, off + n) / 4.0 - 1
        a[2::5] = np.nan
        a[3::7] = np.inf
        return a
    if kind == 'nan':
        return np.full(n, np.nan)
    if kind == 'complex':
        return np.arange(off, off + n) * (1 + 2j)
    if kind == 'str':
        return np.array(['s%d' % (i + off) if i % 3 else '' for i in
                         range(n)], dtype='U8')
    if kind == 'bytes':
        return np.array([b'b%d' % (i + off) for i in range(n)], dtype='S6')
    if kind == 'bool':
        return np.array([(i + off) % 3 == 0 for i in range(n)], dtype=bool)
    if kind == 'obj':
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = [None, 'x%d' % i, i + off, 2.5 * i][(i + off) % 4]
        return a
    if kind == 'date':
        return np.array(['2020-01-01'], dtype='M8[D]')[0] + np.arange(
            off, off + n)
    if kind == 'timedelta':
        return np.arange(off, off + n).astype('m8[s]')
    raise ValueError(kind)


def mkdata(spec):
    """[[key, kind, n, off], ...] -> dict of arrays."""
    return {k: column(kind, n, off) for k, kind, n, off in spec}


def rdata(rng, n, maxch=4, neg=True):
    keys = rng.sample(range(-2 if neg else 0, 9), rng.randint(0, maxch))
    return [[k, rng.choice(KINDS), n, rng.randint(0, 5)] for k in keys]


def rmask(rng, n):
    out, cur = [], rng.random() < 0.5
    top = rng.choice([1, 2, 3, 8, 40])
    while len(out) < n:
        out.extend([cur] * rng.randint(1, top))
        cur = not cur
    return out[:n]


def eqarr(a, b):
    """Same shape and same elements (nan equal to itself)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return all(same(x, y) for x, y in zip(a.tolist(), b.tolist()))


def clear(mask, req, mindur=True):
    """Reference for a duration requirement."""
    out = list(mask)
    for a, b in runs(mask):
        if (b - a < req) if mindur else (b - a > req):
            out[a:b] = [False] * (b - a)
    return out


def lengths(rng, hints, consts, top=3000):
    """A length: mostly short, sometimes a constant of the code."""
    new, old = sizes(hints, consts, top)
    r = rng.random()
    if new and r < 0.35:
        return rng.choice(new)
    if old and r < 0.42:
        return rng.choice(old)
    return rng.choice([rng.randint(0, 6), rng.randint(0, 12),
                       rng.randint(0, 60), rng.randint(0, 300)])
