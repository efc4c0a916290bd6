"""C14: a DBF file is decoded record by record as specified."""
import io
import os
import tempfile
import numpy as np
from channelpack import dbf
from oracles.util import same, sizes
from oracles.dbfmk import dbf_bytes, value, random_spec, big_spec

FILES = ['channelpack/dbf.py']
RULE = ('random DBF files: 1 to 9 fields of types N F D L C M, 0 to 40 '
        'records (and sizes found in the source), deleted records, blank, '
        'left-aligned and NUL-padded values')


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 600)
    yield {'big': 65541}
    k = 0
    while k < 2500 or tier != 'quick':
        k += 1
        yield random_spec(rng, unique=rng.random() < 0.8, lens=new + old)


def rows_of(spec):
    return [[value(f, v) for f, v in zip(spec['fields'], vals)]
            for flag, vals in spec['rows'] if flag == ' ']


def check(case):
    if 'big' in case:
        case = big_spec(case['big'])
    b = dbf_bytes(case)
    want = rows_of(case)
    names = [f[0].replace('\0', '') for f in case['fields']]
    g = dbf.dbfreader(io.BytesIO(b))
    got = list(next(g))
    if got != names:
        return 'names %r, want %r' % (got, names)
    specs = [tuple(x) for x in next(g)]
    if specs != [(f[1].encode('ascii'), f[2], f[3])
                 for f in case['fields']]:
        return 'specs %r' % (specs,)
    rows = [list(r) for r in g]
    if len(rows) != len(want):
        return '%d rows, want %d' % (len(rows), len(want))
    for i, (r, w) in enumerate(zip(rows, want)):
        if len(r) != len(w):
            return 'row %d: %r, want %r' % (i, r, w)
        for x, y in zip(r, w):
            if type(x) is not type(y) or not same(x, y):
                return 'row %d: %r, want %r' % (i, r, w)
    p = dbf.dbfpack(io.BytesIO(b))
    if dict(p.names) != dict(enumerate(names)):
        return 'pack names %r' % p.names
    cols = list(zip(*want))
    if sorted(p.data) != list(range(len(cols))):
        return 'pack channels %r' % sorted(p.data)
    for k, col in enumerate(cols):
        w = np.array(col, copy=False)
        if w.dtype != p.data[k].dtype or not same(w, p.data[k]):
            return 'pack channel %d: %r, want %r' % (k, p.data[k], w)
