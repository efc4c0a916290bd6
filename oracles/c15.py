"""C15: reading some DBF fields equals selecting from a full read."""
import io
import numpy as np
from channelpack import dbf
from oracles.util import same, sizes
from oracles.dbfmk import dbf_bytes, value, random_spec, big_spec

FILES = ['channelpack/dbf.py']
RULE = ('random DBF files as in C14 with random selections of field names '
        'in any order, deleted records anywhere')


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 600)
    yield {'dbf': {'big': 65541}, 'sel': ['A'], 'as': 'list'}
    k = 0
    while k < 2500 or tier != 'quick':
        k += 1
        s = random_spec(rng, unique=rng.random() < 0.8, lens=new + old)
        names = [f[0] for f in s['fields']]
        n = rng.randint(1, len(names))
        sel = rng.sample(names, n)
        if rng.random() < 0.1:
            sel.append('NOSUCH')
        yield {'dbf': s, 'sel': sel, 'as': rng.choice(['list', 'tuple',
                                                      'set'])}


def check(case):
    s, sel = case['dbf'], case['sel']
    if 'big' in s:
        s = big_spec(s['big'])
    b = dbf_bytes(s)
    keep = [i for i, f in enumerate(s['fields']) if f[0] in sel]
    want = [[value(s['fields'][i], vals[i]) for i in keep]
            for flag, vals in s['rows'] if flag == ' ']
    arg = {'list': list, 'tuple': tuple, 'set': set}[case['as']](sel)
    g = dbf.dbfrecords(io.BytesIO(b), arg)
    names = list(next(g))
    if names != [s['fields'][i][0] for i in keep]:
        return 'names %r' % names
    specs = [tuple(x) for x in next(g)]
    if specs != [(f[1].encode('ascii'), f[2], f[3]) for f in
                 [s['fields'][i] for i in keep]]:
        return 'specs %r' % (specs,)
    rows = [list(r) for r in g]
    if len(rows) != len(want) or any(
            len(r) != len(w) or any(type(x) is not type(y) or not same(x, y)
                                    for x, y in zip(r, w))
            for r, w in zip(rows, want)):
        return 'rows %r, want %r' % (rows[:4], want[:4])
    p = dbf.dbfpack(io.BytesIO(b), arg)
    if dict(p.names) != {i: s['fields'][i][0] for i in keep}:
        return 'pack names %r' % p.names
    cols = list(zip(*want))
    if sorted(p.data) != (keep if want else []):
        return 'pack channels %r, want %r' % (sorted(p.data), keep)
    full = dbf.dbfpack(io.BytesIO(b))
    for k, col in zip(keep, cols):
        w = np.array(col, copy=False)
        if w.dtype != p.data[k].dtype or not same(w, p.data[k]) or \
                not same(full.data[k], p.data[k]):
            return 'pack channel %d: %r, want %r' % (k, p.data[k], w)
