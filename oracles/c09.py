"""C09: a reset mask is all True and as long as the data."""
import numpy as np
from channelpack import ChannelPack
from channelpack.pack import NpDict
from oracles.util import column, KINDS, rmask, lengths

FILES = ['channelpack/pack.py']
RULE = ('random packs (channels of different lengths and types, negative '
        'keys, empty ones) through construction, data assignment, mask '
        'reset and append, with and without a minimum duration')


def cases(rng, tier, hints, consts):
    k = 0
    while k < 9000 or tier != 'quick':
        k += 1
        specs = []
        for _ in range(2):
            keys = rng.sample(list(range(-3, 15)) + [100, 1000],
                              rng.choice([0, 1, 1, 2, 3, 5]))
            specs.append([[q, rng.choice(KINDS), lengths(rng, hints, consts),
                           rng.randint(0, 3)] for q in keys])
        yield {'data': specs[0], 'new': specs[1],
               'md': rng.choice([0, 1, 2, 3, 10, -1, specs[0][0][2] if
                                 specs[0] else 0, (specs[0][0][2] if
                                                   specs[0] else 0) + 1])}


def expect(p, md=None):
    n = len(p.data[min(p.data)]) if p.data else 0
    v = md is None or n >= md
    m = p.mask
    if not isinstance(m, np.ndarray) or m.dtype != bool or m.ndim != 1:
        return 'mask %r' % (m,)
    if m.tolist() != [v] * n:
        return 'mask %r, want %d x %r' % (m, n, v)


def mk(spec):
    return {k: column(kind, n, off) for k, kind, n, off in spec}


def check(case):
    d, new, md = mk(case['data']), mk(case['new']), case['md']
    p = ChannelPack(d)
    r = expect(p)
    if r:
        return 'construction: ' + r
    p.mask[:] = False
    p.mask_reset()
    r = expect(p)
    if r:
        return 'reset: ' + r
    p.mask = np.zeros(len(p.mask) + 2, dtype=bool)
    p.mask_reset()
    r = expect(p)
    if r:
        return 'reset of another length: ' + r
    for v in (new, NpDict(new)):
        p.mask = np.zeros(3, dtype=bool)
        p.data = v
        r = expect(p)
        if r:
            return 'data assigned: ' + r
    p = ChannelPack(d)
    p.mindur = md
    p.mask_reset()
    r = expect(p, md)
    if r:
        return 'reset with mindur %r: %s' % (md, r)
    p.data = new
    r = expect(p, md)
    if r:
        return 'data assigned with mindur %r: %s' % (md, r)
    for a, b in ((d, d), (d, {}), ({}, d)):
        q = ChannelPack({k: a[k] for k in a})
        q.mask[1:] = False
        q.duration(2)
        try:
            q.append_pack(ChannelPack({k: b[k] for k in b}))
        except TypeError:
            continue
        r = expect(q)
        if r:
            return 'append: ' + r
