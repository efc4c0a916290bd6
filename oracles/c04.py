"""C04: duration requirements clear exactly the wrong-length runs."""
import numpy as np
from channelpack import ChannelPack
from oracles.util import masks, enc, dec, clear, runs

FILES = ['channelpack/pack.py', 'channelpack/datautils.py']
RULE = ('masks as in C01 (all up to length 7) with durations around the run '
        'lengths, integer and fractional, minimum and maximum, and '
        'persistent')


def cases(rng, tier, hints, consts):
    for m in masks(rng, tier, hints, consts,
                   7 if tier == 'quick' else 10, 500):
        lens = sorted({b - a for a, b in runs(m)}) or [1]
        L = rng.choice(lens)
        for _ in range(2):
            d = rng.choice([L, L + 1, L - 1, L + 0.5, L - 0.25, 0, 1, 2,
                            lens[-1], len(m), -1, L / 10.0, L / 4.0])
            s = rng.choice([1, 1, 1, 2, 4, 10, 0.5, 100, 2.5, 1.5, 0.1, 3,
                            0.9, 1.01, 7])
            yield {'mask': enc(m), 'd': d, 's': s,
                   'min': rng.random() < 0.6, 'md': L}


def check(case):
    m = dec(case['mask'])
    d, s, mn = case['d'], case['s'], case['min']
    req = int(d * s)
    for data in ({0: np.arange(len(m))}, {}):
        p = ChannelPack(data)
        p.mask = m.copy()
        r = p.duration(d, samplerate=s, mindur=mn)
        want = clear(m.tolist(), req, mn)
        if r is not p.mask:
            return 'not the mask of the pack returned'
        if r.tolist() != want or r.dtype != bool:
            return 'duration: %r, want %r' % (r.tolist()[:60], want[:60])
    p = ChannelPack({0: np.arange(len(m))})
    p.mask = m.copy()
    if p.duration(case['md']).tolist() != clear(m.tolist(), case['md']):
        return 'duration(%d)' % case['md']
    k = case['md']
    for order in ('mask first', 'mindur first'):
        p = ChannelPack({0: np.arange(len(m))})
        if order == 'mask first':
            p.mask = m.copy()
            p.mindur = k
        else:
            p.mindur = k
            p.mask = m.copy()
        if p.mask.tolist() != clear(m.tolist(), k):
            return '%s: %r' % (order, p.mask.tolist()[:60])
        if p.mindur != k:
            return 'mindur %r' % p.mindur
        # again with another mask, and with the requirement off
        m2 = m[::-1].copy()
        p.mask = m2.copy()
        if p.mask.tolist() != clear(m2.tolist(), k):
            return 'second mask'
        p.mindur = None
        p.mask = m.copy()
        if p.mask.tolist() != m.tolist():
            return 'requirement still on'
