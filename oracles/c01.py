"""C01: parts are the maximal True runs."""
import numpy as np
from channelpack import datautils, ChannelPack
from oracles.util import masks, runs, enc, dec

FILES = ['channelpack/datautils.py', 'channelpack/pack.py']
RULE = ('every mask of length <= 9; masks with runs, gaps and numbers of runs '
        'of the sizes found as constants in the source (and one off); random '
        'masks up to 1500 elements from the seed')


def cases(rng, tier, hints, consts):
    for m in masks(rng, tier, hints, consts,
                   9 if tier == 'quick' else 12):
        yield {'mask': enc(m)}


def check(case):
    m = dec(case['mask'])
    want = runs(m)
    for arg in (m, m.tolist(), tuple(m.tolist())):
        keep = list(arg)
        got = datautils.slicelist(arg)
        if list(arg) != keep:
            return 'mask changed'
        if [(s.start, s.stop) for s in got] != want:
            return 'slices %r, want %r' % (got, want)
        if any(s.step not in (None, 1) for s in got):
            return 'step'
    p = ChannelPack({0: np.arange(len(m))})
    p.mask = m.copy()
    if p.parts() != list(range(len(want))):
        return 'parts %r' % p.parts()
    for k, (a, b) in enumerate(want[:50]):
        if p(0, part=k).tolist() != list(range(a, b)):
            return 'part %d' % k
