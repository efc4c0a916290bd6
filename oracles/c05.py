"""C05: start and stop triggers select start-until-stop intervals."""
import itertools
import numpy as np
from channelpack import ChannelPack, datautils
from oracles.util import rmask, enc, dec, lengths

FILES = ['channelpack/datautils.py', 'channelpack/pack.py']
RULE = ('all pairs of trigger sequences up to length 5, random pairs of '
        'different lengths, as arrays, lists and truthy values')


def cases(rng, tier, hints, consts):
    for n in range(0, 6 if tier == 'quick' else 7):
        for t in itertools.product((0, 1, 2, 3), repeat=n):
            if n == 5 and rng.random() < 0.5:
                continue
            yield {'a': enc([x & 1 for x in t]),
                   'b': enc([x >> 1 for x in t]), 'cut': 0}
    k = 0
    while k < 600 or tier != 'quick':
        k += 1
        n = lengths(rng, hints, consts)
        yield {'a': enc(rmask(rng, n)), 'b': enc(rmask(rng, n)),
               'cut': rng.choice([0, 0, 1, 2, -1, -3])}


NAN = float('nan')


def ref(a, b):
    out = []
    for i in range(min(len(a), len(b))):
        r = False
        if not b[i]:
            k = i
            while k >= 0 and not b[k]:
                if a[k]:
                    r = True
                    break
                k -= 1
        out.append(r)
    return out


def check(case):
    a, b = dec(case['a']), dec(case['b'])
    cut = case['cut']
    if cut > 0:
        a = a[:max(0, len(a) - cut)]
    elif cut < 0:
        b = b[:max(0, len(b) + cut)]
    want = ref(a.tolist(), b.tolist())
    n = len(want)
    got = list(datautils.startstop_bool(a, b))
    if [bool(x) for x in got] != want:
        return 'startstop_bool %r, want %r' % (got[:40], want[:40])
    for conv in (lambda x: x, lambda x: x.tolist(),
                 lambda x: [3 if v else 0 for v in x],
                 lambda x: ['x' if v else '' for v in x],
                 lambda x: x.astype(float) * 0.25,
                 lambda x: [NAN if v else None for v in x],
                 lambda x: [-0.5 if v else 0.0 for v in x],
                 lambda x: np.where(x, NAN, 0.0),
                 lambda x: np.array([[0] if v else [] for v in x] + [0],
                                    dtype=object)[:-1],
                 lambda x: tuple(np.int8(-1) if v else np.int8(0)
                                 for v in x),
                 lambda x: x.astype(np.uint8) * 2):
        p = ChannelPack({0: np.arange(n)})
        m = np.array([i % 4 != 3 for i in range(n)], dtype=bool)
        p.mask = m.copy()
        r = p.startstop(conv(a), conv(b), apply=False)
        if not isinstance(r, np.ndarray) or r.dtype != bool or \
                r.tolist() != want:
            return 'result %r, want %r' % (r, want)
        if p.mask.tolist() != m.tolist():
            return 'applied'
        r = p.startstop(conv(a), conv(b))
        if r.tolist() != want or r.dtype != bool:
            return 'result with apply %r' % (r,)
        if p.mask.tolist() != [x and y for x, y in zip(m.tolist(), want)]:
            return 'mask %r' % (p.mask,)
        if r is p.mask:
            return 'result is the mask'
        p.mask = m.copy()
        p.startstop(conv(a), conv(b), apply=1)
        if p.mask.tolist() != [x and y for x, y in zip(m.tolist(), want)]:
            return 'mask with apply=1 %r' % (p.mask,)
