"""C02: parts are in step with the mask after every operation."""
import numpy as np
from channelpack import ChannelPack
from channelpack.pack import NpDict
from oracles.util import (runs, enc, dec, rdata, mkdata, rmask, eqarr,
                          lengths)

FILES = ['channelpack/pack.py', 'channelpack/datautils.py']
RULE = ('random histories of 1 to 12 public operations from the seed, on '
        'packs of 0 to 4 channels of several types, lengths up to 300 or '
        'constants of the source; state compared after every operation')


def op(rng, n, hints, consts):
    k = rng.choice(['mask', 'mask', 'mask', 'mindur', 'mindur', 'nomindur',
                    'duration', 'duration', 'startstop', 'reset', 'append',
                    'data', 'npdata', 'names', 'iand', 'ior', 'fn', 'nof',
                    'xmask', 'setsame', 'badmask', 'badmindur', 'badnof',
                    'delmask', 'baddata', 'appendself'])
    if k == 'mask':
        return [k, enc(rmask(rng, n))]
    if k == 'xmask':
        return [k, enc(rmask(rng, max(0, n + rng.choice([-2, -1, 1, 3]))))]
    if k == 'mindur':
        return [k, rng.choice([0, 1, 2, 3, 4, 5, n, n + 1, -1])]
    if k == 'duration':
        return [k, rng.choice([0, 1, 2, 3, 0.5, 1.5, 2.5, n]),
                rng.choice([1, 1, 2, 10, 0.5]), rng.random() < 0.6]
    if k == 'startstop':
        return [k, enc(rmask(rng, n)), enc(rmask(rng, n)),
                rng.random() < 0.7]
    if k == 'append':
        return [k, rng.randint(0, 5), rng.random() < 0.2]
    if k in ('data', 'npdata'):
        m = rng.choice([n, lengths(rng, hints, consts)])
        return [k, rdata(rng, m)]
    if k in ('iand', 'ior'):
        return [k, enc(rmask(rng, n))]
    return [k]


def cases(rng, tier, hints, consts):
    k = 0
    while k < 6000 or tier != 'quick':
        k += 1
        n = lengths(rng, hints, consts)
        d = rdata(rng, n)
        ops, m = [], n if d else 0
        # the tracked length is a guess; check() skips what does not fit
        for _ in range(rng.randint(1, 12)):
            o = op(rng, m, hints, consts)
            ops.append(o)
            if o[0] in ('data', 'npdata'):
                m = o[1][0][2] if o[1] else 0
            elif o[0] == 'append' and m:
                m += o[1]
        yield {'data': d, 'ops': ops}


def look(p, shorter=False):
    m = p.mask
    want = runs(m)
    if p.parts() != list(range(len(want))):
        return 'parts %r, mask has %d runs' % (p.parts(), len(want))
    for ch in list(p.data)[:2]:
        a = p.data[ch]
        for k, (s, e) in enumerate(want):
            if k > 6 and k < len(want) - 3:
                continue
            if not eqarr(p(ch, part=k), a[s:e]):
                return 'part %d of %r is %r, want %r' % (
                    k, ch, p(ch, part=k), a[s:e])
        try:
            p(ch, part=len(want))
            return 'part %d given' % len(want)
        except IndexError:
            pass
    if shorter and p.mindur is not None and any(
            b - a < p.mindur for a, b in want):
        return 'run shorter than mindur'


def check(case):
    p = ChannelPack(mkdata(case['data']))
    r = look(p)
    if r:
        return 'construction: ' + r
    for o in case['ops']:
        k, shorter = o[0], False
        try:
            if k in ('mask', 'xmask'):
                if k == 'mask' and sum(x[1] for x in o[1]) != len(p.mask):
                    continue
                p.mask = dec(o[1])
                shorter = True
            elif k == 'mindur':
                p.mindur = o[1]
                shorter = True
            elif k == 'nomindur':
                p.mindur = None
            elif k == 'duration':
                p.duration(o[1], samplerate=o[2], mindur=o[3])
            elif k == 'startstop':
                a, b = dec(o[1]), dec(o[2])
                if len(a) != len(p.mask):
                    continue
                p.startstop(a, b, apply=o[3])
                shorter = True
            elif k == 'reset':
                p.mask_reset()
                shorter = True
            elif k == 'append':
                d = {x: np.resize(p.data[x], o[1]) if len(p.data[x]) else
                     p.data[x] for x in p.data}
                if o[2]:
                    d[77] = [1]
                q = ChannelPack(d)
                q.mask = np.array([i % 2 == 0 for i in range(len(q.mask))],
                                  dtype=bool)
                try:
                    p.append_pack(q)
                except ValueError:
                    if not o[2]:
                        raise
                r = look(q)
                if r:
                    return 'other after append: ' + r
            elif k == 'appendself':
                p.append_pack(p)
            elif k == 'data':
                p.data = mkdata(o[1])
                shorter = True
            elif k == 'npdata':
                p.data = NpDict(mkdata(o[1]))
                shorter = True
            elif k in ('iand', 'ior'):
                a = dec(o[1])
                if len(a) != len(p.mask):
                    continue
                if k == 'iand':
                    p.mask &= a
                else:
                    p.mask |= a
                shorter = True
            elif k == 'names':
                p.names = {i: 'n%d' % i for i in p.data}
            elif k == 'fn':
                p.fn = 'a.txt'
            elif k == 'nof':
                p.nof = 'filter'
            elif k == 'setsame':
                p.mask = p.mask
                shorter = True
            elif k in ('badmask', 'badmindur', 'badnof', 'delmask',
                       'baddata'):
                try:
                    if k == 'badmask':
                        p.mask = [True] * len(p.mask)
                    elif k == 'badmindur':
                        p.mindur = 1.5
                    elif k == 'badnof':
                        p.nof = 'x'
                    elif k == 'baddata':
                        p.data = {0: [[1, 2], [3, 4]]}
                    elif k == 'delmask':
                        del p.data
                    return k + ' accepted'
                except (TypeError, ValueError, AttributeError):
                    pass
        except Exception as e:
            return '%r raised %r' % (o, e)
        r = look(p, shorter)
        if r:
            return 'after %r: %s' % (o, r)
