"""C08: appending concatenates every channel or changes nothing."""
import copy
import numpy as np
from channelpack import ChannelPack
from channelpack.pack import NpDict, IntKeyDict
from oracles.util import mkdata, KINDS, eqarr, rmask, lengths, sizes

FILES = ['channelpack/pack.py']
RULE = ('random pairs of packs with equal, overlapping or different key '
        'sets in data and names, also empty ones, all types of arrays, '
        'chains of appends')


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 400)
    k = 0
    while k < 8000 or tier != 'quick':
        k += 1
        nch = rng.choice([0, 1, 2, 3, 4] + [x for x in new if x < 40][:4])
        keys = rng.sample(range(0, 60), nch)
        packs = []
        for i in range(rng.choice([2, 2, 2, 3, 4])):
            ks = list(keys)
            r = rng.random()
            if r < 0.12:
                ks = []
            elif r < 0.2 and ks:
                ks = ks[:-1] if rng.random() < 0.5 else ks[1:]
            elif r < 0.28:
                ks = ks + [61 + i]
            elif r < 0.32:
                ks = [q + 1 for q in ks]
            rng.shuffle(ks)
            n = lengths(rng, hints, consts, 400)
            nks = rng.choice([ks, ks, ks, [], ks[:-1], ks + [99]])
            nks = list(nks)
            rng.shuffle(nks)
            packs.append({
                'data': [[q, rng.choice(KINDS) if rng.random() < 0.1 else
                          KINDS[q % len(KINDS)], n, i] for q in ks],
                'names': [[q, 'n%d_%d' % (q, i)] for q in nks],
                'fn': rng.choice(['', 'f%d' % i]),
                'mask': rng.randint(0, 10 ** 6)})
        if rng.random() < 0.1:
            packs.append({'self': True})
        yield {'packs': packs}


def mk(spec):
    import random
    p = ChannelPack(mkdata(spec['data']), {k: v for k, v in spec['names']})
    if spec['fn']:
        p.fn = spec['fn']
    p.mask = np.array(rmask(random.Random(spec['mask']), len(p.mask)),
                      dtype=bool)
    return p


def state(p):
    return ({k: v.copy() for k, v in p.data.items()}, dict(p.names),
            list(p.filenames), p.mask.copy(), p.fn, p.nof, p.parts())


def samestate(a, b):
    return (list(a[0]) == list(b[0]) and all(
        a[0][k].dtype == b[0][k].dtype and eqarr(a[0][k], b[0][k])
        for k in a[0]) and a[1] == b[1] and a[2] == b[2] and
        eqarr(a[3], b[3]) and a[4:] == b[4:])


def selfappend(p):
    d, names, files, m = state(p)[:4]
    p.append_pack(p)
    for k in d:
        if not eqarr(p.data[k], np.append(d[k], d[k])):
            return 'appended to itself: %r' % (p.data[k],)
    if set(p.data) != set(d) or dict(p.names) != names or \
            p.filenames != files + files:
        return 'appended to itself: %r %r %r' % (list(p.data), p.names,
                                                 p.filenames[:9])
    n = len(p.data[min(p.data)]) if p.data else 0
    if p.mask.tolist() != [True] * n:
        return 'appended to itself: mask %r' % p.mask


def check(case):
    p = mk(case['packs'][0])
    for spec in case['packs'][1:]:
        if spec.get('self'):
            r = selfappend(p)
            if r:
                return r
            continue
        o = mk(spec)
        sp, so = state(p), state(o)
        bad = (sp[0] and so[0] and set(sp[0]) != set(so[0])) or (
            sp[1] and so[1] and set(sp[1]) != set(so[1]))
        want = None
        promo = False
        if not bad:
            try:
                want = {k: np.append(sp[0][k], so[0][k]) for k in so[0]} \
                    if sp[0] and so[0] else (sp[0] or so[0])
            except TypeError:
                promo = True
        try:
            r = p.append_pack(o)
        except ValueError:
            if not bad:
                return 'ValueError for matching key sets'
            if not samestate(state(p), sp):
                return 'refused append changed the pack'
            if not samestate(state(o), so):
                return 'refused append changed the other pack'
            continue
        except TypeError:
            if not promo:
                raise
            if not samestate(state(p), sp) or not samestate(state(o), so):
                return 'failed append changed a pack'
            continue
        if bad or promo:
            return 'append accepted'
        if not samestate(state(o), so):
            return 'other pack changed'
        if set(p.data) != set(want):
            return 'channels %r' % list(p.data)
        for k in want:
            if not eqarr(p.data[k], want[k]) or \
                    p.data[k].dtype != want[k].dtype:
                return 'channel %r is %r, want %r' % (k, p.data[k], want[k])
        if dict(p.names) != (sp[1] or so[1]):
            return 'names %r' % p.names
        if p.filenames != sp[2] + so[2]:
            return 'filenames %r' % p.filenames
        n = len(p.data[min(p.data)]) if p.data else 0
        if p.mask.dtype != bool or p.mask.tolist() != [True] * n:
            return 'mask %r' % p.mask
        if type(p.data) is not NpDict or type(p.names) is not IntKeyDict:
            return 'types'
        if p.data is o.data or p.names is o.names or \
                p.filenames is o.filenames or p.mask is o.mask:
            return 'shared with the other pack'
        # a change of the pack afterwards does not reach the other
        p.names[5000] = 'later'
        p.filenames.append('later')
        p.data[5000] = np.zeros(n)
        ok = samestate(state(o), so)
        del p.names[5000], p.data[5000]
        p.filenames.pop()
        if not ok:
            return 'later change reached the other pack'
