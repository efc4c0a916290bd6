"""C10: records are the row-wise view of the called channels."""
import numpy as np
from channelpack import ChannelPack
from oracles.util import column, KINDS, rmask, enc, dec, lengths, same, runs

FILES = ['channelpack/pack.py']
RULE = ('random packs with valid and invalid names, channels of different '
        'lengths, masks, parts and settings, with and without fallback')
NAMES = ['a', 'b', 'speed', 'c1', 'X', 'ch3', 'ch0', 'ch1', 'zeta', 'n10']
BAD = ['a b', '1x', 'class', '_u', '', 'a-b']


def cases(rng, tier, hints, consts):
    k = 0
    while k < 8000 or tier != 'quick':
        k += 1
        n = lengths(rng, hints, consts)
        keys = rng.sample([0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 20, 100, 101],
                          rng.randint(0, 5))
        same_n = rng.random() < 0.85
        data = [[q, rng.choice(KINDS), n if same_n else
                 max(0, n + rng.randint(-2, 2)), rng.randint(0, 3)]
                for q in keys]
        nm = rng.sample(NAMES, len(keys)) if len(keys) <= len(NAMES) else []
        names = [[q, v] for q, v in zip(keys, nm)]
        r = rng.random()
        if r < 0.15 and names:
            names[rng.randrange(len(names))][1] = rng.choice(BAD)
        elif r < 0.25 and len(names) > 1:
            names[0][1] = names[1][1]
        elif r < 0.35 and names:
            names.pop()
        elif r < 0.4:
            names.append([55, 'absent'])
        rng.shuffle(names)
        yield {'data': data, 'names': names, 'mask': enc(rmask(rng, n)),
               'own': rng.choice([None, None, 'nan', 'filter']),
               'nof': rng.choice([None, None, 'nan', 'filter', 'ignore']),
               'prefix': rng.choice(['ch', 'ch', 'ch', 'x', 'Q_', 'é', '',
                                     '_p', 'a b']),
               'part': rng.choice([None, None, None, 0, 1, 2]),
               'fallback': rng.random() < 0.4, 'same': same_n}


def valid(names):
    import keyword
    return len(set(names)) == len(names) and all(
        v.isidentifier() and not keyword.iskeyword(v) and
        not v.startswith('_') for v in names)


def check(case):
    data = {k: column(kind, n, off) for k, kind, n, off in case['data']}
    names = {k: v for k, v in case['names']}
    p = ChannelPack(data, names)
    m = dec(case['mask'])
    p.mask = m.copy()
    p.nof = case['own']
    pre = case['prefix']
    p.FALLBACK_PREFIX = pre
    if case['fallback']:
        ks = sorted(data)
        fields = [pre + '%d' % k for k in ks]
    else:
        ks = sorted(names)
        fields = [names[k] for k in ks]
    kw = {'part': case['part'], 'nof': case['nof']}
    cols, err = [], None
    for k, f in zip(ks, fields):
        try:
            cols.append(p(k if case['fallback'] else f, **kw))
        except Exception as e:
            err = type(e)
            break
    try:
        recs = list(p.records(fallback=case['fallback'], **kw))
    except Exception as e:
        if not valid(fields):
            if not isinstance(e, ValueError):
                return 'bad names raised %r' % e
            return None
        if err is None:
            return 'records raised %r' % e
        if not isinstance(e, err):
            return 'records raised %r, the calls %s' % (e, err)
        return None
    if not valid(fields):
        return 'bad names %r accepted' % (fields,)
    if err is not None:
        return 'records given though a call raises %s' % err
    n = min([len(c) for c in cols]) if cols else 0
    if len(recs) != n:
        return '%d records, want %d' % (len(recs), n)
    for i, r in enumerate(recs):
        if list(r._fields) != fields:
            return 'fields %r, want %r' % (r._fields, fields)
        for f, c in zip(fields, cols):
            g, w = getattr(r, f), c[i]
            if type(g) is not type(w) or not (
                    g is w or g == w or (g != g and w != w)):
                return 'record %d, field %s: %r, want %r' % (i, f, g, w)
    if p.mask.tolist() != m.tolist():
        return 'mask changed'
