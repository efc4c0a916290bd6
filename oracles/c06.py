"""C06: channel lookup by key, name and fallback string."""
import numpy as np
from channelpack import ChannelPack
from oracles.util import sizes

FILES = ['channelpack/pack.py']
RULE = ('random data keys, names (also names that look like fallback strings '
        'of other channels, repeated names, names of absent keys) and '
        'references near them, several prefixes')
PREFIXES = ['ch', 'x', 'CH_', '', 'a.b', 'c+', '(', 'ch1', '1', 'é', '\\d']


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 10 ** 6)
    pool = sorted(set(list(range(0, 13)) + [21, 22, 100, 101, 999] +
                      new[:20]))
    strs = [s for s in consts['new_strs'] if s][:20]
    k = 0
    while k < 9000 or tier != 'quick':
        k += 1
        keys = rng.sample(pool, rng.choice([0, 1, 2, 3, 4, 4, 8]))
        if rng.random() < 0.15:
            keys.append(-rng.randint(1, 5))
        prefix = rng.choice(PREFIXES[:2] * 4 + PREFIXES + strs[:5])
        ks = keys + rng.sample(pool, rng.randint(0, 2))
        nm = []
        for q in ks:
            if rng.random() < 0.6 and q not in [x[0] for x in nm]:
                other = rng.choice(ks)
                nm.append([q, rng.choice([
                    'a', 'b', 'speed', 'Speed', 'a b', 'a b c', '',
                    prefix + str(other), prefix + str(other), str(other),
                    ' ' + prefix + str(other), 'v (m/s)'] + strs)])
        rng.shuffle(nm)
        refs = []
        for q in (keys or [0]) + [7]:
            s = str(q)
            refs += [q, prefix + s, prefix + s + 'x', prefix + s + '\n',
                     prefix + '0' + s, 'x' + prefix + s, prefix.upper() + s,
                     prefix + ' ' + s, prefix + s + ' ', s, prefix,
                     prefix + '-' + s, prefix + s + '.0', prefix + s[:1],
                     prefix + '٣', prefix + '_' + s, prefix + '+' + s,
                     'ch' + s]
        refs += [x[1] for x in nm] + [x[1].upper() for x in nm] + [
            x[1] + ' ' for x in nm] + [x[1][:-1] for x in nm] + strs
        refs += [b for b in (False, True) if int(b) not in keys]
        yield {'keys': keys, 'names': nm, 'prefix': prefix,
               'then': rng.choice([None, 'items', 'assign', 'update', 'drop',
                                   'swap data', 'prefix']),
               'refs': rng.sample(refs, min(len(refs), 25))}


def resolve(keys, names, prefix, ref):
    if isinstance(ref, int):
        return ref if ref in keys else None
    for k, v in names:
        if v == ref:
            return k if k in keys else None
    if ref.startswith(prefix):
        d = ref[len(prefix):]
        if d and all(c in '0123456789' for c in d) and int(d) in keys:
            return int(d)
    return None


def check(case):
    keys, names = list(case['keys']), [tuple(x) for x in case['names']]
    data = {k: np.arange(3) + 10 * i for i, k in enumerate(keys)}
    p = ChannelPack(data, dict(names))
    p.FALLBACK_PREFIX = case['prefix']
    r = lookups(p, data, keys, names, case['prefix'], case['refs'])
    if r or not case.get('then'):
        return r
    # the same pack after changes
    vals = [v for k, v in names]
    names = [(k, v) for (k, _), v in zip(names, vals[1:] + vals[:1])]
    how = case['then']
    if how == 'items':
        for k, v in names:
            p.names[k] = v
    elif how == 'assign':
        p.names = dict(names)
    elif how == 'update':
        p.names.update(names)
    elif how == 'swap data':
        names = [tuple(x) for x in case['names']]
        if len(keys) > 1:
            a, b = keys[:2]
            data = dict(data)
            data[a], data[b] = data[b], data[a]
            p.data[a], p.data[b] = data[a], data[b]
    elif how == 'drop':
        names = [tuple(x) for x in case['names']]
        if keys:
            k = keys.pop(0)
            del p.data[k]
    elif how == 'prefix':
        names = [tuple(x) for x in case['names']]
        p.FALLBACK_PREFIX = case['prefix'] + 'q'
        r = lookups(p, data, keys, names, case['prefix'] + 'q',
                    case['refs'])
        return r and 'after a change (%s): %s' % (how, r)
    r = lookups(p, data, keys, names, case['prefix'], case['refs'])
    return r and 'after a change (%s): %s' % (how, r)


def lookups(p, data, keys, names, prefix, refs):
    nd = dict(names)
    for ref in refs:
        want = resolve(keys, names, prefix, ref)
        try:
            got = p(ref)
            if want is None:
                return 'pack(%r) gave %r' % (ref, got)
            if not np.array_equal(got, data[want]):
                return 'pack(%r) is not channel %r' % (ref, want)
        except KeyError:
            if want is not None:
                return 'KeyError for %r, channel %r' % (ref, want)
        try:
            got = p.name(ref, fallback=True)
            if want is None or got != prefix + str(want):
                return 'name(%r, fallback) %r' % (ref, got)
        except KeyError:
            if want is not None:
                return 'KeyError for the fallback name of %r' % (ref,)
        try:
            got = p.name(ref)
            if want is None or want not in nd or got != nd[want]:
                return 'name(%r) %r' % (ref, got)
        except KeyError:
            if want is not None and want in nd:
                return 'KeyError for the name of %r' % (ref,)
        if want is not None and want in nd and nd[want].split():
            if p.name(ref, firstwordonly=True) != nd[want].split()[0]:
                return 'first word of %r' % (ref,)
