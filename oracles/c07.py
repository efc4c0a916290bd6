"""C07: data and names only hold integer keys and flat arrays."""
import collections
import numpy as np
from channelpack.pack import IntKeyDict, NpDict
from channelpack import ChannelPack
from oracles.util import column, KINDS, same

FILES = ['channelpack/pack.py']
RULE = ('random sequences of construction, item assignment, update, '
        'setdefault and |= with dicts, mappings, pairs and iterators, valid '
        'and invalid keys and values, checked against a dict reference')
KEYS = [0, 1, 2, 3, 7, 12, -1, True, 100000, ['np', 3]]
BADKEYS = ['0', 'a', 1.0, None, '', 2.5, ['t', 1], ['npf', 1]]
KW = ['k%d', '%d', '1%d', '-%d', ' %d', 'True%d']
VALS = ['list', 'tuple', 'arr', 'empty', 'range', 'strlist', 'mixed',
        'bytearr', 'nonelist'] + ['k:' + k for k in KINDS]
BADVALS = ['num', 'str', 'nested', 'arr2', 'none', 'zerod', 'arr3', 'dict',
           'set', 'emptyrow', 'rowarr']


def mkkey(k):
    if isinstance(k, list):
        return {'np': np.int64, 't': lambda x: (x,),
                'npf': np.float64}[k[0]](k[1])
    return k


def mkval(v, i):
    if v.startswith('k:'):
        return column(v[2:], 3, i)
    return {'list': [i, i + 1], 'tuple': (i, 2.5), 'arr': np.arange(i + 2),
            'empty': [], 'range': range(i + 1), 'strlist': ['a', 'b%d' % i],
            'mixed': [i, 'x'], 'bytearr': np.array([b'a', b'b']),
            'nonelist': [None, i],
            'num': i, 'str': 'abc', 'nested': [[1, 2], [3, 4]],
            'arr2': np.zeros((2, 2)), 'none': None, 'zerod': np.array(3),
            'arr3': np.zeros((1, 2, 1)), 'dict': {1: 2}, 'set': {1, 2},
            'emptyrow': [[]], 'rowarr': np.zeros((3, 0))}[v]


class Mapping(object):
    def __init__(self, pairs):
        self.d = dict(pairs)

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def cases(rng, tier, hints, consts):
    k = 0
    extra = [x for x in consts['new_ints'] if abs(x) < 10 ** 9][:10]
    while k < 15000 or tier != 'quick':
        k += 1
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(['set', 'set', 'update', 'update', 'setdefault',
                             'ior', 'new', 'kwargs', 'del'])
            n = rng.choice([0, 1, 1, 2, 3, 6]) if op not in (
                'set', 'setdefault', 'del') else 1
            items = []
            pb = rng.choice([0, 0, 0.3])
            for _ in range(n):
                kk = rng.choice(BADKEYS) if rng.random() < pb else \
                    rng.choice(KEYS + extra)
                vv = rng.choice(BADVALS) if rng.random() < pb else \
                    rng.choice(VALS)
                items.append([kk, vv])
            ops.append([op, rng.choice(['dict', 'pairs', 'iter', 'tuples',
                                        'lists', 'mapping', 'ordered',
                                        'gen', 'iterpairs', 'own']), items])
        yield {'cls': rng.choice(['IntKeyDict', 'NpDict', 'NpDict']),
               'ops': ops}


def source(how, pairs, cls):
    if how == 'dict':
        return dict(pairs)
    if how == 'mapping':
        return Mapping(pairs)
    if how == 'ordered':
        return collections.OrderedDict(pairs)
    if how == 'pairs':
        return list(pairs)
    if how == 'tuples':
        return tuple(pairs)
    if how == 'lists':
        return [list(p) for p in pairs]
    if how == 'iter':
        return iter(pairs)
    if how == 'gen':
        return (p for p in pairs)
    if how == 'iterpairs':
        return [iter(p) for p in pairs]
    if how == 'own':
        try:
            return cls(dict(pairs))
        except Exception:
            return dict(pairs)


def okkey(k):
    return isinstance(k, int)


def okval(v):
    try:
        return np.array(v, copy=False).ndim == 1
    except ValueError:
        return False


def content(d):
    return {k: (v, type(k)) for k, v in d.items()}


def verify(d, cls):
    for k, v in d.items():
        if not isinstance(k, int):
            return 'key %r' % (k,)
        if cls is NpDict and not (isinstance(v, np.ndarray) and
                                  v.ndim == 1):
            return 'value %r' % (v,)


def samevals(got, want, cls):
    if list(got) != list(want):
        return False
    for k in want:
        g, w = got[k], want[k]
        if cls is NpDict:
            w = np.array(w, copy=False)
            if g.dtype != w.dtype or not same(g, w):
                return False
        elif g is not w and not (type(g) is type(w) and g is w):
            return False
    return True


def check(case):
    cls = {'IntKeyDict': IntKeyDict, 'NpDict': NpDict}[case['cls']]
    d = cls()
    ref = {}
    for i, (op, how, items) in enumerate(case['ops']):
        pairs = [(mkkey(k), mkval(v, i)) for k, v in items]
        before = dict(d)
        if op == 'del':
            if ref:
                k = sorted(ref)[0]
                del d[k]
                del ref[k]
            continue
        hashable = True
        if op == 'setdefault' and pairs[0][0] in ref:
            # value is not needed, but a bad one may be refused
            pass
        badk = any(not okkey(k) for k, v in pairs)
        badv = cls is NpDict and any(not okval(v) for k, v in pairs)
        if how in ('dict', 'mapping', 'ordered', 'own'):
            eff = list(dict(pairs).items())
            badk = any(not okkey(k) for k, v in eff)
            badv = cls is NpDict and any(not okval(v) for k, v in eff)
        if op == 'kwargs':
            pairs = [(KW[(i + len(pairs)) % len(KW)] % j, p[1])
                     for j, p in enumerate(pairs)]
            badk = bool(pairs)
            badv = cls is NpDict and any(not okval(v) for k, v in pairs)
        try:
            if op == 'set':
                d[pairs[0][0]] = pairs[0][1]
            elif op == 'setdefault':
                k, v = pairs[0]
                r = d.setdefault(k, v)
                if not badk and not badv and k in ref and not samevals(
                        {0: r}, {0: ref[k]}, cls):
                    return 'setdefault of a present key gave %r' % (r,)
            elif op == 'update':
                d.update(source(how, pairs, cls))
            elif op == 'ior':
                d |= source(how, pairs, cls)
                if type(d) is not cls:
                    return '|= gave a %s' % type(d)
            elif op == 'kwargs':
                d.update(**dict(pairs))
            elif op == 'new':
                d = cls(source(how, pairs, cls))
                ref = {}
        except (TypeError, ValueError) as e:
            if not badk and not badv:
                if op == 'setdefault':
                    return 'setdefault raised %r' % e
                return '%s %s raised %r' % (op, how, e)
            if not badv and not isinstance(e, TypeError):
                return 'ValueError for a bad key'
            if not badk and not isinstance(e, ValueError):
                return '%s for a bad value' % type(e).__name__
            if set(d) != set(before) or any(d[k] is not before[k]
                                            for k in before):
                return 'refused %s %s changed the content' % (op, how)
            continue
        if badk or badv:
            return '%s %s accepted a bad %s' % (op, how, 'key' if badk else
                                                'value')
        for k, v in pairs:
            if op == 'setdefault':
                ref.setdefault(k, v)
            else:
                ref[k] = v
        r = verify(d, cls)
        if r:
            return r
        if not samevals(d, ref, cls):
            return '%s %s: %r, want %r' % (op, how, d, ref)
    if cls is NpDict:
        p = ChannelPack(ref)
        if type(p.data) is not NpDict or not samevals(p.data, ref, cls):
            return 'pack data'
    else:
        p = ChannelPack({}, ref)
        if type(p.names) is not IntKeyDict or not samevals(p.names, ref,
                                                           cls):
            return 'pack names'
        p.names = dict(ref)
        if type(p.names) is not IntKeyDict:
            return 'names assigned a dict'
        for bad in ({'a': 1}, {1.5: 'x'}):
            try:
                p.names = bad
                return 'names = %r' % bad
            except TypeError:
                pass
