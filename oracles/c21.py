"""C21: streams in compound files are their sectors in chain order."""
import io
import random
import struct
from channelpack.xlrd import compdoc
from oracles.util import sizes

FILES = ['channelpack/xlrd/compdoc.py']
RULE = ('compound files with 1 to 4 streams of sizes around multiples of the '
        'sector sizes, sectors in order, reversed, interleaved and shuffled, '
        'with unused sectors between; sector sizes 512 and others; chains '
        'made too short, too long, cyclic, crossing, or leading outside')
SIG = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'


def content(seed, n):
    r = random.Random(seed)
    return bytes(r.randrange(256) for _ in range(min(n, 97))) * (n // 97 + 1)


def layout(order, ids, rng, gaps):
    """Place chains; returns {chain: [sector numbers]} and the total."""
    chains = {k: [None] * n for k, n in ids}
    slots = [(k, i) for k, n in ids for i in range(n)]
    if order == 'reversed':
        slots = slots[::-1]
    elif order == 'shuffled':
        rng.shuffle(slots)
    elif order == 'interleaved':
        slots.sort(key=lambda s: (s[1], s[0]))
    elif order == 'runs':
        # pieces of adjacent sectors, out of order
        pieces, i = [], 0
        while i < len(slots):
            k = rng.randint(1, 4)
            pieces.append(slots[i:i + k])
            i += k
        rng.shuffle(pieces)
        slots = [s for p in pieces for s in p]
    pos = 0
    for k, i in slots:
        if gaps and rng.random() < 0.2:
            pos += rng.randint(1, 2)
        chains[k][i] = pos
        pos += 1
    return chains, pos


def build(case):
    """bytes of the file, and {name: bytes}."""
    rng = random.Random(case['seed'])
    ssz, sssz = case['ssz'], case['sssz']
    S, SS = 1 << ssz, 1 << sssz
    MIN = 4096
    names = list(case['sizes'])
    data = {n: content(case['seed'] + i, case['sizes'][n])[:case['sizes'][n]]
            for i, n in enumerate(names)}
    big = [n for n in names if len(data[n]) >= MIN]
    small = [n for n in names if len(data[n]) < MIN]
    # short sectors
    sch, stot = layout(case['order'], [(n, -(-len(data[n]) // SS))
                                       for n in small], rng, case['gaps'])
    sscs = bytearray(b'\xEE' * (stot * SS))
    ssat = [-1] * stot
    for n in small:
        c = sch[n]
        for i, s in enumerate(c):
            piece = data[n][i * SS:(i + 1) * SS]
            sscs[s * SS:s * SS + len(piece)] = piece
            ssat[s] = c[i + 1] if i + 1 < len(c) else -2
    nent = S // 4
    nssat = -(-len(ssat) // nent)
    ssat += [-1] * (nssat * nent - len(ssat))
    nst = len({n[:k] for n in names for k in range(len(n)) if n[k] == '/'})
    ndir = -(-(len(names) + nst + 1) * 128 // S)
    ids = [('dir', ndir), ('sscs', -(-len(sscs) // S)), ('ssat', nssat)]
    ids += [('s:' + n, -(-len(data[n]) // S)) for n in big]
    nsat = 1
    while True:
        # (an extension of the list of table sectors beyond 109)
        nx = -(-max(0, nsat - 109) // (nent - 1))
        r2 = random.Random(case['seed'] + 7)
        ch, tot = layout(case['order'], ids + [('sat', nsat), ('x', nx)], r2,
                         case['gaps'])
        if -(-tot // nent) <= nsat:
            break
        nsat = max(nsat + 1, -(-tot // nent))
    sat = [-1] * (nsat * nent)
    for k, c in ch.items():
        for i, s in enumerate(c):
            sat[s] = -3 if k == 'sat' else -4 if k == 'x' else (
                c[i + 1] if i + 1 < len(c) else -2)
    damage = case['damage']
    target = case['target']
    first = {n: (ch['s:' + n][0] if n in big else
                 (sch[n][0] if sch[n] else -2)) for n in names}
    if damage:
        c = ch['s:' + target] if target in big else sch[target]
        tab = sat if target in big else ssat
        k = case['at'] % len(c)
        if damage == 'short':
            if k + 1 == len(c):
                k = max(0, k - 1)
            if len(c) < 2:
                damage = None
            tab[c[k]] = -2
        elif damage == 'long':
            free = [i for i in range(tot if target in big else stot)
                    if tab[i] == -1]
            if free:
                tab[c[-1]] = free[0]
                tab[free[0]] = -2
            else:
                damage = None
        elif damage == 'outside':
            tab[c[k]] = case['far'] + (tot if target in big else stot)
        elif damage == 'cyclic':
            tab[c[-1]] = c[k]
        elif damage == 'crossing':
            others = [n for n in names if n != target and
                      (n in big) == (target in big)]
            oc = [(ch['s:' + n] if n in big else sch[n]) for n in others]
            oc = [x for x in oc if x]
            if target in big:
                oc = [ch['dir']]
            if oc:
                tab[c[k]] = oc[0][0]
            else:
                damage = None
        elif damage == 'free':
            tab[c[k]] = -1
        elif damage == 'first':
            first[target] = case['far'] + (tot if target in big else stot)
    mem = bytearray(b'\xDD' * (tot * S))

    def put(chain, b):
        for i, s in enumerate(chain):
            piece = bytes(b[i * S:(i + 1) * S])
            mem[s * S:s * S + len(piece)] = piece

    put(ch['sscs'], sscs)
    put(ch['ssat'], struct.pack('<%di' % len(ssat), *ssat))
    put(ch['sat'], struct.pack('<%di' % len(sat), *sat))
    more = ch['sat'][109:] + [-1] * (nx * (nent - 1) - max(0, nsat - 109))
    for i, x in enumerate(ch['x']):
        put([x], struct.pack('<%di' % nent, *(
            more[i * (nent - 1):(i + 1) * (nent - 1)] + [
                ch['x'][i + 1] if i + 1 < nx else -2])))
    for n in big:
        put(ch['s:' + n], data[n])

    def dent(name, etype, left, right, root, first, size):
        u = (name + '\0').encode('utf_16_le')
        b = u + bytes(64 - len(u)) + struct.pack(
            '<HBBiii', len(u), etype, 1, left, right, root)
        b += bytes(116 - len(b)) + struct.pack('<ii', first, size)
        return b + bytes(128 - len(b))

    # a search tree of siblings of any shape; streams named a/b in storages
    kids, entries = {None: []}, [('Root Entry', 5, None)]
    did = {}
    for n in names:
        parts = n.split('/')
        up = None
        for k in range(1, len(parts)):
            st = '/'.join(parts[:k])
            if st not in did:
                did[st] = len(entries)
                entries.append((parts[k - 1], 1, st))
                kids[up].append(did[st])
                kids[st] = []
            up = st
        did[n] = len(entries)
        entries.append((parts[-1], 2, n))
        kids[up].append(did[n])
    left, right = {}, {}

    def tree(lst):
        if not lst:
            return -1
        k = {'list': 0, 'left': len(lst) - 1, 'mid': len(lst) // 2}.get(
            case.get('tree', 'list'), rng.randrange(len(lst)))
        left[lst[k]] = tree(lst[:k])
        right[lst[k]] = tree(lst[k + 1:])
        return lst[k]
    roots = {up: tree(lst) for up, lst in kids.items()}
    d = b''
    for k, (nm, et, key) in enumerate(entries):
        if et == 5:
            d += dent(nm, 5, -1, -1, roots[None],
                      ch['sscs'][0] if ch['sscs'] else -2, len(sscs))
        elif et == 1:
            d += dent(nm, 1, left[k], right[k], roots[key], 0, 0)
        else:
            d += dent(nm, 2, left[k], right[k], -1, first[key],
                      len(data[key]))
    put(ch['dir'], d + bytes(ndir * S - len(d)))
    head = SIG + bytes(16) + struct.pack('<HH', 0x3e, 3) + b'\xFE\xFF'
    head += struct.pack('<HH', ssz, sssz) + bytes(10)
    head += struct.pack('<iiiiiiii', nsat, ch['dir'][0], 0, MIN,
                        ch['ssat'][0] if ch['ssat'] else -2, nssat,
                        ch['x'][0] if nx else -2, nx)
    head += struct.pack('<109i', *(ch['sat'] + [-1] * (109 - nsat))[:109])
    assert len(head) == 512
    return head + bytes(mem), data, damage, big


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 60000)
    # many entries; an extended list of tables
    for n, order, tree in ((255, 'in order', 'mid'), (300, 'runs', 'any')):
        szs = {'s%03d' % i: 20 for i in range(n)}
        szs['Workbook'] = 5000
        szs['zz'] = 4500
        yield {'ssz': 9, 'sssz': 6, 'sizes': szs, 'order': order,
               'gaps': False, 'damage': None, 'target': 'zz', 'at': 0,
               'far': 0, 'tree': tree, 'seed': n,
               'look': ['Workbook', 'zz', 's007', 's250']}
    for ssz, size, order in ((7, 460000, 'in order'), (7, 470000, 'runs'),
                             (6, 130000, 'shuffled'), (7, 1000000, 'in order')):
        yield {'ssz': ssz, 'sssz': 6, 'sizes': {'Workbook': size, 'x': 100},
               'order': order, 'gaps': False, 'damage': None, 'target': 'x',
               'at': 0, 'far': 0, 'tree': 'list', 'seed': size}
    k = 0
    while k < 1500 or tier != 'quick':
        k += 1
        ssz = rng.choice([9, 9, 9, 9, 8, 10, 12])
        S = 1 << ssz
        szs = {}
        for nm in ['Workbook', 'Book', 'x', 'Another stream'][
                :rng.randint(1, 4)]:
            big = [4096, 4097, 4095 + S, 4096 + S, 5 * 4096 + 3,
                   rng.randint(4096, 12000), S * 9, S * 9 + 1, S * 10 - 1]
            small = [1, 63, 64, 65, 128, 4095, rng.randint(1, 4095)]
            r = rng.random()
            if new and r < 0.25:
                szs[nm] = rng.choice(new)
            elif new and r < 0.4:
                szs[nm] = max(1, min(60000, rng.choice(new) * rng.choice(
                    [S, 64]) + rng.choice([-1, 0, 1])))
            elif r < 0.7:
                szs[nm] = rng.choice([b for b in big if b >= 4096])
            else:
                szs[nm] = rng.choice(small)
        dmg = None
        if rng.random() < 0.45:
            dmg = rng.choice(['short', 'long', 'outside', 'cyclic',
                              'crossing', 'free', 'first'])
        if rng.random() < 0.2:
            # in storages
            szs = {rng.choice(['', 'st/', 'st/b/', 'Z/']) + nm: v
                   for nm, v in szs.items()}
        yield {'ssz': ssz, 'sssz': rng.choice([6, 6, 6, 7]), 'sizes': szs,
               'order': rng.choice(['in order', 'reversed', 'shuffled',
                                    'interleaved', 'runs', 'runs']),
               'gaps': rng.random() < 0.6, 'damage': dmg,
               'target': rng.choice(sorted(szs)), 'at': rng.randrange(50),
               'far': rng.choice([0, 0, 1, 5, 1000, 100000]),
               'tree': rng.choice(['list', 'left', 'mid', 'any', 'any']),
               'seed': rng.randrange(1 << 30)}


def open_(b):
    return compdoc.CompDoc(b, logfile=io.StringIO())


def call(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return e


def located(r):
    mem, base, n = r
    return None if mem is None else bytes(mem[base:base + n])


def check(case):
    b, data, damage, big = build(case)
    for n in case.get('look', data):
        hit = damage and n == case['target']
        for how in ('locate', 'get'):
            cd = call(open_, b)
            if isinstance(cd, Exception):
                if hit or damage:
                    continue
                return 'open: %r' % cd
            if how == 'locate':
                r = call(cd.locate_named_stream, n)
                g = r if isinstance(r, Exception) else located(r)
            else:
                g = call(cd.get_named_stream, n)
                g = bytes(g) if not isinstance(g, Exception) and \
                    g is not None else g
            if not hit:
                if g != data[n]:
                    return '%s %r: %s, want %d bytes' % (
                        how, n, g if isinstance(g, Exception) or g is None
                        else 'wrong %d bytes' % len(g), len(data[n]))
                continue
            # damaged: an error, or (short sectors, or without a check of
            # the size) what the chain has of the stream
            if isinstance(g, Exception):
                continue
            if g is None:
                return '%s %r: None' % (how, n)
            if how == 'locate' and n in big:
                return '%s %r with chain %s: no error' % (how, n, damage)
            if damage == 'crossing':
                continue        # the chain as recorded leads there
            if damage == 'cyclic':
                return '%s %r with a cyclic chain: no error' % (how, n)
            if not data[n].startswith(g):
                return '%s %r with chain %s: bytes of other sectors' % (
                    how, n, damage)
    cd = open_(b) if not damage else None
    if cd:
        if cd.locate_named_stream('nosuch') != (None, 0, 0):
            return 'a stream that is not there is located'
        if cd.get_named_stream('nosuch') is not None:
            return 'a stream that is not there is given'
