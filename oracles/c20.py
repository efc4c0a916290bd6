"""C20: packed numbers and strings of xls records decode exactly."""
import struct
from channelpack.xlrd import sheet, biffh
from oracles.util import sizes

FILES = ['channelpack/xlrd/sheet.py', 'channelpack/xlrd/biffh.py']
RULE = ('packed numbers: all flag combinations of boundary and random bit '
        'patterns; strings: lengths 0 to 300 and around 255/65535, 8-bit and '
        '16-bit, all option combinations, at offsets, with data after')


def cases(rng, tier, hints, consts):
    for base in (0, 4, 8, 0x80, 0x100, 0x7ffffffc, 0x80000000, 0xfffffffc,
                 0x3ff00000, 0xbff00000, 0x7ff00000, 0xfff00000, 0x7ff80000,
                 0x40000000, 0x20000000, 0x80, 0xff00, 0xff0000, 0xff000000):
        for fl in range(4):
            yield {'kind': 'rk', 'bits': (base & 0xfffffffc) | fl}
    for v in consts['new_ints'] + [int(h) for h in hints]:
        if 0 <= v < 1 << 30:
            for fl in range(4):
                yield {'kind': 'rk', 'bits': (v << 2) | fl}
                yield {'kind': 'rk',
                       'bits': ((-v << 2) & 0xfffffffc) | fl}
        if v < 0 and v >= -(1 << 29):
            for fl in range(4):
                yield {'kind': 'rk', 'bits': ((v << 2) & 0xfffffffc) | fl}
    new, old = sizes(hints, consts, 40000)
    lens = [0, 1, 2, 3, 254, 255, 256, 257, 32767, 32768, 65535] + new + old
    for n in lens:
        for opt in (0, 1, 4, 5, 8, 9, 12, 13):
            yield {'kind': 'uni', 'n': n, 'opt': opt, 'rt': 3, 'sz': 11,
                   'lenlen': 2 if n > 255 else 1 + n % 2, 'known': False,
                   'pre': n % 5, 'post': 3, 'seed': n}
    k = 0
    while k < 12000 or tier != 'quick':
        k += 1
        if rng.random() < 0.5:
            yield {'kind': 'rk', 'bits': rng.randrange(1 << 32)}
        else:
            n = rng.choice([0, 1, 2, rng.randint(0, 20),
                            rng.randint(0, 300)])
            yield {'kind': rng.choice(['uni', 'uni', 'str']), 'n': n,
                   'opt': rng.randrange(16),
                   'rt': rng.choice([0, 1, 2, 300, 65535]),
                   'sz': rng.choice([0, 1, 40, 70000]),
                   'lenlen': 2 if n > 255 else rng.randint(1, 2),
                   'known': rng.random() < 0.3, 'pre': rng.randint(0, 9),
                   'post': rng.choice([0, 0, 4, 50]), 'bare':
                   rng.random() < 0.5,
                   'enc': rng.choice(['latin_1', 'cp1252', 'ascii']),
                   'seed': rng.randrange(1 << 30)}


def chars(case, wide):
    import random
    r = random.Random(case['seed'])
    if wide:
        pool = [0x41, 0xe5, 0x3b1, 0x4e2d, 0x20ac, 0xff, 0x100, 0x2028,
                0xfeff, 0xfffe, 0, 0xd7ff, 0xe000, 0xffff]
    elif case.get('enc') in ('ascii', 'cp1252'):
        pool = list(range(0x20, 0x7f))
        if case['enc'] == 'cp1252':
            pool += [0xe5, 0xff, 0xa0]
    else:
        pool = [0x41, 0x80, 0x9f, 0xe5, 0xff, 0x7a, 0x0a, 0x00]
    s = ''.join(chr(r.choice(pool)) for _ in range(case['n']))
    if wide and len(s) > 2 and case['seed'] % 5 == 0:
        # a character of two 16-bit units
        i = r.randrange(len(s) - 1)
        s = s[:i] + chr(0x10000 + r.randrange(0x100000)) + s[i + 2:]
    return s


def want_rk(bits):
    if bits & 2:
        i = bits >> 2
        if i >= 1 << 29:
            i -= 1 << 30
        v = float(i)
    else:
        v, = struct.unpack('<d', struct.pack('<Q', (bits & 0xfffffffc) << 32))
    return v / 100.0 if bits & 1 else v


def check(case):
    if case['kind'] == 'rk':
        b = struct.pack('<I', case['bits'])
        g = sheet.unpack_RK(b)
        w = want_rk(case['bits'])
        if type(g) is not float or struct.pack('<d', g) != struct.pack(
                '<d', w) and not (g != g and w != w):
            return 'unpack_RK(%r) = %r, want %r' % (b, g, w)
        return
    n, lenlen, pre = case['n'], case['lenlen'], case['pre']
    head = bytes((7 * i + 1) % 256 for i in range(pre))
    tail = bytes((5 * i + 2) % 256 for i in range(case['post']))
    ln = struct.pack('<B' if lenlen == 1 else '<H', n)
    if case['kind'] == 'str':
        txt = chars(case, False)
        body = txt.encode('latin_1')
        data = head + (b'' if case['known'] else ln) + body + tail
        kw = dict(lenlen=lenlen)
        if case['known']:
            kw['known_len'] = n
        g = biffh.unpack_string_update_pos(data, pre, case['enc'], **kw)
        w = (body.decode(case['enc']), len(data) - len(tail))
        if tuple(g) != w:
            return 'unpack_string_update_pos: %r, want %r' % (g, w)
        if not case['known']:
            g = biffh.unpack_string(data, pre, case['enc'], lenlen=lenlen)
            if g != w[0]:
                return 'unpack_string: %r, want %r' % (g, w[0])
        return
    opt = case['opt']
    wide = opt & 1
    txt = chars(case, wide)
    body = txt.encode('utf_16_le' if wide else 'latin_1')
    rt, sz = case['rt'], case['sz']
    mid = bytes([opt])
    if opt & 8:
        mid += struct.pack('<H', rt)
    if opt & 4:
        mid += struct.pack('<i', sz)
    rec = mid + body
    extra = (4 * rt if opt & 8 else 0) + (sz if opt & 4 else 0)
    if n == 0 and case.get('bare') and not tail:
        rec, extra = b'', 0
    rest = bytes(min(extra, 60)) + tail
    data = head + (b'' if case['known'] else ln) + rec + rest
    kw = dict(lenlen=lenlen)
    if case['known']:
        kw['known_len'] = n
    g = biffh.unpack_unicode_update_pos(data, pre, **kw)
    w = (txt, len(data) - len(rest) + extra)
    if tuple(g) != w:
        return 'unpack_unicode_update_pos: %r, want %r' % (g, w)
    if not case['known']:
        g = biffh.unpack_unicode(data, pre, lenlen=lenlen)
        if g != txt:
            return 'unpack_unicode: %r, want %r' % (g, txt)
