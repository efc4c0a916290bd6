"""Writes DBF files from a table description (reference for C14, C15)."""
import datetime
import struct


def field_bytes(typ, size, deci, v):
    """The bytes of a value; v is [how, payload]."""
    how, x = v
    if how == 'raw':
        b = x.encode('latin-1')
    else:
        b = str(x).encode('ascii')
    if how == 'left':
        return b[:size].ljust(size)
    if how == 'nul':
        return b[:size].rjust(size, b'\0')
    if how == 'nulend':
        return b[:size].ljust(size, b'\0')
    if how == 'nulmid':
        b = b[:size]
        return b[:1] + b'\0' * (size - len(b)) + b[1:]
    if typ in 'C' or how == 'raw':
        return b[:size].ljust(size)
    return b[:size].rjust(size)


def dbf_bytes(spec):
    """spec: {'fields': [[name, typ, size, deci]], 'rows': [[deleted,
    values]], 'eof': bool}"""
    fs = spec['fields']
    head = struct.pack('<BBBBLHH20x', 3, 120, 5, 17, len(spec['rows']),
                       33 + 32 * len(fs), 1 + sum(f[2] for f in fs))
    out = [head]
    for name, typ, size, deci in fs:
        out.append(struct.pack('<11sc4xBB14x', name.encode('ascii'),
                               typ.encode('ascii'), size, deci))
    out.append(b'\r')
    for flag, vals in spec['rows']:
        out.append(flag.encode('latin-1'))
        for (name, typ, size, deci), v in zip(fs, vals):
            out.append(field_bytes(typ, size, deci, v))
    if spec['eof']:
        out.append(b'\x1a')
    return b''.join(out)


def value(f, v):
    """What the record should give for this field."""
    name, typ, size, deci = f
    b = field_bytes(typ, size, deci, v)
    t = b.decode('latin-1')
    if typ == 'N':
        s = t.replace('\0', '').strip()
        if not s:
            return float('nan')
        return float(s) if deci else int(s)
    if typ == 'F':
        s = t.strip()
        return float(s) if s else float('nan')
    if typ == 'D':
        if not t.strip():
            return None
        return datetime.date(int(t[:4]), int(t[4:6]), int(t[6:8]))
    if typ == 'L':
        return 'T' if t in 'YyTt' else 'F' if t in 'NnFf' else '?'
    return t


def big_spec(n):
    """A table of n records of one digit, every fifth deleted."""
    return {'fields': [['A', 'N', 1, 0]], 'eof': True,
            'rows': [['*' if i % 5 == 3 else ' ', [['', i % 7]]]
                     for i in range(n)]}


def random_spec(rng, hints=(), consts=None, unique=True, lens=None):
    nf = rng.choice([1, 1, 2, 3, 4, 6, 9])
    if lens and rng.random() < 0.1:
        nf = max(1, min(300, rng.choice(lens)))
    if rng.random() < 0.003:
        nf = rng.choice([33, 65, 129, 256, 257, 300])
    fs = []
    for i in range(nf):
        typ = rng.choice('NNCDLFNCM')
        name = 'F%d' % i if unique or rng.random() < 0.7 else 'DUP'
        name = name + 'X' * rng.choice([0, 0, 1, 11 - len(name), 9 -
                                        len(name)])
        if typ == 'N':
            size, deci = rng.choice([(1, 0), (4, 0), (9, 0), (8, 2),
                                     (10, 3), (5, 1), (18, 0), (20, 5)])
        elif typ == 'F':
            size, deci = rng.choice([(8, 2), (20, 4), (10, 0)])
        elif typ == 'D':
            size, deci = 8, 0
        elif typ == 'L':
            size, deci = 1, 0
        else:
            size, deci = rng.choice([1, 2, 5, 10, 40, 254, 255]
                                    if nf < 100 else [1, 2, 5, 60]), 0
        if rng.random() < 0.06 and unique:
            name = rng.choice(['a b', 'lower', 'x', '_', '0', 'F-1', 'NAME.',
                               'DeletionFla', 'id', 'DATE'])
            if any(f[0] == name for f in fs):
                name = 'F%d' % i
        fs.append([name[:11], typ, size, deci])
    nr = rng.choice([0, 1, 2, 3, 5, 12, 40]) if nf < 30 else 3
    if nf < 30 and lens and rng.random() < 0.15:
        nr = min(600, rng.choice(lens))
    rows = []
    pd = rng.choice([0, 0.2, 0.5, 1.0, 0.1])
    for r in range(nr):
        vals = []
        for name, typ, size, deci in fs:
            if rng.random() < 0.12:
                vals.append(['raw', ''])
                continue
            if typ in 'NF':
                top = max(1, size - deci - 2)
                x = rng.randint(-(10 ** (top - 1)) if top > 1 else 0,
                                10 ** min(top, 15) - 1)
                if typ == 'F' or deci:
                    s = '%d.%0*d' % (x, max(1, deci), rng.randint(
                        0, 10 ** max(1, deci) - 1))
                    if rng.random() < 0.2:
                        s += '%d' % rng.randint(1, 99999)
                    s = s[:size]
                    if s.endswith('-'):
                        s = '1'
                else:
                    s = str(x)[:size]
                    if s == '-':
                        s = '7'
                if rng.random() < 0.1:
                    s = rng.choice(['0', '0', '00', '-0', '0.0', '.0', '0.']
                                   if typ == 'F' or deci else
                                   ['0', '0', '00', '007', '-0'])[:size]
                    if s.strip('-.') == '':
                        s = '0'
                how = rng.choice(['num', 'num', 'num', 'left', 'nul',
                                  'nulend', 'nulmid'])
                if typ == 'F' and how.startswith('nul'):
                    how = 'num'
                vals.append([how, s])
            elif typ == 'D':
                y = rng.choice([1, 999, 1899, 1900, 1970, 1999, 2000, 2024,
                                9999])
                d = datetime.date(y, rng.randint(1, 12), rng.randint(1, 28))
                if rng.random() < 0.1:
                    d = rng.choice([datetime.date(2000, 2, 29),
                                    datetime.date(1999, 12, 31),
                                    datetime.date(2024, 2, 29),
                                    datetime.date(1, 1, 1),
                                    datetime.date(9999, 12, 31)])
                vals.append(['raw', '%04d%02d%02d' % (d.year, d.month,
                                                      d.day)])
            elif typ == 'L':
                vals.append(['raw', rng.choice('YyTtNnFf? xZ') if rng.random()
                             < 0.8 else chr(rng.randrange(256))])
            else:
                vals.append(['raw', ''.join(rng.choice(
                    'abcXYZ 019.,-\t' if rng.random() < .97 else
                    '\0\r\n\x1a*"\x7f') for _ in range(rng.randint(
                        0, min(size, 30))))])
        flag = ' ' if rng.random() >= pd else rng.choice('**** x\0')
        if pd == 1.0 and rng.random() < 0.2:
            flag = ' '
        rows.append([flag, vals])
    return {'fields': fs, 'rows': rows, 'eof': rng.random() < 0.7}
