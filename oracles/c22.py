"""C22: automatic text reading is reading with the detected settings."""
import io
import os
import tempfile
import numpy as np
from channelpack import readtext
from oracles.util import sizes, same

FILES = ['channelpack/readtext.py']
RULE = ('numeric text tables with headers, delimiters and decimal signs, '
        'empty and undetectable texts; as file name, text and bytes stream, '
        'streams at a position; overrides of every setting, column '
        'selections; compared with an explicit read')


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 120)
    k = 0
    while k < 3000 or tier != 'quick':
        k += 1
        nc = rng.choice([1, 2, 3, 5, 12])
        nr = rng.choice([1, 2, 6, 30])
        if new and rng.random() < 0.3:
            nr = rng.choice(new)
        kw = {}
        for nm, vals, p in (
                ('skiprows', [0, 1, 2, 3], 0.15),
                ('usecols', [0, [0], list(range(nc))[::-1], [nc - 1],
                             [0, nc - 1], None], 0.35),
                ('names', [None, {'0': 'given'}, {'0': 'a', str(nc - 1): 'b'}, {}],
                 0.15),
                ('hasnames', [True, False], 0.15),
                ('stripstrings', [True], 0.1),
                ('delimiter', [None, ',', ';'], 0.1),
                ('converters', [None, 'str'], 0.1),
                ('debug', [False, True], 0.1),
                ('encoding', ['utf-8', 'latin-1', None], 0.3)):
            if rng.random() < p:
                kw[nm] = rng.choice(vals)
        yield {'nc': nc, 'nr': nr, 'kind': rng.choice(
            ['table'] * 8 + ['empty', 'blank', 'prose']),
            'delim': rng.choice([',', ';', '\t', ' ', ' ; ', '|']),
            'dec': rng.choice(['.', '.', ',']), 'head': rng.choice(
                [0, 0, 1, 2, 3]), 'nameline': rng.random() < 0.6,
            'how': rng.choice(['file', 'text', 'text', 'bytes', 'bytes']),
            'at': rng.choice([0, 0, 0, 1, 2]), 'kw': kw,
            'vals': rng.choice(['', '', '', 'neg', 'exp', 'int', 'gaps']),
            'nmfmt': rng.choice(['n%s', 'n%s', 'two %s', '%s1', 'é%s', '_%s',
                                 'same', '%s (m/s)']),
            'end': rng.choice(['', '', '', '\n\n', '\n \n']),
            'lines': rng.choice([None, None, 3, 10, 60])}


def text(case):
    if case['kind'] == 'empty':
        return ''
    if case['kind'] == 'blank':
        return '\n \n\n'
    if case['kind'] == 'prose':
        return 'this is text\nand no numbers\nat all: really; none\n'
    out = []
    fmt = case['nmfmt']
    if not case['kw'].get('encoding'):
        fmt = fmt.replace('é', 'e')
    for i in range(case['head']):
        out.append('A line about %s of something' % 'abc'[i % 3])
    if case['nameline']:
        out.append(case['delim'].join(
            fmt.replace('%s', 'abcdefghijkl'[c])
            for c in range(case['nc'])))
    for r in range(case['nr']):
        out.append(case['delim'].join(
            val(case, r, c)
            for c in range(case['nc'])))
    return '\n'.join(out) + '\n' + case['end']


def val(case, r, c):
    how = case['vals']
    s = '%d.%d5' % (c * 100 + r, c)
    if how == 'neg' and (r + c) % 2:
        s = '-' + s
    elif how == 'exp' and (r + c) % 2:
        s += 'e-2' if c % 2 else 'E3'
    elif how == 'int' and c % 2:
        s = s.split('.')[0]
    elif how == 'gaps' and r % 3 == 1 and c % 2 and case['delim'] != ' ':
        s = ''
    return s.replace('.', case['dec'])


def kwargs(case, b):
    kw = {}
    for k, v in case['kw'].items():
        if k == 'names' and v is not None:
            v = {int(x): y for x, y in v.items()}
        elif k == 'converters' and v == 'str':
            v = {0: len}
        elif k == 'delimiter' and b and v is not None:
            v = v.encode('ascii')
        elif isinstance(v, list):
            v = list(v)
        kw[k] = v
    return kw


def outcome(f, *args, **kw):
    import contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            p = f(*args, **kw)
    except Exception as e:
        return type(e).__name__, None
    return 'pack', p


def check(case):
    txt = text(case)
    b = case['how'] == 'bytes'
    enc = case['kw'].get('encoding') or 'utf-8'
    lead = ''.join('lead %d\n' % i for i in range(case['at'])) \
        if case['how'] != 'file' else ''
    n = 25 if case['lines'] is None else case['lines']
    args = () if case['lines'] is None else (case['lines'],)

    def stream():
        s = io.BytesIO((lead + txt).encode(enc)) if b else io.StringIO(
            lead + txt)
        s.seek(len(lead))
        return s

    # the settings detected from the first lines
    src = io.StringIO(txt)
    det = readtext.preparse([src.readline() for _ in range(n)])
    if b and det:
        if det['delimiter'] is not None:
            det['delimiter'] = det['delimiter'].encode(enc)
        if det['converters'] is not None:
            det['converters'] = {
                k: readtext._floatit_bytes if hasattr(
                    readtext, '_floatit_bytes') else
                (lambda x: float(x.replace(b',', b'.')) if x else np.nan)
                for k in det['converters']}
    det = dict(det)
    kw = kwargs(case, b)
    det.update(kw)
    if kw.get('usecols') is not None and 'names' not in kw and \
            det.get('names'):
        use = kw['usecols']
        use = [use] if isinstance(use, int) else list(use)
        det['names'] = {k: v for k, v in det['names'].items() if k in use}
    if not det:
        want = ('ValueError', None)
    else:
        want = outcome(readtext.textpack, stream(), **det)
    d = None
    try:
        if case['how'] == 'file':
            d = tempfile.mkdtemp(prefix='oracle_')
            fn = os.path.join(d, 'f.txt')
            with open(fn, 'wb') as f:
                f.write(txt.encode(enc))
            got = outcome(readtext.lazy_textpack, fn, *args, **kw)
        else:
            s = stream()
            got = outcome(readtext.lazy_textpack, s, *args, **kw)
            if s.closed:
                return 'the stream of the caller was closed'
    finally:
        if d:
            os.unlink(os.path.join(d, 'f.txt'))
            os.rmdir(d)
    if got[0] != want[0]:
        return 'outcome %s, want %s' % (got[0], want[0])
    if got[1] is None:
        return
    g, w = got[1], want[1]
    if dict(g.names) != dict(w.names):
        return 'names %r, want %r' % (g.names, w.names)
    if sorted(g.data) != sorted(w.data):
        return 'columns %r, want %r' % (sorted(g.data), sorted(w.data))
    for k in g.data:
        if g.data[k].dtype.kind != w.data[k].dtype.kind or not same(
                g.data[k], w.data[k]):
            return 'column %d: %r, want %r' % (k, g.data[k], w.data[k])
    if g.fn != (fn if case['how'] == 'file' else ''):
        return 'fn %r' % g.fn
