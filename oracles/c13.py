"""C13: text values are converted by the rule set by the first line."""
import contextlib
import io
import re
import numpy as np
from channelpack import textpack
from channelpack.readtext import linetuples, _floatit, _floatit_bytes
from oracles.util import same, sizes

FILES = ['channelpack/readtext.py']
RULE = ('random tables with numbers (decimal point and comma, exponents, '
        'signs, empty), text (with spaces, non-ascii), blank lines, several '
        'delimiters, stripping, decoding, converters, text and bytes')
NUM = re.compile(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\s*\Z')
CNUM = re.compile(r'\s*[-+]?(\d+(,\d*)?|,\d+)([eE][-+]?\d+)?\s*\Z')


def num(rng, comma):
    s = rng.choice(['0', '1', '-2', '+3', '12.5', '-.5', '7.', '1e3',
                    '2.5E-3', '-0.0', '123456789', '1e-10', '00012', '3.0',
                    '%d' % rng.randint(-10 ** 6, 10 ** 6),
                    '%.4f' % rng.uniform(-100, 100)])
    return s.replace('.', ',') if comma else s


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 300)
    strs = [s for s in consts['new_strs'] if s and '\n' not in s][:10]
    k = 0
    while k < 6000 or tier != 'quick':
        k += 1
        delim = rng.choice([None, ';', '\t', '|', ',', ' '])
        nc = rng.choice([1, 2, 3, 5, 8, 8, 17])
        nr = rng.choice([1, 2, 3, 6])
        if new and rng.random() < 0.25:
            nr = rng.choice(new)
        mode = 'd' if delim == ',' else rng.choice(['d', 'c', 'c', 'mixed'])
        kinds = [rng.choice(['n', 'n', 't']) for _ in range(nc)]
        words = ['abc', 'x', 'åäö', '12a', 'n/a', '--', 'e5', '1.2.3',
                 'A_B', '+', '.', '1-2', '0x1', '"q"', '#', 'None', 'True',
                 'é', 'x' * 40, '1e', '--1', '1:30', '%', "'"] + [
                     s for s in strs if not re.search(r'[\s;|,]', s)]
        if delim in (';', '|', '\t'):
            words += ['two words', ' lead', 'a  b']
        if delim not in (',',):
            words += ['1,2,3', 'a,b', ',']
        rows = []
        bad = rng.choice([0] * 9 + [0.03])
        for r in range(nr):
            row = []
            for c in range(nc):
                if kinds[c] == 't':
                    v = rng.choice(words)
                    if r and delim is not None and rng.random() < 0.1 and \
                            nc > 1:
                        v = ''
                    if r and rng.random() < 0.1:
                        v = '5'
                else:
                    v = num(rng, mode == 'c' or (mode == 'mixed' and
                                                 rng.random() < 0.5))
                    if r and delim is not None and rng.random() < 0.15 and \
                            nc > 1:
                        v = ''
                    if r and rng.random() < bad:
                        v = rng.choice(['-', '+', '.', 'x', '--', '1-', 'e',
                                        '1 2' if delim in (';', '|') else
                                        '1x', '1.2.3', 'e5'])
                row.append(v)
            if r and nc > 1 and delim is not None and rng.random() < 0.05:
                row = [''] * nc
            rows.append(row)
        # the comma must show on the first line for a comma file
        if mode in ('c', 'mixed') and 'n' in kinds and rng.random() < 0.8:
            c = kinds.index('n')
            rows[0][c] = rng.choice(['1,5', '-2,25', ',5', '3,'])
        elif mode == 'd':
            rows[0] = [v.replace(',', '.') if kd == 'n' else v
                       for v, kd in zip(rows[0], kinds)]
        yield {'delim': delim, 'rows': rows,
               'blank': [rng.randint(1, nr) for _ in range(rng.choice(
                   [0, 0, 1, 2, 4]))],
               'blankstyle': rng.choice(['', ' ', '  ', '\r', '\t',
                                         ' \t ']),
               'strip': rng.random() < 0.4,
               'bytes': rng.choice([None, None, True, 'utf-8']),
               'conv': sorted(rng.sample(range(nc), min(nc, rng.choice([0, 0, 1, 2, 3]))))
               if nc else [],
               'use': sorted(rng.sample(range(nc), rng.randint(1, nc)))
               if rng.random() < 0.25 else None,
               'debug': rng.random() < 0.2, 'pad': rng.random() < 0.2,
               'stripnl': rng.random() < 0.3,
               'eol': rng.choice(['\n', '\n', '\r\n'])}


def tag(v):
    return '<%s>' % (v.decode('utf-8') if isinstance(v, bytes) else v)


CONV = [tag, tag, float, len]


def ref_rows(case):
    rows = case['rows']
    comma = any(CNUM.match(v) and not NUM.match(v) for v in rows[0])
    kinds = []
    for v in rows[0]:
        kinds.append('n' if NUM.match(v) or CNUM.match(v) else 't')
    out = []
    for row in rows:
        o = []
        for c, v in enumerate(row):
            if c in case['conv']:
                f = CONV[(c + len(rows)) % len(CONV)]
                if f is float and case['use'] is not None and \
                        c not in case['use']:
                    o.append(None)
                    continue
                try:
                    o.append(f(v.encode('utf-8') if case['bytes'] else v))
                except ValueError:
                    return kinds, None
            elif kinds[c] == 'n':
                if v == '':
                    o.append(float('nan'))
                elif NUM.match(v):
                    o.append(float(v))
                elif CNUM.match(v) and comma:
                    o.append(float(v.replace(',', '.')))
                elif case['use'] is not None and c not in case['use']:
                    o.append(None)          # not converted
                else:
                    return kinds, None      # not a number: must fail
            else:
                w = v.strip() if case['strip'] else v
                o.append(w.encode('utf-8') if case['bytes'] is True else w)
        out.append(o)
    return kinds, out


def check(case):
    rows, delim = case['rows'], case['delim']
    sep = delim if delim is not None else '  '
    if case['pad'] and delim in (';', '|'):
        # spaces around the delimiter: part of the fields
        rows = [[(' ' if c else '') + v + (' ' if c < len(r) - 1 else '')
                 if v and not (r[c] != r[c].strip()) else v
                 for c, v in enumerate(r)] for r in rows]
        case = dict(case, rows=rows)
    # what a blank-stripped line of text loses at its ends is not the matter
    for r in rows:
        r0, r1 = r[0], r[-1]
        if r0 != r0.lstrip() or r1 != r1.rstrip():
            r[0], r[-1] = r0.lstrip(), r[-1].rstrip()
            if len(r) == 1:
                r[0] = r[0].strip()
    # (a line of delimiters only has empty fields)
    if any(not ''.join(r).strip() and (delim is None or len(r) == 1)
           for r in rows):
        return None
    if delim in (' ', '\t') or delim is None:
        if any(v != v.strip() or ' ' in v for r in rows for v in r):
            return None
    kinds, want = ref_rows(case)
    lines = []
    for i, r in enumerate(rows):
        for b in case['blank']:
            if b == i:
                st = case['blankstyle']
                lines.append(st.replace('\t', '') if delim == '\t' else
                             st if delim != ' ' else '')
        lines.append(sep.join(r))
    lines += [''] * case['blank'].count(len(rows))
    text = case['eol'].join(lines) + ('' if case['stripnl'] else
                                      case['eol'])
    kw = {'stripstrings': case['strip'], 'debug': case['debug']}
    enc = case['bytes']
    if delim is not None:
        kw['delimiter'] = delim.encode() if enc else delim
    if case['conv']:
        kw['converters'] = {c: CONV[(c + len(rows)) % len(CONV)]
                            for c in case['conv']}
    if enc == 'utf-8':
        kw['encoding'] = enc
    use = case['use']
    if use is not None:
        kw['usecols'] = use
    fo = io.BytesIO(text.encode('utf-8')) if enc else io.StringIO(
        text, newline='')
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p = textpack(fo, **kw)
    except ValueError as e:
        if want is None:
            return None
        return 'raised %r' % e
    if want is None:
        return 'a field that is no number was accepted'
    cols = list(zip(*want))
    use = range(len(cols)) if use is None else use
    if sorted(p.data) != list(use):
        return 'channels %r' % sorted(p.data)
    for c, col in enumerate(cols):
        if c not in use:
            continue
        w = np.array(col, copy=False)
        g = p.data[c]
        if g.dtype.kind != w.dtype.kind or not same(g, w):
            return 'column %d: %r, want %r' % (c, g.tolist()[:8],
                                               list(col)[:8])
