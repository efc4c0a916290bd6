"""C19: Excel date numbers and calendar dates agree both ways."""
import datetime
from fractions import Fraction
from channelpack.xlrd import xldate
from oracles.util import sizes

FILES = ['channelpack/xlrd/xldate.py']
RULE = ('every day number of both systems in steps (all of them in the '
        'thorough tier), every day of leap, century and boundary years, '
        'fractions at second and millisecond boundaries, invalid dates and '
        'numbers')
TOP = (2958466, 2958466 - 1462)
EP = (datetime.datetime(1899, 12, 30), datetime.datetime(1904, 1, 1))


def cases(rng, tier, hints, consts):
    for mode in (0, 1):
        for a in list(range(-3, 70)) + [59, 60, 61, 62]:
            yield {'kind': 'days', 'mode': mode, 'span': [a, a + 1, 1]}
        for a in range(TOP[mode] - 3, TOP[mode] + 4):
            yield {'kind': 'days', 'mode': mode, 'span': [a, a + 1, 1]}
        for v in consts['new_ints'] + [int(h) for h in hints]:
            yield {'kind': 'days', 'mode': mode,
                   'span': [v - 400, v + 400, 1]}
        yield {'kind': 'years', 'mode': mode, 'years': [
            1899, 1900, 1901, 1903, 1904, 1905, 1999, 2000, 2001, 2004,
            2100, 2399, 2400, 2401, 9999, 10000, 1800]}
        step = 100000
        for a in range(1, TOP[mode], step):
            yield {'kind': 'days', 'mode': mode,
                   'span': [a, min(a + step, TOP[mode]),
                            53 if tier == 'quick' else 1]}
    for m in (0, 1, 2, -1, None, '0', 0.5):
        yield {'kind': 'mode', 'mode': m}
    for h in (-1, 0, 1, 11, 12, 23, 24):
        for mi in (-1, 0, 30, 59, 60):
            for s in (-1, 0, 1, 59, 60):
                yield {'kind': 'time', 't': [h, mi, s]}
    k = 0
    while k < 4000 or tier != 'quick':
        k += 1
        mode = rng.randint(0, 1)
        day = rng.choice([0, 0, 1, 59, 60, 61, rng.randrange(70),
                          rng.randrange(TOP[mode]), TOP[mode] - 1, 40000])
        sec = rng.choice([0, 1, 59, 60, 3599, 3600, 43200, 86399,
                          rng.randrange(86400)])
        yield {'kind': 'frac', 'mode': mode, 'day': day, 'sec': sec,
               'ms': rng.choice([0, 0, 0, 1, 499, 500, 501, 999,
                                 rng.randrange(1000)]),
               'eps': rng.choice([0, 0, 1, -1])}
        if rng.random() < 0.3:
            yield {'kind': 'date', 'mode': mode, 'd': [
                rng.choice([0, 1899, 1900, 1904, 2000, 2023, 9999, 10000,
                            rng.randint(1900, 9999)]),
                rng.choice([0, 1, 2, 3, 12, 13, rng.randint(1, 12)]),
                rng.choice([0, 1, 28, 29, 30, 31, 32, rng.randint(1, 31)])]}


def want_tuple(x, mode):
    """What the documentation says of xldate_as_tuple."""
    if x == 0:
        return (0,) * 6
    if x < 0:
        return xldate.XLDateNegative
    days = int(x)
    secs = int(round((x - days) * 86400.0))
    if secs == 86400:
        days, secs = days + 1, 0
    if days >= TOP[mode]:
        return xldate.XLDateTooLarge
    hms = (secs // 3600, secs // 60 % 60, secs % 60)
    if days == 0:
        return (0, 0, 0) + hms
    if mode == 0 and days < 61:
        return xldate.XLDateAmbiguous
    d = EP[mode] + datetime.timedelta(days)
    return (d.year, d.month, d.day) + hms


def call(f, *args):
    try:
        return f(*args)
    except xldate.XLDateError as e:
        return type(e)


def want_date(y, m, d, mode):
    if (y, m, d) == (0, 0, 0):
        return 0.0
    if not 1900 <= y <= 9999:
        return xldate.XLDateBadTuple
    try:
        date = datetime.datetime(y, m, d)
    except ValueError:
        return xldate.XLDateBadTuple
    n = (date - EP[mode]).days
    if n <= 0:
        return xldate.XLDateBadTuple
    if mode == 0 and n < 61:
        return xldate.XLDateAmbiguous
    return float(n)


def want_datetime(x, mode):
    ep = EP[mode]
    if mode == 0 and x < 60:
        ep = datetime.datetime(1899, 12, 31)
    ms = int(round((x - int(x)) * 86400000.0))
    return ep + datetime.timedelta(int(x), 0, 0, ms)


def check(case):
    k = case['kind']
    mode = case.get('mode')
    if k == 'days':
        for n in range(*case['span']):
            for x in (n, float(n)):
                w = want_tuple(x, mode)
                g = call(xldate.xldate_as_tuple, x, mode)
                if g != w:
                    return 'xldate_as_tuple(%r, %d) = %r, want %r' % (
                        x, mode, g, w)
            if isinstance(w, tuple) and n > 0:
                b = call(xldate.xldate_from_date_tuple, w[:3], mode)
                if b != n or type(b) is not float:
                    return 'xldate_from_date_tuple(%r, %d) = %r' % (
                        w[:3], mode, b)
            if 0 <= n < TOP[mode]:
                g = xldate.xldate_as_datetime(float(n), mode)
                if g != want_datetime(n, mode):
                    return 'xldate_as_datetime(%r, %d) = %r' % (n, mode, g)
    elif k == 'years':
        for y in case['years']:
            for m in range(0, 14):
                for d in range(0, 33):
                    w = want_date(y, m, d, mode)
                    g = call(xldate.xldate_from_date_tuple, (y, m, d), mode)
                    if g != w:
                        return ('xldate_from_date_tuple(%r, %d) = %r, want '
                                '%r' % ((y, m, d), mode, g, w))
                    if isinstance(w, float) and w:
                        b = xldate.xldate_as_tuple(w, mode)
                        if b[:3] != (y, m, d):
                            return 'xldate_as_tuple(%r) = %r' % (w, b)
    elif k == 'mode':
        if mode in (0, 1):
            return
        for f, a in ((xldate.xldate_as_tuple, 100.0),
                     (xldate.xldate_as_tuple, 0.0),
                     (xldate.xldate_from_date_tuple, (2000, 1, 1)),
                     (xldate.xldate_from_date_tuple, (0, 0, 0))):
            g = call(f, a, mode)
            if g is not xldate.XLDateBadDatemode:
                return '%s(%r, %r) = %r' % (f.__name__, a, mode, g)
    elif k == 'time':
        h, m, s = case['t']
        g = call(xldate.xldate_from_time_tuple, (h, m, s))
        if 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60:
            w = Fraction(h * 3600 + m * 60 + s, 86400)
            if not isinstance(g, float) or abs(Fraction(g) - w) > \
                    Fraction(1, 10 ** 15):
                return 'xldate_from_time_tuple(%r) = %r' % (case['t'], g)
            for mode in (0, 1):
                b = xldate.xldate_as_tuple(g, mode)
                if b != (0, 0, 0, h, m, s):
                    return 'time %r comes back as %r' % (case['t'], b)
                n = xldate.xldate_from_datetime_tuple(
                    (2001, 3, 4, h, m, s), mode)
                if xldate.xldate_as_tuple(n, mode) != (2001, 3, 4, h, m, s):
                    return 'datetime with %r' % (case['t'],)
        elif g is not xldate.XLDateBadTuple:
            return 'xldate_from_time_tuple(%r) = %r' % (case['t'], g)
    elif k == 'frac':
        x = case['day'] + (case['sec'] + case['ms'] / 1000.0) / 86400.0
        import math
        if case['eps']:
            x = math.nextafter(x, x + case['eps'])
        w = want_tuple(x, mode)
        g = call(xldate.xldate_as_tuple, x, mode)
        if g != w:
            return 'xldate_as_tuple(%r, %d) = %r, want %r' % (x, mode, g, w)
        if x >= 0 and x < TOP[mode] - 1:
            w = want_datetime(x, mode)
            g = xldate.xldate_as_datetime(x, mode)
            if g != w:
                return 'xldate_as_datetime(%r, %d) = %r, want %r' % (
                    x, mode, g, w)
    else:
        w = want_date(*case['d'], mode)
        g = call(xldate.xldate_from_date_tuple, tuple(case['d']), mode)
        if g != w:
            return 'xldate_from_date_tuple(%r, %d) = %r, want %r' % (
                case['d'], mode, g, w)
