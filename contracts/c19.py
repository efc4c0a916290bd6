"""C19: Excel date numbers and calendar dates."""
import datetime

import z3

from pydv.core import I, R, to_z3, zbool
from pydv.interp import Interp
from pydv import models
from pydv.ext import DateTimeV, DAY
from . import contract
from .packs import call_or_exc, expect, exc_name

F = 'channelpack.xlrd.xldate.'
A_REAL = ('floats are mathematical reals (rounding of float arithmetic is '
          'not modelled)')
# day number of the proleptic Gregorian date (1 is 0001-01-01) minus the
# Excel day number
BASE = (datetime.date(1899, 12, 30).toordinal(),
        datetime.date(1904, 1, 1).toordinal())
TOP = (2958466, 2958466 - 1462)
CYCLE = 146097
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
assert datetime.date(1900, 3, 1).toordinal() - BASE[0] == 61
assert datetime.date(9999, 12, 31).toordinal() - BASE[0] == TOP[0] - 1


def leap(y):
    return z3.And(models.zmod(y, 4) == 0, z3.Or(
        models.zmod(y, 100) != 0, models.zmod(y, 400) == 0))


def month_len(y, m):
    return z3.If(m == 2, z3.If(leap(y), 29, 28), z3.If(z3.Or(
        m == 4, m == 6, m == 9, m == 11), 30, 31))


def ordinal(y, m, d):
    """The calendar: 1 for 0001-01-01."""
    p = y - 1
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, z3.IntVal(CUM[k]), cum)
    return (365 * p + models.zdiv(p, 4) - models.zdiv(p, 100) +
            models.zdiv(p, 400) + cum + z3.If(z3.And(m > 2, leap(y)), 1, 0) +
            d)


def valid(y, m, d):
    return z3.And(m >= 1, m <= 12, d >= 1, d <= month_len(y, m))


def near(a, b):
    """Within half a unit."""
    h = z3.Q(1, 2)
    return z3.And(a - b <= h, b - a <= h)


@contract('C19', 'calendar theory', covers=('pre',))
def calendar(ctx):
    """The ordinal is the one of the Gregorian calendar: 1 for 0001-01-01
    and one more for the next date."""
    y, m, d = (ctx.fresh(x, I) for x in 'ymd')
    ctx.assume(z3.And(y >= 1, valid(y, m, d)))
    ctx.cover('pre')
    end = d == month_len(y, m)
    year = z3.And(end, m == 12)
    o = ordinal(y, m, d)
    ctx.prove('first day', ordinal(z3.IntVal(1), z3.IntVal(1),
                                   z3.IntVal(1)) == 1)
    ctx.prove('next day', z3.Implies(z3.Not(end),
                                     ordinal(y, m, d + 1) == o + 1))
    ctx.prove('next month', z3.Implies(z3.And(end, m < 12),
                                       ordinal(y, m + 1, z3.IntVal(1)) ==
                                       o + 1))
    ctx.prove('next year', z3.Implies(year, ordinal(
        y + 1, z3.IntVal(1), z3.IntVal(1)) == o + 1))


def number(ctx, part):
    """Any x >= 0 as 146097 * k + r + f, with r in one of four parts."""
    k, r = ctx.fresh('cycles', I), ctx.fresh('days', I)
    f = ctx.fresh('frac', R)
    cut = (0, 36525, 2 * 36525, 3 * 36525, CYCLE)
    ctx.assume(z3.And(k >= 0, r >= cut[part], r < cut[part + 1], f >= 0,
                      f < 1))
    return z3.ToReal(CYCLE * k + r) + f, k, r, f


def as_tuple(mode, part):
    def run(ctx):
        it = Interp({})
        x, k, r, f = number(ctx, part)
        fn = it.find_func(F + 'xldate_as_tuple')
        t, e = call_or_exc(it, fn, [x, mode])
        if e is not None:
            if exc_name(e) == 'XLDateTooLarge':
                ctx.prove('too large only from year 10000',
                          x * 86400 >= TOP[mode] * 86400 - z3.Q(1, 2))
                ctx.cover('too large')
            elif exc_name(e) == 'XLDateAmbiguous':
                ctx.prove('ambiguous only in the 1900 system',
                          z3.And(mode == 0, x < 61,
                                 x * 86400 >= 86400 - z3.Q(1, 2)))
                ctx.cover('ambiguous')
            else:
                expect(ctx, e, 'xldate_as_tuple')
            return
        t = it.resolve(t)
        ok = isinstance(t, tuple) and len(t) == 6
        ctx.prove('six numbers', ok)
        if not ok:
            return
        y, m, d, h, mi, s = (to_z3(it.resolve(v)) for v in t)
        ctx.prove('time of day in range', z3.And(
            h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60))
        sec = h * 3600 + mi * 60 + s
        if ctx.branch(z3.And(y == 0, m == 0, d == 0)):
            ctx.prove('a time only', near(z3.ToReal(sec), x * 86400))
            ctx.prove('times are below one day', x < 1)
            ctx.cover('time')
            return
        ctx.prove('not in year 10000', z3.And(x < TOP[mode], y <= 9999,
                                              y >= 1900))
        if mode == 0:
            ctx.prove('not before March 1900', x >= 61 - z3.Q(1, 172800))
        ctx.prove('month', z3.And(m >= 1, m <= 12))
        ctx.prove('day of the month', z3.And(d >= 1, d <= month_len(y, m)))
        # days - r is what the cycles give; f may have rounded up
        ctx.lemma('day of the calendar', z3.Or(
            ordinal(y, m, d) == CYCLE * k + r + BASE[mode],
            z3.And(sec == 0, f * 86400 >= 86400 - z3.Q(1, 2),
                   ordinal(y, m, d) == CYCLE * k + r + 1 + BASE[mode])))
        o = ctx.fresh('ordinal', I)
        ctx.assume(o == ordinal(y, m, d))
        ctx.prove('date and time are the number to the second', near(
            z3.ToReal((o - BASE[mode]) * 86400 + sec), x * 86400))
        ctx.cover('date')
    return run


for _m in (0, 1):
    for _p in range(4):
        contract('C19', 'xldate_as_tuple (datemode %d, century %d of 4)' % (
            _m, _p + 1), [F + 'xldate_as_tuple'],
            covers=('date', 'too large') + (('time',) if _p == 0 else ()) + (
                ('ambiguous',) if _m == 0 and _p == 0 else ()),
            assumes=[A_REAL])(as_tuple(_m, _p))


@contract('C19', 'xldate_as_tuple (refused numbers)',
          [F + 'xldate_as_tuple'], covers=('negative', 'datemode'),
          assumes=[A_REAL])
def refused(ctx):
    it = Interp({})
    x = ctx.fresh('x', R)
    fn = it.find_func(F + 'xldate_as_tuple')
    mode = ctx.fresh('mode', I)
    if ctx.branch(z3.Or(mode == 0, mode == 1)):
        ctx.assume(x < 0)
        want = 'XLDateNegative'
    else:
        want = 'XLDateBadDatemode'
    t, e = call_or_exc(it, fn, [x, mode])
    ctx.prove('%s raised' % want, e is not None and exc_name(e) == want)
    ctx.cover('negative' if want == 'XLDateNegative' else 'datemode')


@contract('C19', 'xldate_from_date_tuple', [F + 'xldate_from_date_tuple',
                                            F + '_leap'],
          covers=('date', 'bad tuple', 'ambiguous', 'zero', 'datemode'),
          assumes=[A_REAL])
def from_date(ctx):
    it = Interp({})
    q, y0 = ctx.fresh('q', I), ctx.fresh('y', I)
    m, d = ctx.fresh('m', I), ctx.fresh('d', I)
    ctx.assume(z3.And(y0 >= 0, y0 < 400))
    y = 400 * q + y0
    mode = ctx.decide([('mode', 0), ('mode', 1), ('mode', 'other')])[1]
    fn = it.find_func(F + 'xldate_from_date_tuple')
    if mode == 'other':
        md = ctx.fresh('mode', I)
        ctx.assume(z3.And(md != 0, md != 1))
        t, e = call_or_exc(it, fn, [(y, m, d), md])
        ctx.prove('XLDateBadDatemode raised', e is not None and exc_name(
            e) == 'XLDateBadDatemode')
        ctx.cover('datemode')
        return
    t, e = call_or_exc(it, fn, [(y, m, d), mode])
    good = z3.And(y >= 1900, y <= 9999, valid(y, m, d))
    if e is not None:
        if exc_name(e) == 'XLDateAmbiguous':
            ctx.prove('ambiguous: in January or February 1900', z3.And(
                good, mode == 0, y == 1900, m <= 2))
            ctx.cover('ambiguous')
        elif exc_name(e) == 'XLDateBadTuple':
            # not a date, or not after the start of the system
            first = ordinal(y, m, d) <= BASE[mode]
            ctx.prove('bad tuple only for invalid dates', z3.Or(
                z3.Not(good), first))
            ctx.cover('bad tuple')
        else:
            expect(ctx, e, 'xldate_from_date_tuple')
        return
    v = to_z3(it.num(it.resolve(t)))
    v = z3.ToReal(v) if v.is_int() else v
    if ctx.branch(z3.And(y == 0, m == 0, d == 0)):
        ctx.prove('0 for the zero date', v == 0)
        ctx.cover('zero')
        return
    ctx.prove('only valid dates are converted', good)
    ctx.prove('day number', v == z3.ToReal(ordinal(y, m, d) - BASE[mode]))
    ctx.prove('of the date system', v >= (61 if mode == 0 else 1))
    ctx.cover('date')


@contract('C19', 'xldate_from_time_tuple', [F + 'xldate_from_time_tuple'],
          covers=('time', 'bad tuple'), assumes=[A_REAL])
def from_time(ctx):
    it = Interp({})
    h, m, s = (ctx.fresh(x, I) for x in 'hms')
    fn = it.find_func(F + 'xldate_from_time_tuple')
    t, e = call_or_exc(it, fn, [(h, m, s)])
    good = z3.And(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60)
    if e is not None:
        ctx.prove('bad tuple only for invalid times', z3.And(
            exc_name(e) == 'XLDateBadTuple', z3.Not(good)))
        ctx.cover('bad tuple')
        return
    ctx.prove('only valid times are converted', good)
    ctx.prove('fraction of the day', to_z3(it.num(it.resolve(t))) * 86400 ==
              z3.ToReal(h * 3600 + m * 60 + s))
    ctx.cover('time')


@contract('C19', 'xldate_from_datetime_tuple',
          [F + 'xldate_from_datetime_tuple'],
          callees=[F + 'xldate_from_date_tuple',
                   F + 'xldate_from_time_tuple'], assumes=[A_REAL])
def from_datetime(ctx):
    day, tm = ctx.fresh('daynumber', R), ctx.fresh('fraction', R)
    vals = [ctx.fresh(x, I) for x in ('y', 'm', 'd', 'h', 'mi', 's')]
    mode = ctx.decide([('mode', 0), ('mode', 1)])[1]
    got = {}

    def c_date(it, f, args, kw):
        got['date'] = args
        return day

    def c_time(it, f, args, kw):
        got['time'] = args
        return tm
    it = Interp({F + 'xldate_from_date_tuple': c_date,
                 F + 'xldate_from_time_tuple': c_time})
    fn = it.find_func(F + 'xldate_from_datetime_tuple')
    t, e = call_or_exc(it, fn, [tuple(vals), mode])
    if not expect(ctx, e, 'xldate_from_datetime_tuple'):
        return
    a, b = got.get('date'), got.get('time')
    ok = a is not None and b is not None and len(a) == 2 and len(b) == 1 \
        and a[1] == mode
    ctx.prove('both parts are converted', ok)
    if not ok:
        return
    for nm, tup, want in (('date', a[0], vals[:3]), ('time', b[0],
                                                     vals[3:])):
        tup = it.resolve(tup)
        ok = isinstance(tup, tuple) and len(tup) == 3
        ctx.prove('the %s has three numbers' % nm, ok)
        if ok:
            ctx.prove('the %s part' % nm, z3.And(*[
                to_z3(x) == w for x, w in zip(tup, want)]))
    ctx.prove('sum of day number and fraction', to_z3(t) == day + tm)
    ctx.cover('post')


@contract('C19', 'round trip', covers=('post',), assumes=[A_REAL],
          callees=[F + 'xldate_as_tuple', F + 'xldate_from_date_tuple'])
def round_trip(ctx):
    """Over the two contracts: the day number of the date of day n is n."""
    for mode in (0, 1):
        n = ctx.fresh('n', I)
        y, m, d = (ctx.fresh(x, I) for x in 'ymd')
        ctx.assume(z3.And(n >= (61 if mode == 0 else 1), n < TOP[mode]))
        o, v = ctx.fresh('ord', I), ctx.fresh('v', I)
        ctx.assume(near(z3.ToReal((o - BASE[mode]) * 86400),
                        z3.ToReal(n * 86400)))    # xldate_as_tuple
        ctx.assume(v == o - BASE[mode])           # xldate_from_date_tuple
        ctx.prove('datemode %d' % mode, v == n)
    ctx.cover('post')


@contract('C19', 'xldate_as_datetime', [F + 'xldate_as_datetime'],
          assumes=[A_REAL, 'datetime + timedelta is integer arithmetic in '
                   'microseconds within years 1 to 9999'])
def as_datetime(ctx):
    mode = ctx.decide([('mode', 0), ('mode', 1)])[1]
    it = Interp({})
    n, f = ctx.fresh('days', I), ctx.fresh('frac', R)
    ctx.assume(z3.And(n >= 0, n < TOP[mode], f >= 0, f < 1))
    x = z3.ToReal(n) + f
    # the last half millisecond rounds up to year 10000
    ctx.assume(x * 86400000 < TOP[mode] * 86400000 - 1)
    fn = it.find_func(F + 'xldate_as_datetime')
    t, e = call_or_exc(it, fn, [x, mode])
    if not expect(ctx, e, 'xldate_as_datetime'):
        return
    t = it.resolve(t)
    ok = isinstance(t, DateTimeV)
    ctx.prove('a datetime', ok)
    if not ok:
        return
    us = to_z3(t.us)
    ms = ctx.fresh('ms', I)
    ctx.assume(ms == us / 1000)
    if mode == 0 and ctx.branch(x < 60):
        base = BASE[0] + 1
    else:
        base = BASE[mode]
    ctx.prove('in milliseconds', models.zmod(us, 1000) == 0)
    ctx.prove('date and time to the millisecond', near(
        z3.ToReal(us - (base - 1) * DAY) / 1000, x * 86400000))
    ctx.cover('post')
