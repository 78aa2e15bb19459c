"""monthly statistics of the hourly loads, and the two days around each peak"""
from fractions import Fraction

from ..oblig import *
from .world import *

SPEC = '''
from calendar import monthrange
import math

def documented_split(s):
    total = [0.] * 13
    peak = [0.] * 13
    average = [0.] * 13
    day = [0.] * 13
    before = 0
    for i in range(12):
        n = 24 * s.days_in_month[1:][i]
        month = s.hourly[before:before + n]
        total[i + 1] = sum(month)
        peak[i + 1] = max(month)
        average[i + 1] = sum(month) / len(month)
        day[i + 1] = month.index(max(month)) // 24 + 1
        before += n
    return total, peak, average, day

def split(s):
    total = [0.] * 13
    peak = [0.] * 13
    average = [0.] * 13
    day = [0.] * 13
    before = 0
    for i in range(12):
        n = 24 * s.days_in_month[1:][i]
        month = s.hourly[before:before + n]
        total[i + 1] = sum(month)
        peak[i + 1] = max(month)
        average[i + 1] = sum(month) / len(month)
        day[i + 1] = math.ceil(month.index(max(month)) / 24)
        before += n
    return total, peak, average, day

def split_code(s):
    s.split_load_by_month()
    return (s.monthly_total, s.monthly_peak, s.monthly_average,
            s.monthly_peak_day)

def documented_two_days(s):
    year = s.hourly
    around = year[len(year) - 24:] + year + year[:24]
    out = [[0]]
    before = 24
    for i in range(12):
        start = before + 24 * (s.monthly_peak_day[i + 1] - 2)
        out.append(around[start:start + 48])
        before += 24 * s.days_in_month[1:][i]
    return out

def two_days(s):
    year = s.hourly
    around = year[len(year) - 24:] + year + year[:24]
    out = [[0]]
    before = 24
    for i in range(12):
        start = before + 24 * (s.monthly_peak_day[i + 1] - 1)
        out.append(around[start:start + 48])
        before += 24 * s.days_in_month[1:][i]
    return out

def two_days_code(s):
    s.process_two_day_loads()
    return s.monthly_two_day_hourly_peak

def calendar(hourly, g, ts, k, Rb, year):
    days = [0] + [monthrange(year, m)[1] for m in range(1, 13)]
    assert len(hourly) == 24 * sum(days)
    return days, hourly

def calendar_code(hourly, g, ts, k, Rb, year):
    import ghedt.peak_load_analysis_tool as plat
    s = plat.ground_loads.Loads(hourly, g, ts, k, Rb, year=year)
    return s.days_in_month, s.hourly
'''
LO = PL + 'ground_loads.Loads'




def days(r):
    return [r.choice([1, 2, 3]) for _ in range(12)]


def thirteen_of(name):
    """a list of 13 whose first item is 0"""
    def f(I, st, n):
        k = X.fresh('k', 'int', 0)
        s = sym(name, 'seq')
        return I.newlist(st, X.concat(lit([ZERO]), X.seqfor(
            num(12), k, lit([X.index(s, k)]))))
    return f


def hourly(r):
    n = r.choice([24 * 12, 24 * 20, 24 * 36])
    return [Fraction(r.randint(0, 900000), 99991) if r.random() < .1 else 0
            for _ in range(n)]


def thirteen(v):
    return lambda I, st, n: I.newlist(st, lit([v] * 13))


evalt.SAMPLE['monthlen'] = lambda r: r.choice([1, 2])


def listof(*v):
    return lambda I, st, n: I.newlist(st, lit(list(v)))


def rules(C):
    C.load(SPEC)
    dom = {'days': days, 'hourly': hourly,
           'peakday': lambda r: [r.randint(0, 3) for _ in range(12)]}
    seq = lambda n: (lambda I, st, _: I.make_input(n, 'seq', st))
    base = dict(days_in_month=thirteen_of('days'), hourly=seq('hourly'))
    C.equiv('monthly total, peak, average and peak day',
            LO + '.split_load_by_month', 'documented_split', [('s', instance(
                LO, monthly_total=thirteen(ZERO), monthly_peak=thirteen(ZERO),
                monthly_average=thirteen(ZERO),
                monthly_peak_day=thirteen(ZERO), **base))],
            code='spec.split_code', recorded='split', domains=dom, raises=False)
    C.equiv('monthly total, peak and average',
            LO + '.split_load_by_month', 'documented_split', [('s', instance(
                LO, monthly_total=thirteen(ZERO), monthly_peak=thirteen(ZERO),
                monthly_average=thirteen(ZERO),
                monthly_peak_day=thirteen(ZERO), **base))],
            code='spec.split_code', domains=dom, raises=False,
            pick=lambda v, run: lit(list(v.args[:3])))
    C.equiv('two days around each peak', LO + '.process_two_day_loads',
            'documented_two_days', [('s', instance(
                LO, monthly_two_day_hourly_peak=listof(lit([ZERO])),
                monthly_peak_day=thirteen_of('peakday'), **base))],
            code='spec.two_days_code', recorded='two_days', domains=dom, raises=False)
    quiet = {LO + '.' + m: (lambda *a: NONE) for m in (
        'split_load_by_month', 'process_two_day_loads',
        'find_peak_durations')}
    C.equiv('calendar', LO + '.__init__', 'calendar',
            [('hourly', 'seq'), ('g', 'any'), ('ts', 'pos'), ('k', 'pos'),
             ('Rb', 'pos'), ('year', 'posint')], code='spec.calendar_code',
            domains={'hourly': lambda r: [0] * (24 * r.randint(12, 24))},
            cuts=quiet)
