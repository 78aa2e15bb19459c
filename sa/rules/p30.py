"""a year of hourly loads made of monthly averages and peaks"""
from ..oblig import *
from .world import *
from .p27 import LO, HY
from .p10 import thirteen_of

SPEC = '''
from calendar import monthrange
import math
import ghedt.peak_load_analysis_tool as plat

def peaked(year, average, peak, lasts, day, before, hours):
    noon = before + 24 * day + 12
    start = math.floor(noon - lasts / 2)
    flat = [x for x in year]
    flat[before:before + hours] = [average] * hours
    flat[start:start + lasts] = [peak] * lasts
    return flat

def one_month_code(year, average, peak, lasts, day, before, hours):
    plat.ground_loads.synthetic_load_function(
        year, average, peak, lasts, day, before, hours)
    return year

def documented_from_months(h, year):
    return from_months(h, year, 1)

def recorded_from_months(h, year):
    return from_months(h, year, 0)

def from_months(h, year, first):
    days = [0] + [monthrange(year, m)[1] for m in range(1, 13)]
    rejection = [0.] * sum(days) * 24
    extraction = [0.] * sum(days) * 24
    before = 0
    for m in range(1, len(days)):
        hours = 24 * days[m]
        extraction = peaked(
            extraction, h.extraction.monthly_average[m],
            h.extraction.monthly_peak[m],
            int(round(h.extraction.monthly_peak_duration[m])),
            h.extraction.monthly_peak_day[m] - first, before, hours)
        rejection = peaked(
            rejection, h.rejection.monthly_average[m],
            h.rejection.monthly_peak[m],
            int(round(h.rejection.monthly_peak_duration[m])),
            h.rejection.monthly_peak_day[m] - first, before, hours)
        before += hours
    return [rejection, extraction]

def from_months_code(h, year):
    a, b = h.hourly_load_representation(year)
    return [a, b]

def default_year_code(h, year):
    a, b = h.hourly_load_representation()
    return [a, b]

def doubling(units, year):
    assert units == 'W' or units == 'kW'
    one = 1000. if units == 'W' else 1.
    days = [0] + [monthrange(year, m)[1] for m in range(1, 13)]
    rejection = [0.] * sum(days) * 24
    extraction = [0.] * sum(days) * 24
    before = 0
    for m in range(1, len(days)):
        up = m * one
        down = (13 - m) * one
        extraction = peaked(extraction, up, 2 * up, m, 6 + m, before,
                            24 * days[m])
        rejection = peaked(rejection, down, 2 * down, 13 - m, 20 - m, before,
                           24 * days[m])
        before += 24 * days[m]
    return [rejection, extraction]

def doubling_code(units, year):
    a, b = plat.ground_loads.create_synthetic_doubling_load_profile(
        units, year)
    return [a, b]

def usual_doubling_code(units, year):
    a, b = plat.ground_loads.create_synthetic_doubling_load_profile()
    return [a, b]
'''
M = PL + 'ground_loads.'


def twelve(t='real'):
    return lambda I, st, n: I.newlist(st, lit([ZERO] + [
        sym('%s%d' % (n, i), t) for i in range(1, 13)]))


def rules(C):
    C.load(SPEC)
    C.equiv('one month', M + 'synthetic_load_function', 'peaked',
            [('year', 'seq'), ('average', 'real'), ('peak', 'real'),
             ('lasts', 'posint'), ('day', 'posint'), ('before', 'posint'),
             ('hours', 'posint')], code='spec.one_month_code',
            domains={'year': lambda r: [r.randint(-9, 9) for _ in range(240)],
                     'lasts': lambda r: r.randint(1, 12),
                     'day': lambda r: r.randint(1, 3),
                     'before': lambda r: r.choice([24, 48, 72]),
                     'hours': lambda r: r.choice([96, 120])})
    dom = {}
    for n in ('rejection', 'extraction'):
        for m in range(1, 13):
            at = 'h.%s.monthly_peak_%%s%d' % (n, m)
            dom[at % 'day'] = lambda r: r.randint(2, 27)
            dom[at % 'duration'] = lambda r: r.choice(
                [1, 2, 3, 5.2, 6.5, 7.5, 9.9, 12, 20])
    side = lambda n: instance(LO, monthly_average=twelve(),
                              monthly_peak=twelve(),
                              monthly_peak_day=twelve('posint'),
                              monthly_peak_duration=twelve('pos'))
    for y in (2019, 2024):
        C.equiv('year %d from its months' % y,
                HY + '.hourly_load_representation', 'documented_from_months',
                [('h', instance(HY, rejection=side('r'), extraction=side('e'))),
                 ('year', fixed(num(y)))], code='spec.from_months_code',
                recorded='recorded_from_months', domains=dom, ikw=dict(unroll_range=13))
        if y == 2019:
            C.equiv('usual year from its months',
                    HY + '.hourly_load_representation',
                    'documented_from_months', [
                        ('h', instance(HY, rejection=side('r'),
                                       extraction=side('e'))),
                        ('year', fixed(num(y)))],
                    code='spec.default_year_code', domains=dom,
                    recorded='recorded_from_months',
                    ikw=dict(unroll_range=13))
        for u in ('W', 'kW'):
            C.equiv('doubling loads in %s, %d' % (u, y),
                    M + 'create_synthetic_doubling_load_profile', 'doubling',
                    [('units', fixed(string(u))), ('year', fixed(num(y)))],
                    code='spec.doubling_code', ikw=dict(unroll_range=13))
    C.equiv('usual doubling loads',
            M + 'create_synthetic_doubling_load_profile', 'doubling',
            [('units', fixed(string('W'))), ('year', fixed(num(2019)))],
            code='spec.usual_doubling_code', ikw=dict(unroll_range=13))
    C.equiv('unknown units',
            M + 'create_synthetic_doubling_load_profile', 'doubling',
            [('units', fixed(string('MW'))), ('year', fixed(num(2019)))],
            code='spec.doubling_code', ikw=dict(unroll_range=13))
