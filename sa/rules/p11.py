"""the hybrid load sequence carries each month's energy and its peaks"""
from fractions import Fraction

from ..oblig import *
from .world import *

SPEC = '''
import numpy as np
from ghedt.peak_load_analysis_tool import ground_loads as gl

def sequence(rejection, extraction, bhe, radial, sim):
    rej = gl.Loads(rejection, None, None, None, None)
    ext = gl.Loads(extraction, None, None, None, None)
    start = sim.start_month
    end = sim.end_month
    load = [0, 0]
    hour = [0, gl.firstmonthhour(start) - 1]
    for i in range(start, end + 1):
        m = (i - 1) % 12 + 1
        hours = 24 * gl.monthdays(m)
        net = rej.monthly_total[m] - ext.monthly_total[m]
        dr = rej.monthly_peak_day[m]
        de = ext.monthly_peak_day[m]
        peaks = i < start + 12 or i > end - 12
        average = net / hours
        rate = (net - rej.monthly_peak[m] * rej.monthly_peak_duration[m]
                + ext.monthly_peak[m] * ext.monthly_peak_duration[m]) / (
            hours - rej.monthly_peak_duration[m]
            - ext.monthly_peak_duration[m])
        fr, lr = around(rej, m, i)
        fe, le = around(ext, m, i)
        if peaks and dr < de:
            if rej.monthly_peak[m] > 0:
                load += [rate, rej.monthly_peak[m]]
                hour += [fr, lr]
            if ext.monthly_peak[m] > 0:
                load += [rate, -ext.monthly_peak[m]]
                hour += [fe, le]
            load += [rate]
            hour += [gl.lastmonthhour(i)]
        elif peaks and dr > de:
            if ext.monthly_peak[m] > 0:
                load += [rate, -ext.monthly_peak[m]]
                hour += [fe, le]
            if rej.monthly_peak[m] > 0:
                load += [rate, rej.monthly_peak[m]]
                hour += [fr, lr]
            load += [rate]
            hour += [gl.lastmonthhour(i)]
        else:
            load += [average]
            hour += [gl.lastmonthhour(i)]
    steps = [0] + [load[k] - load[k - 1] for k in range(1, len(hour))]
    return load, hour, steps

def around(x, m, i):
    d = x.monthly_peak_duration[m]
    first = (gl.firstmonthhour(i) + 24 * (x.monthly_peak_day[m] - 1) + 12
             - d / 2)
    if first < 0:
        first = 1e-6
    return first, first + d

def sequence_code(rejection, extraction, bhe, radial, sim):
    s = gl.HybridLoad(rejection, extraction, bhe, radial, sim)
    return s.load, s.hour, s.sfload

NAMES = %r
'''
NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
         'August', 'September', 'October', 'November', 'December']
SPEC = SPEC.replace('%r', repr(NAMES))
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MONTHS = list(range(62)) + list(range(116, 122)) + [
    143, 179, 239, 240, 241, 299, 300, 301, 359, 360, 361, 362, 371]
TABLE = dict(
    number_to_month=NAMES, monthindex=list(range(1, 13)),
    monthdays=[DAYS[i % 12] for i in MONTHS],
    firstmonthhour=[1 + 24 * sum(DAYS[j % 12] for j in range(i))
                    for i in MONTHS],
    lastmonthhour=[24 * sum(DAYS[j % 12] for j in range(i + 1))
                   for i in MONTHS])
for _f, _a in (('number_to_month', range(1, 13)), ('monthdays', [i + 1 for i in MONTHS]),
               ('monthindex', ['NAMES[%d]' % i for i in range(12)]),
               ('firstmonthhour', [i + 1 for i in MONTHS]),
               ('lastmonthhour', [i + 1 for i in MONTHS])):
    SPEC += 'def all_%s():\n    return [%s]\n\n' % (
        _f, ', '.join('gl.%s(%s)' % (_f, x) for x in _a))
    SPEC += 'def table_%s():\n    return %r\n\n' % (_f, TABLE[_f])
HL = PL + 'ground_loads.HybridLoad'
LO = PL + 'ground_loads.Loads'
U1 = BHE + 'SingleUTube'
GLM = PL + 'ground_loads.'
evalt.SAMPLE['days-in'] = lambda r: r.choice([1, 2])
evalt.SAMPLE['first-hour'] = lambda r: r.choice([1, 2, 5, 20])
evalt.SAMPLE['last-hour'] = lambda r: r.randint(1, 90)


def monthly(lo, hi):
    return lambda r: [r.randint(lo, hi) for _ in range(13)]


def monthly_real(lo, hi):
    return lambda r: [r.choice([Fraction(lo), Fraction(r.randint(lo, hi)),
                                Fraction(r.randint(50 * lo, 50 * hi), 50)])
                      for _ in range(13)]


DOM = {'sim.start_month': lambda r: r.randint(1, 4),
       'sim.end_month': lambda r: r.randint(1, 40)}
for _s in ('rejection', 'extraction'):
    DOM.update({_s + '.monthly_peak': monthly_real(0, 3),
                _s + '.monthly_peak_day': monthly(0, 2),
                _s + '.monthly_peak_duration': monthly_real(0, 60),
                _s + '.monthly_total': monthly_real(0, 9)})


def loads(I, cls, args, kw, st, node):
    d = ctor_args(I, cls, args, kw, st)
    v = frozen(I, list(d.values())[0], st)
    return instance(LO, origin=v)(I, st, show(v))


def rules(C):
    C.load(SPEC)
    cuts = {GLM + 'monthdays': Token('days-in', 1),
            GLM + 'firstmonthhour': Token('first-hour', 1),
            GLM + 'lastmonthhour': Token('last-hour', 1), LO: loads,
            BHE + 'BasePipe.compute_effective_borehole_resistance':
                lambda *a: sym('Rb', 'real', 0, True)}
    ins = [('rejection', 'seq'), ('extraction', 'seq'), ('bhe', instance(U1)),
           ('radial', 'obj'), ('sim', 'obj')]
    C.equiv('sequence of loads', HL + '.__init__', 'sequence', ins,
            code='spec.sequence_code', cuts=cuts, raises=False, domains=DOM)
    for f in TABLE:
        C.equiv('%s of 31 years' % f if '_' not in f and 'index' not in f
                else f, GLM + f, 'table_' + f, [], code='spec.all_' + f)
