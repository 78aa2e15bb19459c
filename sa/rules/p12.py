"""durations of the monthly peaks from the fluid temperatures of two days"""
from fractions import Fraction
from ..oblig import *
from .world import *
from .p10 import thirteen_of, thirteen, listof

SPEC = '''
import math
import numpy as np
from scipy import interpolate
import ghedt.peak_load_analysis_tool as plat

def hourly(t, q, g, Rb, k, ts):
    out = [0]
    for n in range(1, len(t)):
        dT = 0.
        for j in range(n):
            dT += (q[j + 1] - q[j]) / k * g(
                math.log((t[n] - t[j]) * 3600. / ts))
        out.append(dT + q[n] * Rb)
    return out

def hourly_code(t, q, g, Rb, k, ts):
    return plat.ground_loads.Loads.simulate_hourly(t, q, g, Rb, k, ts)

def month(s, loads, peak, average, pk, nm):
    hours = np.array([h for h in range(49)])
    flat = np.array([0.] + [peak - average for _ in range(48)])
    real = np.array([0.] + [(loads[i + 1] - average) / peak * loads[i + 1]
                            for i in range(48)])
    dT_peak = s.simulate_hourly(hours, flat, s.g_sts, s.Rb, s.two_pi_k, s.ts)
    dT = s.simulate_hourly(hours, real, s.g_sts, s.Rb, s.two_pi_k, s.ts)
    pk.append(dT_peak)
    nm.append(dT)
    if max(dT) > 0:
        d = interpolate.interp1d(dT_peak, hours)(max(dT)).tolist()
    else:
        d = 1e-6
    return (d, flat, real), pk, nm

def month_code(s, loads, peak, average, pk, nm):
    r = s.perform_current_month_simulation(loads, peak, average, pk, nm)
    return r, pk, nm

def durations(s):
    out = [0] * 13
    for i in range(1, 13):
        two_days = [0.] + s.monthly_two_day_hourly_peak[i]
        peak = s.monthly_peak[i]
        if not abs(peak - max(two_days)) < 0.1:
            peak = max(two_days)
        if peak != 0:
            r = s.perform_current_month_simulation(
                two_days, peak, s.monthly_average[i],
                s.monthly_two_day_fluid_temps_pk,
                s.monthly_two_day_fluid_temps_nm)
            out[i] = r[0]
        else:
            out[i] = 1e-6
            s.monthly_two_day_fluid_temps_pk.append([0] * len(two_days))
            s.monthly_two_day_fluid_temps_nm.append([0] * len(two_days))
    return (out, s.monthly_two_day_fluid_temps_pk,
            s.monthly_two_day_fluid_temps_nm)

def durations_code(s):
    s.find_peak_durations()
    return (s.monthly_peak_duration, s.monthly_two_day_fluid_temps_pk,
            s.monthly_two_day_fluid_temps_nm)

def energy(s, m):
    return s.monthly_peak[m] * s.monthly_peak_duration[m]
'''
LO = PL + 'ground_loads.Loads'
SIMH = LO + '.simulate_hourly'
evalt.TRUSTED.update({'two-day-temperatures', 'duration', 'simulated-peak',
                      'simulated-nominal'})
X.SEQFN.add('two-day-temperatures')


def interpolant(I, st, n):
    return I.call(py(Ext('scipy.interpolate.interp1d')),
                  [I.make_input(n + '.x', 'seq', st),
                   I.make_input(n + '.y', 'seq', st)], {}, st)


def temperatures(I, f, args, kw, st, node):
    a = [frozen(I, x, st) for x in args_of(I, f, args, kw, st)]
    return I.newlist(st, mk('fn', 'two-day-temperatures', *a))


def one_month(I, f, args, kw, st, node):
    b = args_of(I, f, args, kw, st)
    a = [frozen(I, x, st) for x in b[1:4]]
    for k, n in ((4, 'simulated-peak'), (5, 'simulated-nominal')):
        I.call(I.getattr(b[k], 'append', st), [mk('fn', n, *a)], {}, st)
    return lit([mk('fn', 'duration', *a), NONE, NONE])


def year_of(name):
    X.SEQFN.add(name)
    evalt.TRUSTED.add(name)
    evalt.SAMPLE[name] = lambda r: [r.choice([0, 0, 1, 2])] * 48

    def f(I, st, n):
        k = X.fresh('k', 'int', 0)
        return I.newlist(st, X.concat(lit([lit([ZERO])]), X.seqfor(
            num(12), k, lit([mk('fn', name, k)]))))
    return f


def series(name):
    """an array of N values"""
    def f(I, st, n):
        k = X.fresh('k', 'int', 0)
        return I.newlist(st, X.seqfor(sym('N', 'int', 2, True), k, lit(
            [X.index(sym(name, 'seq'), k)])), 'array')
    return f


def rules(C):
    C.load(SPEC)
    C.equiv('hourly temperatures of two days', SIMH, 'hourly',
            [('t', series('t')), ('q', series('q')), ('g', interpolant), ('Rb', 'pos'),
             ('k', 'pos'), ('ts', 'pos')], code='spec.hourly_code',
            domains={'N': lambda r: r.randint(2, 4),
                     't': lambda r: [0, 1, 3, 4]}, seqlen=4)
    C.equiv('peak of a month', LO + '.perform_current_month_simulation',
            'month', [('s', instance(LO, g_sts=interpolant, Rb='pos',
                                     two_pi_k='pos', ts='pos')),
                      ('loads', 'seq'), ('peak', 'pos'), ('average', 'real'),
                      ('pk', 'seq'), ('nm', 'seq')], code='spec.month_code',
            cuts={SIMH: temperatures}, raises=False,
            domains={'loads': lambda r: [
                Fraction(r.randint(-500, 500), 100) for _ in range(49)]})
    C.equiv('peaks of a year', LO + '.find_peak_durations', 'durations',
            [('s', instance(
                LO, monthly_two_day_hourly_peak=year_of('two-days'),
                monthly_peak_duration=thirteen(ZERO), days_in_month=thirteen(
                    num(30)), monthly_peak=thirteen_of('peak'),
                monthly_average=thirteen_of('average'),
                monthly_two_day_fluid_temps_pk='seq',
                monthly_two_day_fluid_temps_nm='seq'))],
            code='spec.durations_code', cuts={
                LO + '.perform_current_month_simulation': one_month},
            raises=False, domains={
                'peak': lambda r: [Fraction(r.randint(0, 44), 20)
                                   for _ in range(12)],
                'average': lambda r: [Fraction(r.randint(0, 50), 10)
                                      for _ in range(12)]})
    C.equiv('energy of a peak', LO + '.peak_energy', 'energy',
            [('s', instance(LO)), ('m', 'posint')])
