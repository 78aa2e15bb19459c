"""an answer does not depend on what was asked before"""
from ..oblig import *
from ..interp import Ext
from .world import *
from . import shared

STAND = '''
class Tube:
    def __init__(self, m_flow_borehole, fluid, borehole, pipe, grout, soil):
        self.m_flow_borehole = m_flow_borehole
        self.fluid = fluid
        self.b = borehole
        self.pipe = pipe
        self.grout = grout
        self.soil = soil
        self.update_thermal_resistance()
    def update_thermal_resistance(self, m_flow_borehole=None, fluid=None):
        if m_flow_borehole is not None:
            self.m_flow_borehole = m_flow_borehole
        if fluid is not None:
            self.fluid = fluid
        self.state = resistances(self.m_flow_borehole, self.fluid.rho,
                                 self.b.H, self.b.r_b, self.pipe.k,
                                 self.grout.k, self.soil.k)
    def compute_effective_borehole_resistance(self, m_flow_borehole=None,
                                              fluid=None):
        return resistance(self.m_flow_borehole, self.fluid.rho, self.b.H,
                          self.b.r_b, self.pipe.k, self.grout.k, self.soil.k)

class Radial:
    def __init__(self, tube):
        self.t_s = characteristic_time(tube)
        self.state = 0
    def calc_sts_g_functions(self, tube):
        self.lntts = short_times(tube)
        self.g = short_g(tube)

class Hybrid:
    def __init__(self, rejection, extraction, tube, radial, sim_params):
        self.load = hybrid_load(rejection, extraction, tube)
        self.hour = hybrid_hour(rejection, extraction, tube)

class Curves:
    def __init__(self, name, bore_locations):
        self.name = name
        self.bore_locations = bore_locations
        self.log_time = long_times(name)
    def g_function_interpolation(self, B_over_H, kind='default'):
        return (interpolated(self.name, B_over_H), radius(self.name, B_over_H),
                buried(self.name, B_over_H), height(self.name, B_over_H))
    def borehole_radius_correction(self, g, rb, rb_star):
        return corrected(g, rb, rb_star)

def live(B, H, rb, D, m, *more):
    return Curves((B, H, rb, D, m), more[2])

'''
OPAQUE = ('resistances', 'resistance', 'characteristic_time', 'short_times',
          'short_g', 'hybrid_load', 'hybrid_hour', 'long_times',
          'interpolated', 'radius', 'buried', 'height', 'corrected')
ARRAYS = ('short_times', 'short_g', 'hybrid_load', 'hybrid_hour', 'corrected')
STAND += ''.join('def %s(*a):\n    return opaque_%s(*a)\n' % (n, n)
                 for n in OPAQUE)
STAND += ''.join('def opaque_%s(*a):\n    pass\n' % n for n in OPAQUE)

SPEC = '''
import ghedt as dt
from ghedt import search_routines
from past import Tube, Curves

def exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads):
    return dt.ground_heat_exchangers.GHE(
        V, B, Tube, fluid, b, pipe, grout, soil, Curves('first', points), sim,
        loads)

def change(s, what, to):
    if what == 'height':
        s.bhe.b.H = to
    elif what == 'radius':
        s.bhe.b.r_b = to
    elif what == 'flow':
        s.bhe.m_flow_borehole = to
    elif what == 'pipe':
        s.bhe.pipe.k = to
    elif what == 'soil':
        s.bhe.soil.ugt = to
    elif what == 'spacing':
        s.B_spacing = to
    elif what == 'g-function':
        s.GFunction = Curves('second', s.GFunction.bore_locations)
    elif what == 'months':
        s.sim_params.end_month = to
    elif what == 'loads':
        s.hourly_extraction_ground_loads = to
    elif what == 'limits':
        s.sim_params.max_EFT_allowable = to

def answer(s, method):
    hot, cold = s.simulate(method=method)
    return (hot, cold, s.cost(hot, cold), s.HPEFT, s.dTb)

def simulated(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what, to,
              before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    change(s, what, to)
    return answer(s, method)

def simulated_code(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what,
                   to, before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    answer(s, before)
    change(s, what, to)
    return answer(s, method)

def curve(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what, to,
          before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    change(s, what, to)
    return s.grab_g_function(s.B_spacing / s.bhe.b.H)

def curve_code(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what, to,
               before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    s.grab_g_function(s.B_spacing / s.bhe.b.H)
    change(s, what, to)
    return s.grab_g_function(s.B_spacing / s.bhe.b.H)

def sized(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what, to,
          before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    change(s, what, to)
    s.size(method=method)
    return s.bhe.b.H, s.HPEFT

def sized_code(V, B, fluid, b, pipe, grout, soil, sim, points, loads, what, to,
               before, method):
    s = exchanger(V, B, fluid, b, pipe, grout, soil, sim, points, loads)
    s.size(method=before)
    change(s, what, to)
    s.size(method=method)
    return s.bhe.b.H, s.HPEFT

def searcher(V, fluid, b, pipe, grout, soil, sim, fields, loads, flow, method):
    return search_routines.Bisection1D(
        fields, V, b, Tube, fluid, pipe, grout, soil, sim, loads,
        method=method, flow=flow, search=False)

def excess(V, fluid, b, pipe, grout, soil, sim, fields, loads, flow, method,
           i, H0, H):
    s = searcher(V, fluid, b, pipe, grout, soil, sim, fields[1:], loads,
                 flow, method)
    return s.calculate_excess(fields[1], H), s.ghe.nbh, s.ghe.bhe.b.H

def excess_code(V, fluid, b, pipe, grout, soil, sim, fields, loads, flow,
                method, i, H0, H):
    s = searcher(V, fluid, b, pipe, grout, soil, sim, fields, loads, flow,
                 method)
    s.calculate_excess(fields[i], H0)
    return s.calculate_excess(fields[1], H), s.ghe.nbh, s.ghe.bhe.b.H
'''


def stand(name):
    def h(I, cls, args, kw, st, node):
        return I.call(I.lookup('past.' + name), args, kw, st, node)
    return h


def opaque(n):
    evalt.TRUSTED.add('past-' + n)
    if n in ARRAYS or n == 'long_times':
        X.SEQFN.add('past-' + n)

    def h(I, f, args, kw, st, node):
        t = mk('fn', 'past-' + n, *[frozen(I, v, st)
                                    for v in args_of(I, f, args, kw, st)])
        if n in ARRAYS:
            return I.newlist(st, t, 'array' if n != 'corrected' else 'list')
        if n == 'long_times':
            return I.newlist(st, t)
        return t
    return h


def combined(I, f, args, kw, st, node):
    b = args_of(I, f, args, kw, st)
    return I.call(py(Ext('scipy.interpolate.interp1d')), [
        mk('fn', 'past-times', *[frozen(I, v, st) for v in (b[0], b[2])]),
        mk('fn', 'past-values', *[frozen(I, v, st) for v in b])], {}, st)


X.SEQFN.update(('past-times', 'past-values'))
evalt.TRUSTED.update(('past-times', 'past-values'))

CUTS = {'past.opaque_' + n: opaque(n) for n in OPAQUE}
CUTS.update({
    PL + 'ground_loads.HybridLoad': stand('Hybrid'), RNB: stand('Radial'),
    PL + 'equivalance.compute_equivalent': equivalent,
    BASE + '.combine_sts_lts': combined, LIVE: stand('live'),
    PL + 'ground_loads.HybridLoad.split_heat_and_cool':
        all_args('split-loads'),
    PL + 'equivalance.solve_root': solve_root})


def points(k):
    return lambda I, st, n: I.newlist(st, lit([
        lit([sym('%sx%d' % (n, i), 'real'), sym('%sy%d' % (n, i), 'real')])
        for i in range(k)]))


def fields(*ks):
    return lambda I, st, n: I.newlist(st, lit([
        points(k)(I, st, '%s%d.' % (n, i)) for i, k in enumerate(ks)]))


def rules(C):
    shared.rules(C)
    C.load(STAND, 'past')
    C.load(SPEC)
    parts = [('fluid', 'obj'), ('b', 'obj'), ('pipe', 'obj'),
             ('grout', 'obj'), ('soil', 'obj'), ('sim', 'obj')]
    base = [('V', 'pos'), ('B', 'pos')] + parts + \
        [('points', points(2)), ('loads', 'seq')]
    word = lambda s: fixed(string(s))
    for what in ('nothing', 'height', 'radius', 'flow', 'pipe', 'soil',
                 'spacing', 'g-function', 'months', 'loads', 'limits'):
        for before, method in (('hybrid', 'hybrid'), ('hourly', 'hourly'),
                               ('hourly', 'hybrid'), ('hybrid', 'hourly')):
            if before != method and what not in ('nothing', 'height'):
                continue
            C.equiv('%s simulation after a %s one, other %s' % (
                method, before, what), GHE + '.simulate', 'simulated',
                base + [('what', word(what)),
                        ('to', 'seq' if what == 'loads' else 'pos'),
                        ('before', word(before)), ('method', word(method))],
                code='spec.simulated_code', cuts=CUTS, raises=False)
        if what not in ('months', 'loads', 'limits', 'soil'):
            C.equiv('g-function, other ' + what, BASE + '.grab_g_function',
                    'curve', base + [
                        ('what', word(what)), ('to', 'pos'),
                        ('before', word('')), ('method', word(''))],
                    code='spec.curve_code', cuts=CUTS, raises=False)
    for method in ('hybrid', 'hourly'):
        for what in ('nothing', 'height', 'flow', 'g-function', 'spacing'):
            C.equiv('%s sizing again, other %s' % (method, what),
                    GHE + '.size', 'sized', base + [
                        ('what', word(what)), ('to', 'pos'),
                        ('before', word('hybrid')), ('method', word(method))],
                    code='spec.sized_code', cuts=CUTS, raises=False)
    look = [('V', 'pos')] + parts + [('fields', fields(2, 3, 3)),
                                     ('loads', 'seq')]
    for flow in ('borehole', 'system'):
        for method in ('hybrid', 'hourly'):
            for i in range(3):
                C.equiv('excess of a %s flow, %s, after that of %s' % (
                    flow, method, ('a smaller field', 'the same field',
                                   'a field of the same size')[i]),
                        B1 + '.calculate_excess', 'excess', look + [
                            ('flow', word(flow)), ('method', word(method)),
                            ('i', fixed(num(i))), ('H0', 'pos'), ('H', 'pos')],
                        code='spec.excess_code', cuts=CUTS, raises=False)
