"""field selection by integer bisection"""
from ..oblig import *
from .. import models

SPEC = '''
import math

def sgn(x):
    if x > 0:
        return 1
    return -1

def opposite(a, b):
    return (a < 0 and b > 0) or (a > 0 and b < 0)

def search(s):
    domain = s.coordinates_domain
    H_min = s.sim_params.min_Height
    H_max = s.sim_params.max_Height
    temps = s.calculated_temperatures
    left = 0
    right = len(domain) - 1
    T_low = s.calculate_excess(domain[0], H_min)
    T_first = s.calculate_excess(domain[0], H_max)
    T_last = s.calculate_excess(domain[right], H_max)
    temps[0] = T_first
    temps[right] = T_last
    if opposite(sgn(T_low), sgn(T_first)):
        s.initialize_ghe(domain[0], H_max)
        return (0, domain[0])
    if not opposite(sgn(T_first), sgn(T_last)):
        if T_first < 0 and T_last < 0:
            raise ValueError('miniscule')
        if T_first > 0 and T_last > 0:
            raise ValueError('astronomical')
        return (None, None)
    i = 0
    while i < s.max_iter:
        c = math.ceil((left + right) / 2)
        if c == left or c == right:
            break
        T = s.calculate_excess(domain[c], H_max)
        temps[c] = T
        if sgn(T) == sgn(T_first):
            left = c
        else:
            right = c
        i += 1
    s.calculate_excess(domain[i], H_max)
    ok = [t for t in temps.values() if t <= 0]
    best = max(ok)
    key = list(temps.keys())[list(temps.values()).index(best)]
    s.initialize_ghe(domain[key], H_max)
    return (key, domain[key])

def excess(s, coordinates, H):
    s.initialize_ghe(coordinates, H)
    hot, cold = s.ghe.simulate(method=s.method)
    return s.ghe.cost(hot, cold)
'''

B1 = 'ghedt.search_routines.Bisection1D'


def fields(r):
    from fractions import Fraction
    n = r.choice([1, 2, 3, 4, 5, 7, 9, 12, 20, 33])
    return [[[Fraction(i), Fraction(j)] for j in range(1 + i % 3)]
            for i in range(n)]


def initialize(I, f, args, kw, st, node):
    s, c, h = list(I.bind(f, args, kw, st).values())[:3]
    I.setattr(s, 'ghe', mk('fn', 'ghe', I.freeze(c, st, None), h), st)
    return NONE


def calc_excess(I, f, args, kw, st, node):
    s, c, h = list(I.bind(f, args, kw, st).values())[:3]
    c = I.freeze(c, st, None)
    I.setattr(s, 'ghe', mk('fn', 'ghe', c, h), st)
    return mk('fn', 'excess', c, h)


for n in ('ghe', 'excess'):
    evalt.TRUSTED.add(n)


def rules(C):
    C.load(SPEC)
    X.FNSIGN.pop('excess', None)
    cuts = {B1 + '.initialize_ghe': initialize,
            B1 + '.calculate_excess': calc_excess}
    dom = {'dom': fields, 'self.max_iter': lambda r: r.choice([15, 15, 15, 3])}
    me = instance(B1, coordinates_domain=lambda I, st, n: I.make_input(
        'dom', 'seq', st), calculated_temperatures=empty_dict,
        max_iter='posint', disp=fixed(FALSE))
    C.equiv('selected field', B1 + '.search', 'search', [('self', me)],
            cuts=cuts, domains=dom,
            pick=outcome('calculated_temperatures'))
    C.equiv('field left in place', B1 + '.search', 'search', [('self', me)],
            cuts=cuts, domains=dom, pick=outcome('ghe', value=False))
