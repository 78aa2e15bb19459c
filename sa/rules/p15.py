"""a g-function at a height is interpolated between the computed curves"""
from ..oblig import *
from .world import *

SPEC = '''
import math
import warnings
from scipy.interpolate import interp1d, lagrange

NEEDED = {'linear': 2, 'quadratic': 3, 'cubic': 4, 'lagrange': 2}

def interpolated(s, ratio, kind):
    heights = [h for h in s.g_lts]
    n = len(heights)
    lo = min(heights)
    hi = max(heights)
    H = s.B / ratio
    if abs(H - hi) < 1e-6:
        H = hi
    if abs(H - lo) < 1e-6:
        H = lo
    if lo <= H <= hi or abs(lo - H) < 1e-3:
        fill = ''
    else:
        fill = 'extrapolate'
        warnings.warn('Extrapolation')
    if n < 2:
        if kind == 'default' and (abs(H - heights[0]) / heights[0] < 1e-3
                                  or abs(lo - H) < 1e-3):
            h = heights[0]
            return s.g_lts[h], s.r_b_values[h], s.D_values[h], H
        raise ValueError('needs two curves')
    if kind == 'default':
        if n >= 5:
            kind = 'cubic'
        elif n >= 3:
            kind = 'quadratic'
        else:
            kind = 'linear'
    if NEEDED[kind] > n:
        kind = {2: 'linear', 3: 'quadratic', 4: 'cubic'}[n]

    def at(values):
        if kind == 'lagrange':
            return lagrange(heights, values)(H)
        return interp1d(heights, values, kind=kind, fill_value=fill)(H)
    g = []
    for i in range(len(s.log_time)):
        g.append(at([s.g_lts[h][i] for h in heights]))
    return (g, at([s.r_b_values[h] for h in heights]),
            at([s.D_values[h] for h in heights]), H)

def twice(s, ratio, kind, ratio2, kind2):
    interpolated(s, ratio, kind)
    return interpolated(s, ratio2, kind2)

def twice_code(s, ratio, kind, ratio2, kind2):
    s.g_function_interpolation(ratio, kind)
    return s.g_function_interpolation(ratio2, kind2)

def default(s, ratio):
    return interpolated(s, ratio, 'default')

def corrected(g, rb, rb_star):
    return [x - math.log(rb_star / rb) for x in g]

def corrected_code(g, rb, rb_star):
    from ghedt.gfunction import GFunction
    return GFunction.borehole_radius_correction(g, rb, rb_star)

def scaled(s, B):
    return [[p[0] * (B / s.B), p[1] * (B / s.B)] for p in s.bore_locations]
'''


def curves(n):
    """n curves of increasing height"""
    def f(I, st, name):
        h = [sym('h1', 'real', 0, True)]
        for i in range(2, n + 1):
            h.append(X.add(h[-1], sym('dh%d' % i, 'real', 0, True)))

        def table(v):
            return lambda I, st, _: I.newdict(st, X.mk('dict', *[
                y for x in zip(h, [v(I, st, i) for i in range(n)])
                for y in x]))
        seq = lambda I, st, i: I.newlist(st, sym('g%d' % i, 'seq'))
        return instance(
            GF, B=sym('B', 'real', 0, True), g_lts=table(seq),
            r_b_values=table(lambda I, st, i: sym('rb%d' % i, 'real', 0, True)),
            D_values=table(lambda I, st, i: sym('D%d' % i, 'real', 0, True)),
            log_time='seq', bore_locations='seq',
            interpolation_table=empty_dict)(I, st, name)
    return f


def warned(v, run):
    c = FALSE
    for e in run.events:
        if e.kind == 'warn':
            c = or_(c, exists(e.cond, e.loops))
    return lit([v, ite(c, ONE, ZERO)])


def ratios(n):
    """B/H of heights near, at and away from the computed ones"""
    from fractions import Fraction as F

    def f(r):
        h = F(101, 2) + F(101, 4) * r.choice([0, 0, r.randint(0, n - 1), n - 1])
        e = r.choice([F(0), F(1, 2000000), F(1, 2000), F(1, 200), F(1, 50), F(1, 5),
                      F(1), F(30)])
        return F(5) / (h + r.choice([-1, 1]) * e)
    d = {'ratio': f, 'ratio2': f, 'B': lambda r: F(5), 's.B': lambda r: F(5),
         'h1': lambda r: F(101, 2)}
    d.update(('dh%d' % i, lambda r: F(101, 4)) for i in range(2, 8))
    return d


KINDS = ('default', 'linear', 'quadratic', 'cubic', 'lagrange')


def rules(C):
    C.load(SPEC)
    where = GF + '.g_function_interpolation'
    for n in (1, 2, 3, 4, 5, 6):
        for k in KINDS if n > 1 else KINDS[:2]:
            C.equiv('%d curves, %s' % (n, k), where, 'interpolated',
                    [('s', curves(n)), ('ratio', 'pos'),
                     ('kind', fixed(string(k)))], pick=warned, domains=ratios(n))
    for n in (2, 3, 5):
        for k, k2 in (('default', 'default'), ('linear', 'lagrange'),
                      ('cubic', 'linear')):
            C.equiv('%d curves, %s after %s' % (n, k2, k), where, 'twice',
                    [('s', curves(n)), ('ratio', 'pos'),
                     ('kind', fixed(string(k))), ('ratio2', 'pos'),
                     ('kind2', fixed(string(k2)))], code='spec.twice_code',
                        domains=ratios(n))
    C.equiv('default technique', where, 'default',
            [('s', curves(5)), ('ratio', 'pos')], domains=ratios(5))
    C.equiv('radius correction', GF + '.borehole_radius_correction',
            'corrected', [('g', 'seq'), ('rb', 'pos'), ('rb_star', 'pos')],
            code='spec.corrected_code')
    C.equiv('scaled coordinates', GF + '.correct_coordinates', 'scaled',
            [('s', instance(GF, bore_locations='seq', B='pos')),
             ('B', 'pos')], domains={'s.bore_locations': point_list})
