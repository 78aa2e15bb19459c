"""temporal superposition and the loads it is fed with"""
from fractions import Fraction

from ..oblig import *
from ..interp import Ext
from .world import *

SPEC = '''
import math
import numpy as np
from ghedt.peak_load_analysis_tool import equivalance

def superposition(s, Q, t, g):
    n = len(Q)
    bhe = s.bhe
    H = bhe.b.H
    Rb = bhe.compute_effective_borehole_resistance()
    q = [0.] + [Q[i] / s.nbh for i in range(n)]
    end = [0.] + [t[i] for i in range(n)]
    fluid = []
    wall = []
    for i in range(1, n + 1):
        dT = 0.
        for j in range(i):
            lntts = math.log((end[i] - end[j]) * 3600. / s.radial_numerical.t_s)
            dT += (q[j + 1] - q[j]) / (2. * math.pi * bhe.soil.k * H) * g(lntts)
        mean = bhe.soil.ugt + dT + q[i] / H * Rb
        fluid.append(mean - q[i] / (2. * bhe.m_flow_borehole * bhe.fluid.cp))
        wall.append(dT)
    return fluid, wall

def simulate(s, method):
    s.bhe.update_thermal_resistance()
    s.bhe_eq = equivalance.compute_equivalent(s.bhe)
    s.radial_numerical.calc_sts_g_functions(s.bhe_eq)
    g = s.grab_g_function(s.B_spacing / s.bhe.b.H)
    if method == 'hybrid':
        Q = 1000. * s.hybrid_load.load[2:]
        t = s.hybrid_load.hour[2:]
    elif method == 'hourly':
        months = s.sim_params.end_month - s.sim_params.start_month + 1
        hours = int(months / 12. * 8760.)
        year = s.hourly_extraction_ground_loads
        years = math.ceil(hours / 8760)
        Q = [-1. * x for x in (year * years)[:hours]]
        t = [i + 1 for i in range(hours)]
    else:
        raise ValueError('method')
    fluid, wall = s._simulate_detailed(np.array(Q), np.array(t), g)
    s.HPEFT = fluid
    s.dTb = wall
    return max(fluid), min(fluid)
'''


def interpolant(I, st, n):
    return I.call(py(Ext('scipy.interpolate.interp1d')),
                  [I.make_input(n + '.x', 'seq', st),
                   I.make_input(n + '.y', 'seq', st)], {}, st)


def rb_token(I, f, args, kw, st, node):
    b = list(I.bind(f, args, kw, st).values())
    if len(b) > 1 and any(x is not NONE for x in b[1:]):
        raise Undecided('resistance for another flow')
    return mk('fn', 'Rb-of', frozen(I, I.getattr(b[0], 'state', st), st))


X.NUMFN.add('Rb-of')
X.FNSIGN['Rb-of'] = '>0'
evalt.TRUSTED.add('Rb-of')


def year_loads(r):
    """a year of hourly loads, few of which differ"""
    v = [Fraction(r.randint(-900, 900), 7) for _ in range(5)]
    out = [v[0]] * 8760
    for _ in range(40):
        out[r.randrange(8760)] = r.choice(v)
    return out


RB = {BHE + 'BasePipe.compute_effective_borehole_resistance': rb_token}


two_tubes = instance(
    GHE, bhe=instance(BHE + 'SingleUTube', state='any'),
    bhe_eq=instance(BHE + 'SingleUTube', state='any'),
    radial_numerical=instance(RNB, state='any'))


def rules(C):
    C.load(SPEC)
    same = lambda run, I: X.eq(X.length(sym('Q', 'seq')),
                               X.length(sym('t', 'seq')))
    C.equiv('superposition', BASE + '._simulate_detailed', 'superposition',
            [('s', two_tubes), ('Q', 'array'), ('t', 'array'), ('g', interpolant)],
            cuts=RB, assume=[same], seqlen=3)
    for m in ('hybrid', 'hourly'):
        C.equiv('loads and state of a %s simulation' % m, GHE + '.simulate',
                'simulate', [('s', sim_ghe), ('method', fixed(string(m)))],
                cuts=SIM, pick=outcome('HPEFT', 'dTb'), domains={
                    's.hourly_extraction_ground_loads': year_loads,
                    's.sim_params.start_month': lambda r: r.randint(1, 3),
                    's.sim_params.end_month': lambda r: r.randint(3, 30)})
    C.equiv('methods accepted', GHE + '.simulate',
            'simulate', [('s', sim_ghe), ('method', 'str')],
            cuts=SIM, pick=lambda v, run: ZERO)
