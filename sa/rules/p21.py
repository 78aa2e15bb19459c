"""short time steps of a borehole: the radial grid and its heat balance"""
from ..oblig import *
from .world import *

SPEC = '''
import numpy as np
from math import log, exp, sqrt, pi
from scipy.interpolate import interp1d
from scipy.linalg.lapack import dgtsv
from ghedt.peak_load_analysis_tool import radial_numerical_borehole as rnb

def rings(kind, start, w, n, k, rho_cp, T):
    """n cells of one width, each beginning where the last ends"""
    return [[kind for i in range(n)], [start + i * w for i in range(n)],
            [start + i * w + w / 2. for i in range(n)],
            [start + i * w + w for i in range(n)], [w for i in range(n)],
            [k for i in range(n)], [rho_cp for i in range(n)],
            [T for i in range(n)],
            [pi * ((start + i * w + w) ** 2 - (start + i * w) ** 2)
             for i in range(n)]]

def core_rings(r0, w, k, rho_cp, T):
    """fluid: nodes at r0, r0 + w, r0 + 2 w; the first is cut in half"""
    a, b, c = rings(1, r0, w / 2., 1, k, rho_cp, T), rings(
        1, r0 + w / 2., w, 1, k, rho_cp, T), rings(
        1, r0 + 3 * w / 2., w, 1, k, rho_cp, T)
    a[2], a[4] = [r0], [w]
    return [a[j] + b[j] + c[j] for j in (0, 1, 2, 3, 4, 5, 6, 7, 8)]

def grid(tube, Rp, Rf, Rtg, T, pipe_width):
    p, rb = tube.pipe, tube.b.r_b
    t = p.r_out - p.r_in
    tube_out = sqrt(2) * p.r_out
    tube_in = tube_out - t
    conv = tube_in - t / 4.
    core = conv - 3. / 4. * t
    C = 2. * p.r_in ** 2 * tube.fluid.rho * tube.fluid.cp / (
        conv ** 2 - core ** 2)
    regions = [
        core_rings(core, (conv - core) / 3, C / tube.fluid.cp, C, T),
        rings(2, conv, tube_in - conv, 1,
              log(tube_in / conv) / (2. * pi * Rf), 1., T),
        rings(3, tube_in, pipe_width(t), 4,
              log(rb / tube_in) / (2. * pi * Rp), p.rhoCp, T),
        rings(4, tube_out, (rb - tube_out) / 27, 27,
              log(rb / tube_in) / (2. * pi * Rtg), tube.grout.rhoCp, T),
        rings(5, rb, (10 - rb - rb) / 500, 500, tube.soil.k,
              tube.soil.rhoCp, T)]
    return [regions[0][j] + regions[1][j] + regions[2][j] + regions[3][j] +
            regions[4][j] for j in (0, 1, 2, 3, 4, 5, 6, 7, 8)]

def whole(tube, Rp, Rf, Rtg):
    return grid(tube, Rp, Rf, Rtg, 20., lambda t: t)

def adjoining(tube, Rp, Rf, Rtg):
    return grid(tube, Rp, Rf, Rtg, 20., lambda t: t / 4)

def whole_code(tube, Rp, Rf, Rtg):
    r = rnb.RadialNumericalBH(tube)
    a = np.zeros(shape=(9, 535))
    r.fill_radial_cell(a, Rp, Rf, Rtg)
    return a

def rows(tube):
    Rb = tube.compute_effective_borehole_resistance()
    Rf = tube.R_f / 2.
    r = rnb.RadialNumericalBH(tube)
    a = np.zeros((9, 535))
    r.fill_radial_cell(a, tube.R_p / 2., Rf, Rb - Rf)
    return a, Rb

def heat(tube, n):
    """unit heat per metre into the core for n steps of two minutes"""
    cells, Rb = rows(tube)
    a, c, b, k, C, V = [np.array(cells[j]) for j in (1, 2, 3, 5, 6, 8)]
    out = np.log(b / c) / (2. * pi * k)
    into = np.log(c / a) / (2. * pi * k)
    to_east = 1. / (out[:534] + into[1:])
    mass = C * V / 120
    low = to_east[:533] / mass[1:534]
    high = to_east[1:] / mass[1:534]
    T = np.array([20. for i in range(535)])
    ts = times(tube)[0]
    x, g = [], []
    for i in range(n):
        rhs = np.array([-T[0] - 1. / mass[0]] + list(-T[1:534]) + [T[534]])
        T = dgtsv(np.array(list(low) + [0.]),
                  np.array([-to_east[0] / mass[0] - 1] +
                           list(-low - high - 1.) + [1.]),
                  np.array([to_east[0] / mass[0]] + list(high)), rhs)[3]
        x.append(log((1e-12 + 120 * i) / ts))
        g.append(2. * pi * tube.soil.k * (T[0] - 20. - Rb))
    return x, g

def heat_1(tube):
    return heat(tube, 1)

def heat_1_code(tube):
    return rnb.RadialNumericalBH(tube).calc_sts_g_functions(
        tube, final_time=120.)

def heat_3(tube):
    x, g = heat(tube, 3)
    return x, g, interp1d(x, g)

def heat_3_code(tube):
    r = rnb.RadialNumericalBH(tube)
    x, g = r.calc_sts_g_functions(tube, final_time=300.)
    return x, g, r.g_sts

def heat_again(tube, other):
    x, g = heat(tube, 2)
    return x, g, interp1d(x, g), x, g

def heat_again_code(tube, other):
    r = rnb.RadialNumericalBH(other)
    r.calc_sts_g_functions(other, final_time=300.)
    x, g = r.calc_sts_g_functions(tube, final_time=240.)
    return x, g, r.g_sts, r.lntts, r.g

def default_time(tube):
    r = rnb.RadialNumericalBH(tube)
    return r.calc_sts_g_functions(tube, final_time=times(tube)[1])

def default_time_code(tube):
    return rnb.RadialNumericalBH(tube).calc_sts_g_functions(tube)

def at_the_wall(tube):
    raise ValueError('not supported')

def at_the_wall_code(tube):
    return rnb.RadialNumericalBH(tube).calc_sts_g_functions(
        tube, final_time=120., calculate_at_bh_wall=True)

def times(tube):
    ts = tube.b.H ** 2 / (9 * (tube.k_s / tube.soil.rhoCp))
    return ts, max(ts * exp(-8.6), 49. * 3600.), 2. * pi * tube.soil.k

def times_code(tube):
    r = rnb.RadialNumericalBH(tube)
    return r.t_s, r.calc_time_in_sec, r.c_0
'''
U1 = BHE + 'SingleUTube'


def fill(I, f, args, kw, st, node):
    """the cells have an obligation of their own"""
    b = I.bind(f, args, kw, st)
    names = [x.arg for x in f.node.args.args]
    c = st.heap.get(b[names[1]].args[0]) if b[names[1]].op == 'ref' else None
    if c is None or c.kind != 'grid' or len(c.val.args) != 9:
        raise Undecided('cells')
    rs = [frozen(I, b[n], st) for n in names[2:]]
    for j, g in enumerate(c.val.args):
        k = fresh('k', 'int', 0)
        o = g.args[0]
        n = X.length(st.heap[o.args[0]].val)
        st.heap[o.args[0]] = type(c)(X.seqfor(n, k, X.lit([
            mk('fn', 'cell', num(j), k, *rs) if j != 7 else num(20)])),
            'array')
    return NONE


X.FNSIGN['cell'] = '>0'
evalt.TRUSTED.add('cell')
INS = [('tube', instance(U1)), ('Rp', 'pos'), ('Rf', 'pos'), ('Rtg', 'pos')]


def rules(C):
    C.load(SPEC)
    C.equiv('time scale', RNB + '.__init__', 'times', INS[:1],
            code='spec.times_code')
    C.equiv('cells', RNB + '.fill_radial_cell', 'adjoining', INS,
            code='spec.whole_code', recorded='whole')
    cuts = {RNB + '.fill_radial_cell': fill,
            BHE + 'BasePipe.compute_effective_borehole_resistance':
                lambda *a: sym('Rb', 'real', 0, True)}
    for name, spec, ins in (
            ('one step', 'heat_1', 1), ('three steps', 'heat_3', 1),
            ('another borehole before', 'heat_again', 2),
            ('time simulated by default', 'default_time', 1),
            ('temperature of the wall', 'at_the_wall', 1)):
        C.equiv(name, RNB + '.calc_sts_g_functions', spec,
                [('tube', instance(U1)), ('other', instance(U1))][:ins],
                code='spec.%s_code' % spec, cuts=cuts)
