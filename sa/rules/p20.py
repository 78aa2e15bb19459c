"""the single U-tube that stands for another heat exchanger"""
from ..oblig import *
from .world import *
from .p19 import parts, pipe, PIPE

SPEC = '''
from copy import deepcopy
from math import pi, log, sqrt
import pygfunction as gt
from scipy.optimize import brentq
from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as bh
from ghedt.peak_load_analysis_tool import equivalance
from ghedt.peak_load_analysis_tool import media

def equivalent(x):
    if type(x) == bh.SingleUTube:
        return x
    if type(x) == bh.MultipleUTube:
        return equivalance.multiple_to_single(x)
    if type(x) == bh.CoaxialPipe:
        return equivalance.coaxial_to_single(x)
    raise ValueError('not a heat exchanger')

def tubes(x):
    n = 2 * x.nPipes
    return (n * pi * x.r_in ** 2, n * pi * (x.r_out ** 2 - x.r_in ** 2),
            1 / (x.h_f * n * 2 * pi * x.r_in),
            log(x.r_out / x.r_in) / (2 * pi * n * x.pipe.k))

def tubes_recorded(x):
    n = 2 * x.nPipes
    return (n * pi * x.r_in ** 2, n * pi * (x.r_out ** 2 - x.r_in ** 2),
            1 / (x.h_f * n * pi * (2 * x.r_in) ** 2),
            log(x.r_out / x.r_in) / (2 * pi * n * x.pipe.k))

def rings(x):
    a, b = x.r_inner
    c, d = x.r_outer
    return (pi * (a * a + c * c - b * b), pi * (b * b - a * a + d * d - c * c),
            1 / (x.h_fluid_a_out * 2 * pi * c),
            log(d / c) / (2 * pi * x.pipe.k[1]))

def rings_recorded(x):
    a, b = x.r_inner
    c, d = x.r_outer
    return (pi * (a * a + c * c - b * b), pi * (b * b - a * a + d * d - c * c),
            1 / (x.h_fluid_a_in * 2 * pi * c),
            log(d / c) / (2 * pi * x.pipe.k[1]))

def described(y):
    return (y.pipe.pos, y.pipe.r_in, y.pipe.r_out, y.pipe.s, y.pipe.eps,
            y.pipe.k, y.pipe.rhoCp, y.pipe.n_pipes, y.m_flow_borehole,
            y.m_flow_pipe, y.b.H, y.b.D, y.b.r_b, y.fluid.mu, y.fluid.rho,
            y.fluid.cp, y.fluid.k, y.grout.k, y.grout.rhoCp, y.soil.k,
            y.soil.rhoCp, y.h_f, y.R_p, y.R_f, y.R_fp,
            y.compute_effective_borehole_resistance())

def start(x, Vf, Vp, Rc, Rp):
    ri = sqrt(Vf / (2 * pi))
    ro = sqrt((Vf + Vp) / (2 * pi))
    b = deepcopy(x.b)
    free = b.r_b * 2 - 4 * ro
    if free <= 0:
        b.r_b = 4 * ro - b.r_b
        free = b.r_b / 5
        b.r_b = b.r_b + free
    s = free / 3
    p = media.Pipe(media.Pipe.place_pipes(s, ro, 1), ri, ro, s, x.pipe.eps,
                   log(ro / ri) / (4 * pi * Rp), x.pipe.rhoCp)
    return bh.SingleUTube(x.m_flow_borehole, x.fluid, b, p, x.grout, x.soil)

def single(x, Vf, Vp, Rc, Rp):
    y = start(x, Vf, Vp, Rc, Rp)
    def excess(k):
        y.pipe.k = k
        y.update_thermal_resistance()
        return y.R_fp - (Rc + Rp)
    k0 = y.pipe.k
    equivalance.solve_root(k0, excess, lower=k0 / 100, upper=10 * k0)
    k = y.pipe.k
    if excess(k0 / 100) < 0:
        k = k0 / 100
    excess(k)
    return described(y)

def single_recorded(x, Vf, Vp, Rc, Rp):
    y = start(x, Vf, Vp, Rc, Rp)
    def excess(k):
        y.pipe.k = k
        y.update_thermal_resistance()
        return y.R_fp - (Rc + Rp)
    equivalance.solve_root(y.pipe.k, excess, lower=y.pipe.k / 100,
                           upper=10 * y.pipe.k)
    y.update_thermal_resistance()
    return described(y)

def single_code(x, Vf, Vp, Rc, Rp):
    return described(equivalance.equivalent_single_u_tube(x, Vf, Vp, Rc, Rp))

def seen(x):
    return (x.b.H, x.b.D, x.b.r_b, x.fluid.mu, x.fluid.k, x.fluid.cp,
            x.fluid.rho, x.grout.k, x.grout.rhoCp, x.soil.k, x.soil.rhoCp,
            x.pipe.eps, x.pipe.rhoCp, x.pipe.k, x.pipe.r_in, x.pipe.r_out,
            x.m_flow_borehole)

def apart(x, Vf, Vp, Rc, Rp, v):
    return seen(x)

def apart_code(x, Vf, Vp, Rc, Rp, v):
    y = equivalance.equivalent_single_u_tube(x, Vf, Vp, Rc, Rp)
    y.b.H = v
    y.b.r_b = v
    y.fluid.mu = v
    y.fluid.k = v
    y.grout.k = v
    y.grout.rhoCp = v
    y.soil.k = v
    y.soil.rhoCp = v
    y.pipe.k = v
    y.pipe.eps = v
    y.m_flow_borehole = v
    return seen(x)

def matched(x, m, fluid, b, pipe, grout, soil):
    y = bh.SingleUTube(m, fluid, b, pipe, grout, soil)
    def excess(k):
        y.grout.k = k
        y.k_g = k
        y.update_thermal_resistance()
        return (x.compute_effective_borehole_resistance()
                - y.compute_effective_borehole_resistance())
    excess(equivalance.solve_root(y.grout.k, excess, lower=0.01, upper=7))
    return described(y), y.k_g

def matched_code(x, m, fluid, b, pipe, grout, soil):
    y = bh.SingleUTube(m, fluid, b, pipe, grout, soil)
    equivalance.match_effective_borehole_resistance(x, y)
    return described(y), y.k_g

def multiple(x):
    y = equivalance.equivalent_single_u_tube(x, *equivalance.u_tube_volumes(x))
    equivalance.match_effective_borehole_resistance(x, y)
    return y.state

def multiple_code(x):
    return equivalance.multiple_to_single(x).state

def coaxial_code(x):
    return equivalance.coaxial_to_single(x).state

def coaxial(x):
    y = equivalance.equivalent_single_u_tube(
        x, *equivalance.concentric_tube_volumes(x))
    equivalance.match_effective_borehole_resistance(x, y)
    return y.state
'''
EQV = PL + 'equivalance.'
for _n in ('volumes', 'volumes-c', 'one-tube', 'matched', 'eq-m', 'eq-c',
           'resistance-of'):
    evalt.TRUSTED.add(_n)


def four(name):
    def h(I, f, args, kw, st, node):
        a = [frozen(I, x, st) for x in args_of(I, f, args, kw, st)]
        return lit([mk('fn', name, num(i), *a) for i in range(4)])
    return h


def one_tube(I, f, args, kw, st, node):
    a = [frozen(I, x, st) for x in args_of(I, f, args, kw, st)]
    return I.alloc(st, Obj(I.lookup(BHE + 'SingleUTube'), {
        'state': mk('fn', 'one-tube', *a)}, None))


def match(I, f, args, kw, st, node):
    ref, new = args_of(I, f, args, kw, st)[:2]
    I.setattr(new, 'state', mk('fn', 'matched', frozen(I, ref, st),
                               I.getattr(new, 'state', st)), st)
    return NONE


def exchanger(kind, **kw):
    """a heat exchanger whose own resistance is whatever it is"""
    base = dict(b='obj', fluid='obj', grout='obj', soil='obj',
                m_flow_borehole='pos')
    base.update(kw)
    return instance(BHE + kind, **base)


def own(I, f, args, kw, st, node):
    me = args_of(I, f, args, kw, st)[0]
    return mk('fn', 'resistance-of', I.getattr(me, 'state', st))


def rules(C):
    C.load(SPEC)
    to = {EQV + 'multiple_to_single': all_args('eq-m'),
          EQV + 'coaxial_to_single': all_args('eq-c')}
    for cls in ('SingleUTube', 'MultipleUTube', 'CoaxialPipe', 'BasePipe'):
        C.equiv('dispatch on ' + cls, EQV + 'compute_equivalent', 'equivalent',
                [('x', instance(BHE + cls, state='any'))], cuts=to)
    C.equiv('volumes and resistances of U-tubes', EQV + 'u_tube_volumes',
            'tubes', [('x', instance(
                BHE + 'MultipleUTube', nPipes='posint', r_in='pos',
                r_out='pos', h_f='pos', b='obj',
                pipe=instance(PIPE, k='pos')))], recorded='tubes_recorded')
    two = lambda a, b: (lambda I, st, n: lit([
        sym(n + a, 'real', 0, True), sym(n + b, 'real', 0, True)]))
    C.equiv('volumes and resistances of a coaxial pipe',
            EQV + 'concentric_tube_volumes', 'rings', [('x', instance(
                BHE + 'CoaxialPipe', r_inner=two('0', '1'),
                r_outer=two('0', '1'), h_fluid_a_in='pos',
                h_fluid_a_out='pos', b='obj',
                pipe=instance(PIPE, k=two('0', '1'))))],
            recorded='rings_recorded')
    vol = [(n, 'pos') for n in ('Vf', 'Vp', 'Rc', 'Rp')]
    for kind in ('MultipleUTube', 'CoaxialPipe'):
        x = exchanger(kind, pipe=pipe(2, kind == 'CoaxialPipe'))
        C.equiv('single U-tube for a ' + kind,
                EQV + 'equivalent_single_u_tube', 'single',
                [('x', x)] + vol, code='spec.single_code',
                recorded='single_recorded')
        C.equiv('%s untouched' % kind, EQV + 'equivalent_single_u_tube',
                'apart', [('x', x)] + vol + [('v', 'pos')],
                code='spec.apart_code')
    C.equiv('grout matched', EQV + 'match_effective_borehole_resistance',
            'matched', [('x', exchanger('CoaxialPipe', state='any'))] +
            parts(1), code='spec.matched_code',
            cuts={BHE + 'CoaxialPipe.compute_effective_borehole_resistance':
                  own})
    cuts = {EQV + 'u_tube_volumes': four('volumes'),
            EQV + 'concentric_tube_volumes': four('volumes-c'),
            EQV + 'equivalent_single_u_tube': one_tube,
            EQV + 'match_effective_borehole_resistance': match}
    for n, c in (('multiple', 'MultipleUTube'), ('coaxial', 'CoaxialPipe')):
        C.equiv('equivalent of a ' + c, EQV + n + '_to_single', n,
                [('x', instance(BHE + c, state='any'))], cuts=cuts,
                code='spec.%s_code' % n)
