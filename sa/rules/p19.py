"""resistances of the three kinds of borehole heat exchanger"""
from ..oblig import *
from .world import *

SPEC = '''
import math
import numpy as np
import pygfunction as gt
from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as bh
from ghedt.peak_load_analysis_tool import media

h_pipe = gt.pipes.convective_heat_transfer_coefficient_circular_pipe
h_ring = gt.pipes.convective_heat_transfer_coefficient_concentric_annulus
R_wall = gt.pipes.conduction_thermal_resistance_circular_pipe

class One(gt.pipes.SingleUTube):
    pass

class Many(gt.pipes.MultipleUTube):
    pass

class Ring(gt.pipes.Coaxial):
    pass

def tube(m, fluid, pipe):
    h = h_pipe(m, pipe.r_in, fluid.mu, fluid.rho, fluid.k, fluid.cp, pipe.eps)
    Rp = R_wall(pipe.r_in, pipe.r_out, pipe.k)
    return h, Rp, 1. / (2 * math.pi * pipe.r_in * h)

def seen(b, names):
    return ([getattr(b, n) for n in names],
            b.compute_effective_borehole_resistance())

def single(m, fluid, b, pipe, grout, soil):
    h, Rp, Rf = tube(m, fluid, pipe)
    r = One(pipe.pos, pipe.r_in, pipe.r_out, b, soil.k, grout.k, Rp + Rf)
    return ([m, m, h, Rp, Rf, Rp + Rf],
            r.effective_borehole_thermal_resistance(m, fluid.cp))

def single_code(m, fluid, b, pipe, grout, soil):
    return seen(bh.SingleUTube(m, fluid, b, pipe, grout, soil), [
        'm_flow_borehole', 'm_flow_pipe', 'h_f', 'R_p', 'R_f', 'R_fp'])

def coefficient(m, fluid, b, pipe, grout, soil, other):
    return h_pipe(other, pipe.r_in, fluid.mu, fluid.rho, fluid.k, fluid.cp,
                  pipe.eps)

def coefficient_code(m, fluid, b, pipe, grout, soil, other):
    return bh.SingleUTube(m, fluid, b, pipe, grout,
                          soil).compute_convection_coefficient(other)

def several(m, fluid, b, pipe, grout, soil, config):
    n = len(pipe.pos) // 2
    if config == 'series':
        each = m
    elif config == 'parallel':
        each = m / n
    else:
        raise ValueError('configuration')
    h, Rp, Rf = tube(each, fluid, pipe)
    r = Many(pipe.pos, pipe.r_in, pipe.r_out, b, soil.k, grout.k, Rp + Rf, n,
             config=config)
    return ([m, each, h, Rp, Rf, Rp + Rf, n],
            r.effective_borehole_thermal_resistance(m, fluid.cp))

def several_code(m, fluid, b, pipe, grout, soil, config):
    return seen(bh.MultipleUTube(m, fluid, b, pipe, grout, soil,
                                 config=config),
                ['m_flow_borehole', 'm_flow_pipe', 'h_f', 'R_p', 'R_f', 'R_fp',
                 'n_pipes'])

def default(m, fluid, b, pipe, grout, soil):
    return several(m, fluid, b, pipe, grout, soil, 'parallel')

def default_code(m, fluid, b, pipe, grout, soil):
    return seen(bh.MultipleUTube(m, fluid, b, pipe, grout, soil),
                ['m_flow_borehole', 'm_flow_pipe', 'h_f', 'R_p', 'R_f', 'R_fp',
                 'n_pipes'])

def coaxial(m, fluid, b, pipe, grout, soil):
    # pipe.r_in are the two radii of the inner pipe, pipe.r_out of the outer
    a, c = pipe.r_in
    d, e = pipe.r_out
    R1 = R_wall(a, c, pipe.k[0])
    R2 = R_wall(d, e, pipe.k[1])
    R3 = R_wall(e, b.r_b, grout.k)
    h1, h2 = h_ring(m, c, d, fluid.mu, fluid.rho, fluid.k, fluid.cp, pipe.eps)
    h0 = h_pipe(m, a, fluid.mu, fluid.rho, fluid.k, fluid.cp, pipe.eps)
    f0 = 1. / (2 * math.pi * a * h0)
    f1 = 1. / (2 * math.pi * c * h1)
    f2 = 1. / (2 * math.pi * d * h2)
    r = Ring(pipe.pos, np.array([a, d]), np.array([c, e]), b, soil.k, grout.k,
             f0 + R1 + f1, R2 + f2, J=2)
    return ([m, m, R1, R2, R3, h1, h2, h0, f1, f2, f0, f0 + R1 + f1, R2 + f2],
            r.effective_borehole_thermal_resistance(m, fluid.cp))

def coaxial_code(m, fluid, b, pipe, grout, soil):
    return seen(bh.CoaxialPipe(m, fluid, b, pipe, grout, soil), [
        'm_flow_borehole', 'm_flow_pipe', 'R_p_in', 'R_p_out', 'R_grout',
        'h_fluid_a_in', 'h_fluid_a_out', 'h_fluid_in', 'R_f_a_in', 'R_f_a_out',
        'R_f_in', 'R_ff', 'R_fp'])

def reynolds(m, r, eps, fluid):
    return 2 * m / (math.pi * r * fluid.mu)

def ring(m, a, b, fluid):
    return 2 * m / (math.pi * (a + b) * fluid.mu)

def place(s, r, n):
    return media.Pipe.place_pipes(s, r, n)

def placed(s, r, n):
    R = s / 2 + r
    out = []
    for i in range(2 * n):
        turn = math.pi + i * math.pi / n
        out.append((R * math.cos(turn), R * math.sin(turn)))
    return out

def made(pos, r_in, r_out, s, eps, k, rhoCp):
    return (pos, r_in, r_out, s, eps, k, rhoCp,
            len(pos) // 2 if type(pos) is list else 1)

def made_code(pos, r_in, r_out, s, eps, k, rhoCp):
    p = media.Pipe(pos, r_in, r_out, s, eps, k, rhoCp)
    return (p.pos, p.r_in, p.r_out, p.s, p.eps, p.k, p.rhoCp, p.n_pipes)
'''
PIPE = PL + 'media.Pipe'


def pair(a, b):
    return lambda I, st, n: I.newlist(st, lit([
        sym(n + a, 'real', 0, True), sym(n + b, 'real', 0, True)]))


def positions(n):
    """2n pipe positions"""
    def f(I, st, name):
        return I.newlist(st, lit([sym('pos%d' % i, 'any')
                                  for i in range(2 * n)]))
    return f


def pipe(n, coaxial=False):
    if coaxial:
        return instance(PIPE, pos=lit([ZERO, ZERO]), r_in=pair('0', '1'),
                        r_out=pair('0', '1'), k=pair('0', '1'), eps='pos',
                        rhoCp='pos', s='pos', n_pipes=ONE)
    return instance(PIPE, pos=positions(n), r_in='pos', r_out='pos', k='pos',
                    eps='pos', rhoCp='pos', s='pos', n_pipes=num(n))


def parts(n, coaxial=False):
    return [('m', 'pos'), ('fluid', 'obj'), ('b', 'obj'),
            ('pipe', pipe(n, coaxial)), ('grout', 'obj'), ('soil', 'obj')]


def rules(C):
    C.load(SPEC)
    C.equiv('single U-tube', BHE + 'SingleUTube.__init__', 'single', parts(1),
            code='spec.single_code')
    C.equiv('convection coefficient of a single U-tube',
            BHE + 'SingleUTube.compute_convection_coefficient', 'coefficient',
            parts(1) + [('other', 'pos')], code='spec.coefficient_code')
    for n in (1, 2, 3, 4):
        for config in ('series', 'parallel', 'other'):
            C.equiv('%d U-tubes in %s' % (n, config),
                    BHE + 'MultipleUTube.__init__', 'several',
                    parts(n) + [('config', fixed(string(config)))],
                    code='spec.several_code')
        C.equiv('%d U-tubes' % n, BHE + 'MultipleUTube.__init__', 'default',
                parts(n), code='spec.default_code')
    C.equiv('coaxial', BHE + 'CoaxialPipe.__init__', 'coaxial', parts(1, True),
            code='spec.coaxial_code')
    C.equiv('Reynolds number of a pipe', BHE + 'compute_Reynolds', 'reynolds',
            [('m', 'pos'), ('r', 'pos'), ('eps', 'pos'), ('fluid', 'obj')])
    C.equiv('Reynolds number of an annulus',
            BHE + 'compute_Reynolds_concentric', 'ring',
            [('m', 'pos'), ('a', 'pos'), ('b', 'pos'), ('fluid', 'obj')],
            assume=[lambda r, I: X.gt0(X.sub(r.args[2], r.args[1]))])
    for n in (1, 2, 3, 4, 5, 8):
        C.equiv('%d pipe pairs placed' % n, PIPE + '.place_pipes', 'placed',
                [('s', 'pos'), ('r', 'pos'), ('n', fixed(num(n)))],
                code='spec.place', ikw=dict(unroll_range=16))
    for n, pos in (('list', positions(3)), ('single list', positions(1)),
                   ('double list', positions(2)), ('long list', positions(5)),
                   ('pair', fixed(lit([ZERO, ZERO])))):
        C.equiv('pipe of a %s' % n, PIPE + '.__init__', 'made',
                [('pos', pos), ('r_in', 'any'), ('r_out', 'any'),
                 ('s', 'pos'), ('eps', 'pos'), ('k', 'any'),
                 ('rhoCp', 'pos')], code='spec.made_code')
