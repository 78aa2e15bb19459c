"""an updated borehole heat exchanger equals one built for the new state"""
from ..oblig import *
from .world import *
from .p19 import parts

SPEC = '''
import pygfunction as gt
from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as bh
from ghedt.peak_load_analysis_tool import equivalance

TUBE = ['m_flow_borehole', 'm_flow_pipe', 'h_f', 'R_p', 'R_f', 'R_fp', 'fluid']
RING = ['m_flow_borehole', 'm_flow_pipe', 'R_p_in', 'R_p_out', 'R_grout',
        'h_fluid_a_in', 'h_fluid_a_out', 'h_fluid_in', 'R_f_a_in', 'R_f_a_out',
        'R_f_in', 'R_ff', 'R_fp', 'fluid']

def build(kind, m, fluid, b, pipe, grout, soil):
    if kind == 'single':
        return bh.SingleUTube(m, fluid, b, pipe, grout, soil)
    if kind == 'coaxial':
        return bh.CoaxialPipe(m, fluid, b, pipe, grout, soil)
    return bh.MultipleUTube(m, fluid, b, pipe, grout, soil, config=kind)

def seen(kind, x):
    return [getattr(x, n) for n in (RING if kind == 'coaxial' else TUBE)]

def anew(kind, m, fluid, b, pipe, grout, soil, H, m1, fluid1, how):
    b.H = H
    x = build(kind, m if m1 is None else m1,
              fluid if fluid1 is None else fluid1, b, pipe, grout, soil)
    R = x.compute_effective_borehole_resistance()
    return seen(kind, x), R, R

def anew_code(kind, m, fluid, b, pipe, grout, soil, H, m1, fluid1, how):
    x = build(kind, m, fluid, b, pipe, grout, soil)
    x.b.H = H
    if how == 'update':
        R = x.update_thermal_resistance(m_flow_borehole=m1, fluid=fluid1)
    elif m1 is None:
        R = x.compute_effective_borehole_resistance(fluid=fluid1)
    elif fluid1 is None:
        R = x.compute_effective_borehole_resistance(m1)
    else:
        R = x.compute_effective_borehole_resistance(m1, fluid1)
    return seen(kind, x), R, x.compute_effective_borehole_resistance()

def media(kind, m, fluid, b, pipe, grout, soil, kp, kg):
    pipe.k = [kp, pipe.k[1]] if kind == 'coaxial' else kp
    grout.k = kg
    x = build(kind, m, fluid, b, pipe, grout, soil)
    return seen(kind, x), x.compute_effective_borehole_resistance()

def media_code(kind, m, fluid, b, pipe, grout, soil, kp, kg):
    x = build(kind, m, fluid, b, pipe, grout, soil)
    x.pipe.k = [kp, pipe.k[1]] if kind == 'coaxial' else kp
    x.grout.k = kg
    x.k_g = kg
    x.update_thermal_resistance()
    return seen(kind, x), x.compute_effective_borehole_resistance()
'''
CLS = {'single': 'SingleUTube', 'coaxial': 'CoaxialPipe',
       'series': 'MultipleUTube', 'parallel': 'MultipleUTube'}


def rules(C):
    C.load(SPEC)
    for kind in ('single', 'series', 'parallel', 'coaxial'):
        for n in ((1, 2, 3) if kind in ('series', 'parallel') else (1,)):
            base = [('kind', fixed(string(kind)))] + \
                parts(n, kind == 'coaxial')
            for m1 in (False, True):
                for f1 in (False, True):
                    for how in ('update', 'compute'):
                        if how == 'compute' and not (m1 or f1):
                            continue
                        C.equiv('%s %d %s%s%s' % (
                            kind, n, how, ', flow' if m1 else '',
                            ', fluid' if f1 else ''),
                            '%s%s.update_thermal_resistance' % (
                                BHE, CLS[kind]), 'anew', base + [
                            ('H', 'pos'), ('m1', 'pos' if m1 else fixed(NONE)),
                            ('fluid1', 'obj' if f1 else fixed(NONE)),
                            ('how', fixed(string(how)))],
                            code='spec.anew_code')
            C.equiv('%s %d, other media' % (kind, n),
                    '%s%s.update_thermal_resistance' % (BHE, CLS[kind]),
                    'media', base + [('kp', 'pos'), ('kg', 'pos')],
                    code='spec.media_code')
