"""the exported file describes the selected design"""
from ..oblig import *
from .world import *
from . import disk
from .p19 import parts
from .p27 import curve, places

SPEC = '''
import json
from ghedt import search_routines
from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as bh

def exported(s, name, *parts):
    ghe = s.ghe
    ghe.bhe_eq = bh.SingleUTube(*parts)
    tube = ghe.bhe_eq
    g = ghe.grab_g_function(ghe.B_spacing / ghe.bhe.b.H)
    n = g.x.size - 27
    at = [i for i in range(1, n, max(1, n // 30))] + \\
        [i for i in range(n, g.x.size)]
    d = {'borehole_length': ghe.bhe.b.H,
         'number_of_boreholes': len(s.selected_coordinates),
         'g_function_pairs': [{'ln_tts': g.x[i], 'g_value': g.y[i]}
                              for i in at],
         'single_u_tube': {
             'r_b': tube.borehole.r_b, 'r_in': tube.r_in, 'r_out': tube.r_out,
             's': tube.pipe.s, 'pos': tube.pos,
             'm_flow_borehole': tube.m_flow_borehole, 'k_g': tube.grout.k,
             'k_s': tube.soil.k, 'k_p': tube.pipe.k}}
    with open(name + '.json', 'w') as f:
        f.write(json.dumps(d, indent=4))

def exported_code(s, name, *parts):
    s.ghe.bhe_eq = bh.SingleUTube(*parts)
    search_routines.oak_ridge_export(s, file_name=name)

def usual(s, *parts):
    exported(s, 'ghedt_output', *parts)

def usual_code(s, *parts):
    s.ghe.bhe_eq = bh.SingleUTube(*parts)
    search_routines.oak_ridge_export(s)
'''


def rules(C):
    C.load(SPEC)
    C.load(disk.SOURCE, 'disk')
    for cls in (B1, B2, BZ):
        search = instance(cls, selected_coordinates=places, ghe=instance(
            GHE, bhe='obj', bhe_eq='obj', B_spacing='pos'))
        for n in (27, 28, 29, 57, 58, 86, 87, 88, 180) if cls is B1 else (90,):
            C.equiv('%s, %d values' % (cls.split('.')[-1], n),
                    'ghedt.search_routines.oak_ridge_export', 'exported',
                    [('s', search), ('name', 'str')] + parts(1),
                    code='spec.exported_code', cuts=dict(
                        disk.DISK, **{BASE + '.grab_g_function': curve(n)}),
                    pick=disk.effects,
                    ikw=dict(unroll_range=300, unroll_lit=300))
    C.equiv('usual name', 'ghedt.search_routines.oak_ridge_export', 'usual',
            [('s', search)] + parts(1), code='spec.usual_code', cuts=dict(
                disk.DISK, **{BASE + '.grab_g_function': curve(90)}),
            pick=disk.effects, ikw=dict(unroll_range=300, unroll_lit=300))
