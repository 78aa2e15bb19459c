"""the g-functions a sizing interpolates span the allowed heights"""
from ..oblig import *
from .world import *

SPEC = '''
def spanning(g):
    lo = g.sim_params.min_Height
    hi = g.sim_params.max_Height
    r = g.bhe.b.r_b
    D = g.bhe.b.D
    g.GFunction = live(
        g.B_spacing, [lo, (lo + hi) / 2, hi], [r, r, r], [D, D, D],
        g.bhe.m_flow_borehole, g.bhe_object, g.GFunction.log_time,
        g.GFunction.bore_locations, g.bhe.fluid, g.bhe.pipe, g.bhe.grout,
        g.bhe.soil)
    return seen(g)

def seen(g):
    f = g.GFunction
    return [f.B, f.r_b_values, f.D_values, f.g_lts, f.log_time,
            f.bore_locations, g.B_spacing, g.bhe.b.H, g.bhe.b.r_b, g.bhe.b.D,
            g.bhe.m_flow_borehole, g.sim_params.min_Height,
            g.sim_params.max_Height, g.bhe_object]

def live(*a):
    from ghedt.gfunction import compute_live_g_function
    return compute_live_g_function(*a)

def spanning_code(g):
    g.compute_g_functions()
    return seen(g)
'''
PARTS = ('B', 'r_b_values', 'D_values', 'g_lts', 'log_time', 'bore_locations')
evalt.TRUSTED.update('live-' + n for n in PARTS)


def curves(I, f, args, kw, st, node):
    a = [frozen(I, v, st) for v in args_of(I, f, args, kw, st)]
    return I.alloc(st, Obj(pyval(I.lookup(GF)), {
        n: mk('fn', 'live-' + n, *a) for n in PARTS}, None))


def rules(C):
    C.load(SPEC)
    where = BASE + '.compute_g_functions'
    for kind in ('SingleUTube', 'MultipleUTube', 'CoaxialPipe'):
        g = instance(GHE, bhe=instance(BHE + kind, b='obj', fluid='obj',
                                       pipe='obj', grout='obj', soil='obj',
                                       m_flow_borehole='pos'),
                     bhe_object=opaque_class(BHE + kind), B_spacing='pos',
                     sim_params='obj', GFunction=instance(
                         GF, log_time='seq', bore_locations='seq'))
        C.equiv('minimum, mean and maximum height, ' + kind, where,
                'spanning', [('g', g)], code='spec.spanning_code',
                cuts={LIVE: curves})
